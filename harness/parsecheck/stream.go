package parsecheck

import (
	"bufio"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	"verifsim/sim"
	"verifsim/simsync"
)

// Fault is a read error when the reader gets to an offset of the input.
type Fault struct {
	Off    int  `json:"off"`
	Sticky bool `json:"sticky,omitempty"`
	With   bool `json:"with,omitempty"` // together with the last data before it
}

// How the input arrives.
type How struct {
	Mode   string  `json:"mode"`            // rune, bufio, bufio16, or whole
	Cuts   []int   `json:"cuts,omitempty"`  // sizes of the pieces, in bytes, over and over
	Empty  []int   `json:"empty,omitempty"` // pieces before which a read returns nothing
	With   bool    `json:"with,omitempty"`  // the end is reported together with the last data
	Faults []Fault `json:"faults,omitempty"`
}

type faultError struct {
	n      int
	sticky bool
}

func (e *faultError) Error() string { return fmt.Sprintf("simulated read error <%d>", e.n) }

func (e *faultError) tag() string { return fmt.Sprintf("<%d>", e.n) }

// stream is one direction of a connection: what a sender has sent arrives piece
// by piece at a reader, with faults.
type stream struct {
	mu      simsync.Mutex
	cond    *simsync.Cond
	how     How
	buf     []byte // all that was sent
	pieces  []int  // ends of the pieces
	ended   bool
	at      int // what was read
	fault   int // next fault
	stuck   error
	empties map[int]bool
	waits   int
	faults  int
	empty   int
	reads   int
}

func newStream(how How) *stream {
	st := &stream{how: how, empties: map[int]bool{}}
	st.cond = simsync.NewCond(&st.mu)
	for _, n := range how.Empty {
		st.empties[n] = true
	}
	return st
}

// send makes data arrive in pieces.
func (st *stream) send(data []byte) {
	for len(data) > 0 {
		n := len(data)
		if cs := st.how.Cuts; len(cs) > 0 {
			if c := cs[len(st.pieces)%len(cs)]; c < n {
				n = c
			}
		}
		if n < 1 {
			n = 1
		}
		st.mu.Lock()
		st.buf = append(st.buf, data[:n]...)
		st.pieces = append(st.pieces, len(st.buf))
		st.cond.Broadcast()
		st.mu.Unlock()
		data = data[n:]
		sim.Y()
	}
}

func (st *stream) end() {
	st.mu.Lock()
	st.ended = true
	st.cond.Broadcast()
	st.mu.Unlock()
}

// wait until there is something to report: data up to limit, or an error.
func (st *stream) wait(enough func(avail []byte) bool) (avail []byte, err error) {
	for {
		if st.stuck != nil {
			return nil, st.stuck
		}
		limit := len(st.buf)
		var f *Fault
		if st.fault < len(st.how.Faults) {
			f = &st.how.Faults[st.fault]
			if f.Off <= st.at {
				return nil, st.fail(f)
			}
			if f.Off < limit {
				limit = f.Off
			}
		}
		avail = st.buf[st.at:limit]
		if len(avail) > 0 && (enough(avail) || st.ended || f != nil && limit == f.Off) {
			return avail, nil
		}
		if st.ended && limit == len(st.buf) && st.at == limit {
			return nil, io.EOF
		}
		st.waits++
		st.cond.Wait()
	}
}

func (st *stream) fail(f *Fault) error {
	st.fault++
	st.faults++
	err := &faultError{st.fault, f.Sticky}
	if f.Sticky {
		st.stuck = err
	}
	return err
}

func (st *stream) Read(p []byte) (int, error) {
	st.mu.Lock()
	defer st.mu.Unlock()
	st.reads++
	if len(p) == 0 {
		return 0, nil
	}
	avail, err := st.wait(func([]byte) bool { return true })
	if err != nil {
		return 0, err
	}
	k := 0
	for k < len(st.pieces) && st.pieces[k] <= st.at {
		k++
	}
	if st.empties[k] {
		delete(st.empties, k)
		st.empty++
		return 0, nil
	}
	if k < len(st.pieces) && st.pieces[k]-st.at < len(avail) {
		avail = avail[:st.pieces[k]-st.at]
	}
	n := copy(p, avail)
	st.at += n
	if st.fault < len(st.how.Faults) {
		if f := &st.how.Faults[st.fault]; f.Off == st.at && f.With {
			return n, st.fail(f)
		}
	}
	if st.how.With && st.ended && st.at == len(st.buf) && st.fault == len(st.how.Faults) {
		return n, io.EOF
	}
	return n, nil
}

// runes reads a stream rune by rune without looking ahead.
type runes struct{ st *stream }

func (r runes) ReadRune() (rune, int, error) {
	st := r.st
	st.mu.Lock()
	defer st.mu.Unlock()
	st.reads++
	avail, err := st.wait(utf8.FullRune)
	if err != nil {
		return 0, 0, err
	}
	c, n := utf8.DecodeRune(avail)
	st.at += n
	return c, n, nil
}

func (st *stream) reader() io.RuneReader {
	switch st.how.Mode {
	case "rune":
		return runes{st}
	case "bufio16":
		return bufio.NewReaderSize(st, 16)
	default:
		return bufio.NewReader(st)
	}
}

func genHow(r *sim.Rand, n int) How {
	h := How{Mode: sim.Pick(r, "rune", "rune", "bufio", "bufio", "bufio16"), With: r.Chance(1, 3)}
	switch r.Intn(5) {
	case 0:
		h.Cuts = []int{1}
	case 1:
		h.Cuts = []int{1 << 20}
	default:
		for k := r.Range(1, 5); k > 0; k-- {
			h.Cuts = append(h.Cuts, sim.Pick(r, 1, 2, 3, 7, 16, 40, r.Range(1, 200)))
		}
	}
	if r.Chance(1, 3) {
		for k := r.Range(1, 4); k > 0; k-- {
			h.Empty = append(h.Empty, r.Intn(1+n/8))
		}
	}
	return h
}

// whole is a reader of the text with its faults, without any simulation.
func whole(text string, faults []Fault) io.RuneReader {
	if len(faults) == 0 {
		return strings.NewReader(text)
	}
	st := newStream(How{Mode: "rune", Faults: faults})
	st.buf = []byte(text)
	st.pieces = []int{len(text)}
	st.ended = true
	return bufio.NewReaderSize(st, 16)
}
