package parsecheck

import (
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"verif/harness/core"
	"verifsim/sim"
	"verifsim/simsync"
)

// Input of one parser.
type Input struct {
	How
	Stmts []Stmt `json:"stmts,omitempty"`
	NoEnd bool   `json:"noend,omitempty"` // the last statement has no semicolon
	Cut   int    `json:"cut,omitempty"`   // only the first so many bytes, if > 0
	Raw   []byte `json:"raw,omitempty"`   // instead of statements
	Nest  string `json:"nest,omitempty"`  // Raw is repeated this, N times
	N     int    `json:"n,omitempty"`
	Ahead bool   `json:"ahead,omitempty"` // C20: leading space is sent with the statement before
	Slow  int    `json:"slow,omitempty"`  // the sender pauses
}

type Plan struct {
	core.Common
	Inputs []Input `json:"inputs"`
}

// texts of the statements, with their semicolons.
func (in *Input) texts() []string {
	var ts []string
	for i := range in.Stmts {
		t := in.Stmts[i].Text()
		if !in.NoEnd || i+1 < len(in.Stmts) {
			t += ";"
		}
		ts = append(ts, t)
	}
	return ts
}

func (in *Input) text() string {
	if in.Nest != "" {
		return strings.Repeat(in.Nest, in.N) + string(in.Raw)
	}
	if in.Raw != nil {
		return string(in.Raw)
	}
	t := strings.Join(in.texts(), "")
	if in.Cut > 0 && in.Cut < len(t) {
		t = t[:in.Cut]
	}
	return t
}

// reader of one input in a run.
type reader struct {
	in   *Input
	st   *stream
	text string
	rs   []Res
	late []string // dumps at the end of the run
	mu   simsync.Mutex
	cond *simsync.Cond
	done bool
}

func newReader(in *Input) *reader {
	rd := &reader{in: in, text: in.text(), st: newStream(in.How)}
	rd.cond = simsync.NewCond(&rd.mu)
	return rd
}

// parse until the end was reported three times, or max results.
func (rd *reader) parse(max int) {
	p := parser.NewParser(rd.st.reader(), "sim")
	ends := 0
	for len(rd.rs) < max && ends < 3 {
		r := parse1(p)
		rd.mu.Lock()
		rd.rs = append(rd.rs, r)
		rd.cond.Broadcast()
		rd.mu.Unlock()
		if r.End {
			ends++
		} else if ends > 0 {
			break
		}
	}
	rd.mu.Lock()
	rd.done = true
	rd.cond.Broadcast()
	rd.mu.Unlock()
}

func (rd *reader) send() {
	rd.st.send([]byte(rd.text))
	rd.st.end()
}

// converse sends a statement only when the result of the one before it was seen.
func (rd *reader) converse() {
	ts := rd.in.texts()
	if rd.in.Ahead {
		for i := 1; i < len(ts); i++ {
			n := rd.in.Stmts[i].Lead()
			ts[i-1] += ts[i][:n]
			ts[i] = ts[i][n:]
		}
	}
	for i, t := range ts {
		rd.st.send([]byte(t))
		rd.mu.Lock()
		for len(rd.rs) <= i && !rd.done {
			rd.cond.Wait()
		}
		rd.mu.Unlock()
	}
	rd.st.end()
}

func (p *Plan) readers(e *core.Env) []*reader {
	var rds []*reader
	for i := range p.Inputs {
		rds = append(rds, newReader(&p.Inputs[i]))
	}
	return rds
}

// run parses the inputs concurrently.
func (p *Plan) run(e *core.Env, prepare func(), converse bool, max func(rd *reader) int) []*reader {
	rds := p.readers(e)
	var clients []core.Client
	for i, rd := range rds {
		clients = append(clients, core.Client{Name: fmt.Sprintf("parser%d", i), Fn: func() { rd.parse(max(rd)) }})
		fn := rd.send
		if converse {
			fn = rd.converse
		}
		clients = append(clients, core.Client{Name: fmt.Sprintf("sender%d", i), Fn: fn})
	}
	setup := func() {
		// Whether a name is new to the process must not change a run.
		for _, rd := range rds {
			parseAll(whole(rd.text, rd.in.Faults), max(rd))
		}
		if prepare != nil {
			prepare()
		}
	}
	ok := e.RunTasks(p, setup, clients, nil)
	for _, rd := range rds {
		e.Count("parser results", int64(len(rd.rs)))
		e.Count("fault read error", int64(rd.st.faults))
		e.Count("fault empty read", int64(rd.st.empty))
		e.Count("reads which waited", int64(rd.st.waits))
		e.Count("pieces", int64(len(rd.st.pieces)))
		if e.Verbose {
			e.Logf("input %d (%s): %.300q", 0, rd.in.Mode, rd.text)
			for _, r := range rd.rs {
				e.Logf("  %.200s", r.full())
			}
		}
		for _, r := range rd.rs {
			e.Mix(r.full())
		}
	}
	if !ok {
		return nil
	}
	return rds
}

func maxFor(rd *reader) int { return 20 + 2*len(rd.in.Stmts) + len(rd.in.Faults) }

func list(rs []Res) string {
	var b strings.Builder
	for i, r := range rs {
		if i == 12 {
			fmt.Fprintf(&b, "  ... (%d)\n", len(rs))
			break
		}
		fmt.Fprintf(&b, "  %.500s\n", r.full())
	}
	return b.String()
}

// alone parses one statement by itself: it is one result followed by the end.
func alone(e *core.Env, s *Stmt, text string) (Res, bool) {
	rs := parseAll(strings.NewReader(text), 4)
	if !strings.HasSuffix(text, ";") && len(rs) == 1 && rs[0].End {
		return rs[0], true // empty without a semicolon
	}
	if len(rs) != 2 || rs[0].End || !rs[1].End {
		e.Fail("alone", "a statement by itself, %q, gave:\n%s", text, list(rs))
		return Res{}, false
	}
	switch {
	case s == nil:
	case s.Must == "ok" && rs[0].isErr():
		e.Fail("rejected", "a valid statement, %q, gave: %s", text, rs[0].full())
		return Res{}, false
	case s.Must == "error" && !rs[0].isErr():
		e.Fail("accepted", "a statement with an error, %q, gave: %s", text, rs[0].full())
		return Res{}, false
	}
	return rs[0], true
}

var lineCol = regexp.MustCompile(`^parser: sim:([0-9]+):([0-9]+): `)

// after is the result of a statement when the text before it is so.
func (r Res) after(before string) Res {
	m := lineCol.FindStringSubmatch(r.Err)
	if m == nil {
		return r
	}
	line, _ := strconv.Atoi(m[1])
	col, _ := strconv.Atoi(m[2])
	if line == 1 {
		col += utf8.RuneCountInString(before[strings.LastIndexByte(before, '\n')+1:])
	}
	line += strings.Count(before, "\n")
	r.Err = fmt.Sprintf("parser: sim:%d:%d: ", line, col) + r.Err[len(m[0]):]
	return r
}

func expected(e *core.Env, in *Input) ([]Res, bool) {
	var exp []Res
	ts := in.texts()
	before := ""
	for i := range ts {
		r, ok := alone(e, &in.Stmts[i], ts[i])
		if !ok {
			return nil, false
		}
		r = r.after(before)
		before += ts[i]
		exp = append(exp, r)
	}
	return exp, true
}

func judgeList(e *core.Env, what string, text string, got, want []Res, full bool) {
	show := Res.plain
	if full {
		show = Res.full
	}
	for i := range want {
		if i >= len(got) {
			e.Fail("result", "%s: result %d is missing of %.1500q; wanted: %s", what, i+1, text, show(want[i]))
			return
		}
		if show(got[i]) != show(want[i]) {
			e.Fail("result", "%s: result %d of %.1500q is:\n  %s\nwanted:\n  %s\nall results:\n%s", what, i+1, text,
				show(got[i]), show(want[i]), list(got))
			return
		}
	}
	if len(got) > len(want) {
		e.Fail("result", "%s: there are %d results, and %d were wanted, of %.1500q:\n%s", what, len(got), len(want), text, list(got))
	}
}

var ends = []Res{{End: true}, {End: true}, {End: true}}

// withEnds are the results followed by the end, three times in all.
func withEnds(rs []Res) []Res {
	rs = append([]Res(nil), rs...)
	for len(rs) > 0 && rs[len(rs)-1].End {
		rs = rs[:len(rs)-1]
	}
	return append(rs, ends...)
}

func hasErr(rs []Res) bool {
	for _, r := range rs {
		if r.isErr() {
			return true
		}
	}
	return false
}

func genInput(r *sim.Rand, g *gen, n, bad int) Input {
	var in Input
	if g.large == "statements" {
		n = r.Range(9, sim.Pick(r, 30, 90))
	}
	for ; n > 0; n-- {
		in.Stmts = append(in.Stmts, g.Gen(bad))
	}
	in.How = genHow(r, len(in.text()))
	return in
}

func genSched(r *sim.Rand, p *Plan) {
	n := 0
	for i := range p.Inputs {
		n += len(p.Inputs[i].text())
	}
	p.Sched = core.GenSched(r, 2*len(p.Inputs), 40*n)
	p.Max = uint64(1000000 + 4000*n)
}

func count(e *core.Env, p *Plan) {
	for i := range p.Inputs {
		in := &p.Inputs[i]
		e.Count("mode "+in.Mode, 1)
		e.Count("statements", int64(len(in.Stmts)))
		for j := range in.Stmts {
			switch in.Stmts[j].Must {
			case "ok":
				e.Count("statements valid", 1)
			case "error":
				e.Count("statements with a lexical error", 1)
			default:
				e.Count("statements damaged", 1)
			}
		}
	}
	if len(p.Sched.Slow) > 0 {
		e.Count("fault stalled task", 1)
	}
}

var (
	realParts = []string{"parser", "parser/scanner", "parser/token", "parser/sql", "types", "bufio and utf8 (uninstrumented)"}
	stubParts = []string{"the input (a simulated stream between tasks)", "sync (simulated mutexes)", "goroutine scheduling (simulator)"}
)

func register(id, rule string, quick int64, generate func(r *sim.Rand, big bool) *Plan, run func(p *Plan, e *core.Env)) {
	core.Register(&core.Check{
		ID: id, Rule: rule, Real: realParts, Stub: stubParts, Quick: quick,
		New: func() core.Plan { return &Plan{} },
		Gen: func(r *sim.Rand, big bool) core.Plan {
			p := generate(r, big)
			genSched(r, p)
			return p
		},
		Run: func(cp core.Plan, e *core.Env) {
			p := cp.(*Plan)
			count(e, p)
			run(p, e)
		},
		Shrink: func(cp core.Plan, emit func(core.Plan)) { shrink(id, cp.(*Plan), func(q *Plan) { emit(q) }) },
		Assume: []string{"a reader which has reported the end reports it again; a reader does not return invalid runes other than U+FFFD"},
	})
}

func shrink(id string, p *Plan, emit func(*Plan)) {
	clone := func() *Plan { return core.Clone(id, p) }
	for i := range p.Inputs {
		if len(p.Inputs) > 1 {
			q := clone()
			q.Inputs = append(q.Inputs[:i], q.Inputs[i+1:]...)
			emit(q)
		}
	}
	for i := range p.Inputs {
		in := &p.Inputs[i]
		for n := len(in.Raw); n > 0; n /= 2 {
			for at := 0; at+n <= len(in.Raw); at += n {
				q := clone()
				q.Inputs[i].Raw = append(append([]byte{}, in.Raw[:at]...), in.Raw[at+n:]...)
				emit(q)
			}
		}
		if in.N > 1 {
			q := clone()
			q.Inputs[i].N /= 2
			emit(q)
		}
		for _, size := range []int{32, 16, 8, 4, 2, 1} {
			for j := 0; j+size <= len(in.Stmts); j += size {
				q := clone()
				ss := q.Inputs[i].Stmts
				q.Inputs[i].Stmts = append(ss[:j], ss[j+size:]...)
				emit(q)
			}
		}
		for j := range in.Faults {
			q := clone()
			fs := q.Inputs[i].Faults
			q.Inputs[i].Faults = append(fs[:j], fs[j+1:]...)
			emit(q)
			if in.Faults[j].Off > 0 {
				q := clone()
				q.Inputs[i].Faults[j].Off--
				emit(q)
			}
		}
		if in.Mode != "rune" {
			q := clone()
			q.Inputs[i].Mode = "rune"
			emit(q)
		}
		if len(in.Cuts) > 1 || len(in.Cuts) == 1 && in.Cuts[0] < 1<<20 {
			q := clone()
			q.Inputs[i].Cuts = []int{1 << 20}
			emit(q)
		}
		if len(in.Empty) > 0 {
			q := clone()
			q.Inputs[i].Empty = nil
			emit(q)
		}
		if in.How.With {
			q := clone()
			q.Inputs[i].How.With = false
			emit(q)
		}
		if in.Cut > 0 {
			q := clone()
			q.Inputs[i].Cut--
			emit(q)
		}
		for j := range in.Stmts {
			s := &in.Stmts[j]
			for _, size := range []int{64, 8, 4, 2, 1} {
				for k := 0; k+size <= len(s.T); k += size {
					q := clone()
					s := &q.Inputs[i].Stmts[j]
					s.T = append(s.T[:k], s.T[k+size:]...)
					if k+size <= len(s.W) {
						s.W = append(s.W[:k], s.W[k+size:]...)
					}
					if s.Must == "ok" || s.Must == "error" && id != "C21" {
						s.Must = ""
					}
					emit(q)
				}
			}
			for k := range s.W {
				want := " "
				if k == 0 || k == len(s.T) {
					want = ""
				}
				if s.W[k] != want {
					q := clone()
					q.Inputs[i].Stmts[j].W[k] = want
					emit(q)
				}
			}
			for k, t := range s.T {
				if len(t) > 2 && utf8.ValidString(t) {
					q := clone()
					q.Inputs[i].Stmts[j].T[k] = "a"
					q.Inputs[i].Stmts[j].Must = ""
					emit(q)
				}
			}
		}
	}
}

// C19: however the input arrives.
func genChunked(r *sim.Rand, big bool) *Plan {
	g := newGen(r)
	n := r.Range(1, 5)
	if big {
		n = r.Range(1, 12)
	}
	in := genInput(r, g, n, sim.Pick(r, 0, 20, 60))
	in.NoEnd = r.Chance(1, 4)
	if r.Chance(1, 4) {
		in.Cut = 1 + r.Intn(1+len(in.text()))
	}
	if r.Chance(1, 6) {
		in.Raw = damageBytes(r, []byte(in.text()))
		in.Stmts = nil
	}
	return &Plan{Inputs: []Input{in}}
}

func runChunked(p *Plan, e *core.Env) {
	var want []Res
	max := func(rd *reader) int { return 10 + len(rd.text) }
	rds := p.run(e, func() {
		want = parseAll(strings.NewReader(p.Inputs[0].text()), 6+len(p.Inputs[0].text()))
	}, false, max)
	if rds == nil {
		return
	}
	rd := rds[0]
	judgeList(e, "input in pieces, compared with the same input at once", rd.text, rd.rs, withEnds(want), true)
	e.Nontriv = len(rd.st.pieces) > 1 && len(want) > 1
}

// C20: a conversation.
func genConverse(r *sim.Rand, big bool) *Plan {
	g := newGen(r)
	n := r.Range(1, 6)
	if big {
		n = r.Range(1, 15)
	}
	in := genInput(r, g, n, sim.Pick(r, 0, 20, 50))
	in.Ahead = r.Chance(1, 3)
	return &Plan{Inputs: []Input{in}}
}

func runConverse(p *Plan, e *core.Env) {
	var want []Res
	ok := true
	rds := p.run(e, func() { want, ok = expected(e, &p.Inputs[0]) }, true, maxFor)
	if rds == nil || !ok {
		return
	}
	judgeList(e, "interactive client", rds[0].text, rds[0].rs, append(want, ends...), true)
	e.Nontriv = len(want) > 1 && rds[0].st.waits > 0
}

// C21: errors and the statements around them.
func genErrors(r *sim.Rand, big bool) *Plan {
	g := newGen(r)
	n := r.Range(2, 7)
	if big {
		n = r.Range(2, 20)
	}
	in := genInput(r, g, n, sim.Pick(r, 30, 50, 80))
	in.NoEnd = r.Chance(1, 6)
	if r.Chance(1, 200) {
		in.Stmts = nil
		for n := r.Range(2, 4); n > 0; n-- {
			in.Stmts = append(in.Stmts, g.Deep(n > 1 && r.Chance(3, 4)))
		}
		in.How = genHow(r, len(in.text()))
	}
	return &Plan{Inputs: []Input{in}}
}

func runErrors(p *Plan, e *core.Env) {
	var want []Res
	ok := true
	rds := p.run(e, func() { want, ok = expected(e, &p.Inputs[0]) }, false, maxFor)
	if rds == nil || !ok {
		return
	}
	judgeList(e, "statements with errors among others, compared with each by itself", rds[0].text, rds[0].rs, withEnds(want), true)
	e.Nontriv = len(want) > 1 && hasErr(want)
}

// C22: read errors and truncated input.
func genFaults(r *sim.Rand, big bool) *Plan {
	g := newGen(r)
	n := r.Range(1, 5)
	if big {
		n = r.Range(1, 10)
	}
	in := genInput(r, g, n, sim.Pick(r, 0, 0, 30))
	text := in.text()
	rune0 := func(off int) int {
		for off < len(text) && !utf8.RuneStart(text[off]) {
			off--
		}
		return off
	}
	if r.Chance(1, 4) {
		in.Cut = rune0(1 + r.Intn(len(text)))
		text = text[:in.Cut]
	}
	if in.Cut == 0 || r.Chance(1, 4) {
		at := 0
		sticky := r.Chance(1, 2)
		for k := sim.Pick(r, 1, 1, 2, 3); k > 0 && at <= len(text); k-- {
			off := rune0(at + r.Intn(len(text)-at+1))
			if i := strings.IndexByte(text[off:], '\''); i >= 0 && r.Chance(1, 4) {
				off += i + 1
			}
			in.Faults = append(in.Faults, Fault{Off: off, Sticky: sticky && k == 1, With: r.Chance(1, 3)})
			at = off + sim.Pick(r, 0, 1, 5)
		}
	}
	return &Plan{Inputs: []Input{in}}
}

func runFaults(p *Plan, e *core.Env) {
	in := &p.Inputs[0]
	var want []Res
	ok := true
	texts := in.texts()
	text := in.text()
	var frag Res // the last statement, if it is cut
	fragAt, judgeFrag := -1, false
	rds := p.run(e, func() {
		want, ok = expected(e, in)
		at := 0
		for i, t := range texts {
			if len(text) > at && len(text) < at+len(t) {
				fragAt = i
				f := text[at:]
				if !in.Stmts[i].Inside(len(text) - at) {
					judgeFrag = true
					rs := parseAll(strings.NewReader(f+"\n;"), 2)
					frag = rs[0]
				}
			}
			at += len(t)
		}
	}, false, func(rd *reader) int { return maxFor(rd) + 8 })
	if rds == nil || !ok {
		return
	}
	rd := rds[0]
	// A statement after a fault which was before it may be returned or not.
	var j *faultJudge
	for discard := 0; discard < 8; discard++ {
		j2 := &faultJudge{in: in, texts: texts, text: text, rs: rd.rs, want: want, frag: frag, fragAt: fragAt, judgeFrag: judgeFrag, discard: discard}
		j2.judge()
		if j == nil || j2.msg == "" {
			j = j2
		}
		if j.msg == "" {
			break
		}
	}
	for _, n := range j.counts {
		e.Count(n, 1)
	}
	e.Nontriv = j.nontriv
	if j.msg != "" {
		e.Fail(j.class, "%s", j.msg)
	}
}

type faultJudge struct {
	in        *Input
	texts     []string
	text      string
	rs        []Res
	want      []Res
	frag      Res
	fragAt    int
	judgeFrag bool
	discard   int

	class, msg string
	counts     []string
	nontriv    bool
}

func (j *faultJudge) fail(class, format string, args ...any) {
	j.class, j.msg = class, fmt.Sprintf(format, args...)
}

func (j *faultJudge) judge() {
	in, texts, text, want, frag, fragAt, judgeFrag := j.in, j.texts, j.text, j.want, j.frag, j.fragAt, j.judgeFrag
	leads := 0
	rs := j.rs
	show := func() string {
		return fmt.Sprintf("text %.1500q faults %v; results:\n%s", text, in.Faults, list(rs))
	}
	k := 0 // next result
	at := 0
	fault := 0
	for i, t := range texts {
		if at >= len(text) {
			break
		}
		end := at + len(t)
		if end > len(text) {
			end = len(text)
		}
		var fs []int
		inside := -1 // the first fault which is inside of a literal or comment
		onlyLead := true
		sticky := false
		for fault < len(in.Faults) && (in.Faults[fault].Off < end || i == len(texts)-1 || at+len(t) >= len(text)) {
			off := in.Faults[fault].Off
			fault++
			fs = append(fs, fault)
			if inside < 0 && off < end && in.Stmts[i].Inside(off-at) && !in.Faults[fault-1].Sticky {
				inside = len(fs) - 1
			}
			onlyLead = onlyLead && off-at <= in.Stmts[i].Lead()
			sticky = in.Faults[fault-1].Sticky
		}
		atEnd := 0 // faults after the last statement
		for _, f := range fs {
			if in.Faults[f-1].Off >= end && (i == len(texts)-1 || end == len(text)) && i != fragAt {
				atEnd++
			}
		}
		mid := len(fs) - atEnd
		if len(fs) == 0 && i != fragAt {
			if k >= len(rs) || rs[k].plain() != want[i].plain() {
				j.fail("result", "statement %d was read without an error: wanted %.600s; %s", i+1, want[i].plain(), show())
				return
			}
			k++
			at += len(t)
			continue
		}
		// The results of this statement: its errors, in order, and at most one other.
		other := 0
		seen := 0
		if mid > 0 && onlyLead {
			if j.discard>>leads&1 == 1 {
				other = 1
			}
			leads++
		}
		for seen < mid || other == 0 {
			if k >= len(rs) || inside >= 0 && seen > inside {
				break
			}
			r := rs[k]
			if seen < mid && strings.Contains(r.Err, fmt.Sprintf("simulated read error <%d>", fs[seen])) {
				seen++
				k++
				continue
			}
			if seen == mid && strings.Contains(r.Err, "simulated read error") {
				break
			}
			if r.End && (i == fragAt || seen >= mid) {
				break
			}
			// Either the text's own error before the fault, or the statement after a
			// fault which was before it.
			okay := false
			switch {
			case other > 0:
			case i == fragAt && mid == 0:
				okay = !judgeFrag || r.isErr() && frag.isErr() || r.plain() == frag.plain()
			case mid > 0 && r.isErr():
				// Of the text itself, or of the part of a token before the fault.
				okay = seen == 0 && !strings.Contains(r.Err, "simulated")
			case mid == 0 || onlyLead && seen == mid:
				okay = i != fragAt && r.plain() == want[i].plain()
			}
			if !okay {
				if seen == mid && mid > 0 && other == 0 {
					break // nothing else of this statement
				}
				j.fail("made up", "statement %d, with %d read errors, gave: %.600s; by itself it is: %.600s; %s", i+1, len(fs),
					r.full(), want[i].plain(), show())
				return
			}
			other++
			k++
		}
		if inside >= 0 && seen > inside {
			j.counts = append(j.counts, "errors inside of a literal or comment")
			j.nontriv = true
			return
		}
		if seen < mid {
			j.fail("swallowed", "a read error in statement %d was not reported; %s", i+1, show())
			return
		}
		if mid == 0 && other == 0 && i != fragAt {
			j.fail("result", "statement %d is missing; %s", i+1, show())
			return
		}
		if i == fragAt && judgeFrag && mid == 0 && other == 0 && !frag.isErr() && frag.Stmt != "nil" {
			j.fail("swallowed", "the unfinished last statement, %d, was not returned; %s", i+1, show())
			return
		}
		if i == fragAt && judgeFrag && mid == 0 && other == 0 && frag.isErr() {
			j.fail("swallowed", "the unfinished last statement, %d, was taken as the end; %s", i+1, show())
			return
		}
		if sticky && seen == len(fs) {
			for ; k < len(rs); k++ {
				if !strings.Contains(rs[k].Err, fmt.Sprintf("simulated read error <%d>", fs[len(fs)-1])) {
					j.fail("made up", "after a lasting read error in statement %d there was: %.600s; %s", i+1, rs[k].full(), show())
					return
				}
			}
			j.nontriv = true
			j.counts = append(j.counts, "lasting errors")
			return
		}
		for n := seen; n < len(fs); n++ {
			if k >= len(rs) || !strings.Contains(rs[k].Err, fmt.Sprintf("simulated read error <%d>", fs[n])) {
				j.fail("swallowed", "a read error after statement %d was not reported; %s", i+1, show())
				return
			}
			k++
			if in.Faults[fs[n]-1].Sticky {
				j.nontriv = true
				return
			}
		}
		at += len(t)
	}
	j.nontriv = len(in.Faults) > 0 || fragAt >= 0
	if fragAt >= 0 {
		j.counts = append(j.counts, "fault truncated input")
	}
	if len(rs)-k != 3 || !rs[k].End || !rs[k+1].End || !rs[k+2].End {
		j.fail("result", "wanted only the end after result %d; %s", k, show())
	}
}

// C23: anything.
var rawBits = []string{"'", "\"", "`", "[", "]", "e'", "x'", "b'", "\\", "\\x", "\\u12", "\\U", "--", "/*", "*/", ";", "\n", "(", ")", "SELECT ",
	"VALUES(", "COPY t FROM STDIN", "COPY t FROM STDIN DELIMITER 'x' ;\n", "$", "$1", "0", "1.", "1.2.3", "99999999999999999999", "+", "-", "*", "/", "<", ">", "=", "!", "|", "&", "%",
	"é", "\xff", "\xc3", "\xe6\x97", "\x00", "\ufffd", "\U0010ffff", "CREATE TABLE t (", " INT", ",", ".", "@", " NOT", " NULL", "DEFAULT", "IN", "IS", "#", "~", "?",
	"\u2028", "\u0085", "SET a TO ", "USE ", "EXPLAIN ", "SHOW ", "a", "WITH ", "UPDATE t SET", "INSERT INTO t VALUES", "ON", "JOIN"}

func damageBytes(r *sim.Rand, b []byte) []byte {
	for n := r.Range(1, 6); n > 0; n-- {
		i := 0
		if len(b) > 0 {
			i = r.Intn(len(b))
		}
		switch r.Intn(6) {
		case 0:
			b = append(append([]byte{}, b[:i]...), b[min(len(b), i+r.Range(1, 4)):]...)
		case 1:
			if len(b) > 0 {
				b = append([]byte{}, b...)
				b[i] = byte(r.Intn(256))
			}
		case 2:
			j := min(len(b), i+r.Range(1, 30))
			b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		case 3:
			b = b[:i]
		default:
			b = append(append(append([]byte{}, b[:i]...), rawBits[r.Intn(len(rawBits))]...), b[i:]...)
		}
	}
	return b
}

var nests = []string{"SELECT (", "(", "-", "- ", "NOT ", "SELECT EXISTS(", "SELECT * FROM (", "VALUES (", "a JOIN ", "[", "/*", "-- ", "'", "''",
	"1 + ", "a AND ", "f(", "x IN (SELECT ", "SELECT * FROM a JOIN ", "a.", "a,", ";", "$", "=", "SELECT a FROM (SELECT "}

func genRaw(r *sim.Rand, big bool) *Plan {
	var in Input
	switch r.Intn(12) {
	case 0:
		n := r.Intn(200)
		for ; n > 0; n-- {
			in.Raw = append(in.Raw, byte(r.Intn(256)))
		}
	case 1, 2, 3, 4:
		for n := r.Intn(sim.Pick(r, 6, 20, 60)); n > 0; n-- {
			in.Raw = append(in.Raw, rawBits[r.Intn(len(rawBits))]...)
			if r.Chance(1, 3) {
				in.Raw = append(in.Raw, ' ')
			}
		}
	case 5:
		in.Raw = []byte(sim.Pick(r, "", "VALUES (", "SELECT ", "SELECT a FROM ", ";"))
		in.Nest = nests[r.Intn(len(nests))]
		in.N = r.Range(1, 60)
	default:
		g := newGen(r)
		for n := r.Range(1, 4); n > 0; n-- {
			in.Stmts = append(in.Stmts, g.Gen(30))
		}
		in.Raw = damageBytes(r, []byte(in.text()))
		in.Stmts = nil
	}
	if in.Raw == nil {
		in.Raw = []byte{}
	}
	n := len(in.text())
	in.How = genHow(r, n)
	if r.Chance(1, 3) {
		at := 0
		for k := r.Range(1, 3); k > 0; k-- {
			off := at + r.Intn(n-at+1)
			in.Faults = append(in.Faults, Fault{Off: off, Sticky: k == 1 && r.Chance(1, 3), With: r.Chance(1, 3)})
			at = off
		}
	}
	if r.Chance(1, 400) {
		// Nested too deep for any stack.
		in = Input{How: How{Mode: "whole"}, Nest: nests[r.Intn(len(nests))], N: 2000000, Raw: []byte(sim.Pick(r, "", ";", "1;"))}
	}
	return &Plan{Inputs: []Input{in}}
}

// drain takes the data of a COPY.
func drain(rr io.RuneReader, n int) {
	for ; n > 0; n-- {
		if _, _, err := rr.ReadRune(); err != nil {
			break
		}
	}
}

func runRaw(p *Plan, e *core.Env) {
	in := &p.Inputs[0]
	text := in.text()
	if in.Mode == "whole" {
		e.Count("deeply nested", 1)
		sim.Aside(8000000000) // it is quadratic in the depth
		rs := parseAll(strings.NewReader(text), len(text)+10)
		if !rs[len(rs)-1].End {
			e.Fail("no end", "%d results, and no end", len(rs))
		}
		return
	}
	st := newStream(in.How)
	max := len(text) + 2*len(in.Faults) + 12
	var rs []Res
	// A statement, error, or end for every call, never all of them forever.
	parse := func(rr io.RuneReader) []Res {
		ps := parser.NewParser(rr, "sim")
		var rs []Res
		ends, stuck := 0, 0
		for len(rs) < max && ends < 3 && stuck < 3 {
			r := parse1(ps)
			if c, ok := r.stmt.(*sql.Copy); ok {
				drain(c.From, len(rs)*7%13)
			}
			rs = append(rs, r)
			if r.End {
				ends++
			} else if ends > 0 {
				ends = -1000
			}
			if n := len(in.Faults); n > 0 && in.Faults[n-1].Sticky && strings.Contains(r.Err, fmt.Sprintf("read error <%d>", n)) {
				stuck++
			}
		}
		return rs
	}
	finished := false
	if !e.RunTasks(p, func() { parse(whole(text, in.Faults)) }, []core.Client{
		{Name: "parser", Fn: func() { rs = parse(st.reader()); finished = true }},
		{Name: "sender", Fn: func() { st.send([]byte(text)); st.end() }},
	}, nil) {
		return
	}
	e.Count("parser results", int64(len(rs)))
	e.Count("fault read error", int64(st.faults))
	e.Count("fault damaged input", 1)
	e.Logf("%.400q", text)
	for _, r := range rs {
		e.Mix(r.full())
		e.Logf("  %.200s", r.full())
	}
	seen := false
	for i, r := range rs {
		if seen && !r.End {
			e.Fail("no end", "result %d after the end, of %.1500q:\n%s", i+1, text, list(rs))
			return
		}
		seen = seen || r.End
	}
	if len(rs) >= max || !finished {
		e.Fail("no end", "%d results of %d bytes, %.1500q:\n%s", len(rs), len(text), text, list(rs))
	}
	e.Nontriv = len(rs) > 4
}

// C24: many parsers, and what they returned before.
func genMany(r *sim.Rand, big bool) *Plan {
	p := &Plan{}
	g := newGen(r)
	for n := r.Range(2, 4); n > 0; n-- {
		if r.Chance(1, 2) {
			g = newGen(r)
		}
		k := r.Range(1, 4)
		if big {
			k = r.Range(1, 10)
		}
		p.Inputs = append(p.Inputs, genInput(r, g, k, sim.Pick(r, 0, 0, 20)))
	}
	return p
}

func runMany(p *Plan, e *core.Env) {
	var want [][]Res
	ok := true
	rds := p.run(e, func() {
		for i := range p.Inputs {
			w, o := expected(e, &p.Inputs[i])
			ok = ok && o
			want = append(want, w)
		}
	}, false, maxFor)
	if rds == nil || !ok {
		return
	}
	for i, rd := range rds {
		judgeList(e, "one of several parsers, compared with each statement by itself", rd.text, rd.rs, withEnds(want[i]), true)
		for j, r := range rd.rs {
			if r.stmt != nil {
				if d := dump(r.stmt); d != r.Stmt {
					e.Fail("changed", "statement %d of %.1500q was:\n  %s\nand is later:\n  %s", j+1, rd.text, r.Stmt, d)
				}
			}
		}
	}
	e.Nontriv = e.Preempts > 2
}

func init() {
	register("C19", "statements, valid and not, and damaged text, in pieces of all sizes, cut also inside of runes, with empty reads and pauses, and the end with or after the last data; compared with the same text at once; non-trivial: several pieces and more than one result",
		140000, genChunked, runChunked)
	register("C20", "a client which sends a statement only after it has seen the result of the one before it; non-trivial: at least two statements, and the parser waited for input",
		100000, genConverse, runConverse)
	register("C21", "statements among which many have syntax errors and lexical errors anywhere in them; each is compared with itself alone; non-trivial: an error among at least two statements",
		50000, genErrors, runErrors)
	register("C22", "statements with one to three read errors, lasting or not, anywhere, and inputs which end anywhere; non-trivial: an error or a truncated statement",
		150000, genFaults, runFaults)
	register("C23", "random bytes, soup of lexical fragments, damaged statements, nesting, with and without read errors; non-trivial: at least two results",
		25000, genRaw, runRaw)
	register("C24", "two to four parsers on different inputs at once; every statement is looked at again at the end; non-trivial: the parsers were preempted",
		40000, genMany, runMany)
}
