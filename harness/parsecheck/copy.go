package parsecheck

import (
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"verif/harness/core"
	"verifsim/sim"
)

// CopySeg is a statement, or a COPY followed by its data.
type CopySeg struct {
	Stmt
	Copy  bool   `json:"copy,omitempty"`
	Rest  string `json:"rest,omitempty"` // of the statement's line
	Data  string `json:"data,omitempty"`
	Take  int    `json:"take,omitempty"`  // what the consumer takes, in runes
	Fault int    `json:"fault,omitempty"` // a read error at rune Fault-1 of Rest, the line's end, and Data
}

type CopyPlan struct {
	core.Common
	How
	Segs   []CopySeg `json:"segs"`
	Sticky bool      `json:"sticky,omitempty"`
}

func (s *CopySeg) text() string {
	t := s.Text() + ";"
	if s.Copy {
		t += s.Rest + "\n" + s.Data
	}
	return t
}

func (g *gen) copySeg() CopySeg {
	r := g.r
	s := CopySeg{Copy: true, Stmt: Stmt{Must: "ok"}}
	s.T = cat(g.kw("COPY"), g.table())
	if r.Chance(1, 2) {
		s.T = cat(s.T, g.colList(r.Range(1, 3)))
	}
	s.T = cat(s.T, g.kw("FROM STDIN"))
	if r.Chance(1, 2) {
		s.T = cat(s.T, g.kw("DELIMITER"), one(sim.Pick(r, "','", "'|'", "';'", "e'\\t'", "'x'", "''''")))
	}
	for i := 0; i <= len(s.T); i++ {
		s.W = append(s.W, g.space(i == 0 || i == len(s.T)))
	}
	s.Rest = sim.Pick(r, "", "", " ", "\r", " -- comment; '", "junk; select 'x", ";;", "é")
	bits := []string{"1\t2\n", "abc", "\n", "2.5", "\t", "x y", "\\N", "\\.\n", "é表", "SELECT a FROM b", " , "}
	wild := []string{"'", "\"", ";", "--", "/*", "\r\n", "COPY t FROM STDIN;\n", "e'", "\U0001f600"}
	all := r.Chance(2, 3)
	n := r.Intn(sim.Pick(r, 3, 8, 30))
	if g.large == "literals" {
		n = r.Intn(600)
	}
	for ; n > 0; n-- {
		if all && r.Chance(1, 3) {
			s.Data += wild[r.Intn(len(wild))]
		} else {
			s.Data += bits[r.Intn(len(bits))]
		}
	}
	s.Take = utf8.RuneCountInString(s.Data)
	if !all {
		s.Take = r.Intn(s.Take + 1)
	}
	if r.Chance(1, 5) {
		s.Fault = 1 + r.Intn(utf8.RuneCountInString(s.Rest)+1+s.Take+1)
	}
	return s
}

func genCopy(r *sim.Rand, big bool) core.Plan {
	g := newGen(r)
	p := &CopyPlan{Sticky: r.Chance(1, 3)}
	n := r.Range(1, 4)
	if big {
		n = r.Range(1, 9)
	}
	if g.large == "statements" {
		n = r.Range(9, 40)
	}
	size := 0
	faults := r.Chance(1, 2)
	for i := 0; i < n; i++ {
		var s CopySeg
		if r.Chance(3, 5) {
			s = g.copySeg()
			if !faults {
				s.Fault = 0
			}
			if i == n-1 && r.Chance(1, 2) {
				s.Take = utf8.RuneCountInString(s.Data) + 2 // the end as well
			}
		} else {
			s.Stmt = g.Gen(sim.Pick(r, 0, 20))
		}
		p.Segs = append(p.Segs, s)
		size += len(s.text())
	}
	p.How = genHow(r, size)
	p.Sched = core.GenSched(r, 2, 40*size)
	p.Max = uint64(1000000 + 4000*size)
	return p
}

// taken is what a consumer got.
type taken struct {
	data string
	errs []string // in order, with the number of runes before each
	line int
}

func take(c *sql.Copy, n int) taken {
	t := taken{line: c.FromLine}
	got := 0
	bad := 0
	var b strings.Builder
	for got < n && bad < 3 {
		ch, size, err := c.From.ReadRune()
		if err != nil {
			t.errs = append(t.errs, fmt.Sprintf("%d: %s", got, err))
			bad++
			continue
		}
		if size != utf8.RuneLen(ch) {
			t.errs = append(t.errs, fmt.Sprintf("size %d of %q", size, ch))
		}
		b.WriteRune(ch)
		got++
	}
	t.data = b.String()
	return t
}

func runCopy(cp core.Plan, e *core.Env) {
	p := cp.(*CopyPlan)
	text := ""
	how := p.How
	how.Faults = nil
	var takes []int
	for i := range p.Segs {
		s := &p.Segs[i]
		if s.Copy && s.Fault > 0 {
			off := len(text) + len(s.Text()) + 1
			rest := s.Rest + "\n" + s.Data
			k := s.Fault - 1
			for j := range rest {
				if k == 0 {
					rest = rest[:j]
					break
				}
				k--
			}
			how.Faults = append(how.Faults, Fault{Off: off + len(rest), Sticky: p.Sticky, With: s.Fault%2 == 0})
		}
		if s.Copy {
			takes = append(takes, s.Take)
		}
		text += s.text()
	}
	st := newStream(how)
	max := 10 + 3*len(p.Segs) + len(text)
	var rs []Res
	var ts []taken
	parse := func(rr io.RuneReader) (rs []Res, ts []taken) {
		ps := parser.NewParser(rr, "sim")
		ends := 0
		for len(rs) < max && ends < 3 {
			r := parse1(ps)
			if c, ok := r.stmt.(*sql.Copy); ok {
				n := 5
				if len(ts) < len(takes) {
					n = takes[len(ts)]
				}
				ts = append(ts, take(c, n))
			}
			rs = append(rs, r)
			if r.End {
				ends++
			} else if strings.Contains(r.Err, "simulated read error") && p.Sticky {
				ends++
			}
		}
		return rs, ts
	}

	type want struct {
		res  Res
		copy bool
		t    taken
		stop bool // what is after it is not known
	}
	var wants []want
	ok := true
	setup := func() {
		parse(whole(text, how.Faults))
		before, left := "", ""
		for i := range p.Segs {
			s := &p.Segs[i]
			stext := left + s.Text() + ";"
			sp := &s.Stmt
			if strings.TrimSpace(left) != "" {
				sp = nil
			}
			var w want
			if s.Copy && strings.TrimSpace(left) == "" {
				rs := parseAll(strings.NewReader(stext+"\n"), 3)
				if len(rs) != 2 || !rs[1].End || rs[0].isErr() {
					e.Fail("rejected", "a valid COPY, %q, gave:\n%s", stext, list(rs))
					ok = false
					return
				}
				w = want{res: rs[0], copy: true}
			} else {
				var o bool
				w.res, o = alone(e, sp, stext)
				if !o {
					ok = false
					return
				}
				w.res = w.res.after(before)
			}
			wants = append(wants, w)
			before += stext
			left = ""
			if !s.Copy {
				continue
			}
			if !w.copy {
				// It became part of what was left before.
				wants[len(wants)-1].stop = true
				return
			}
			lw := &wants[len(wants)-1]
			before += s.Rest + "\n"
			lw.t.line = 1 + strings.Count(before, "\n")
			rest := utf8.RuneCountInString(s.Rest) + 1
			data := []rune(s.Data)
			n := min(s.Take, len(data))
			lw.t.data = string(data[:n])
			if s.Fault > 0 {
				at := s.Fault - 1 - rest
				switch {
				case at < 0:
					lw.t.data = ""
					lw.t.errs = []string{"0: simulated", "0: simulated", "0: simulated"}
					lw.stop = true
				case p.Sticky && at < s.Take:
					lw.t.data = string(data[:at])
					m := fmt.Sprintf("%d: simulated", at)
					lw.t.errs = []string{m, m, m}
					lw.stop = true
				case at < s.Take:
					lw.t.errs = []string{fmt.Sprintf("%d: simulated", at)}
				default:
					lw.stop = true
				}
			}
			if lw.stop && s.Take == 0 {
				lw.t.errs = nil
			}
			for k := len(data); k < s.Take && !lw.stop && len(lw.t.errs) < 3; {
				lw.t.errs = append(lw.t.errs, fmt.Sprintf("%d: EOF", len(data)))
			}
			before += lw.t.data
			left = string(data[n:])
			if lw.stop {
				return
			}
		}
		if left != "" {
			w := want{}
			w.res, ok = alone(e, nil, left)
			if !ok {
				return
			}
			w.res = w.res.after(before)
			if !w.res.End {
				wants = append(wants, w)
			}
		}
	}
	if !e.RunTasks(p, setup, []core.Client{
		{Name: "parser", Fn: func() { rs, ts = parse(st.reader()) }},
		{Name: "sender", Fn: func() { st.send([]byte(text)); st.end() }},
	}, nil) || !ok {
		return
	}
	e.Count("mode "+p.Mode, 1)
	e.Count("fault read error", int64(st.faults))
	e.Count("fault empty read", int64(st.empty))
	e.Count("reads which waited", int64(st.waits))
	e.Logf("%.400q", text)
	for _, r := range rs {
		e.Mix(r.full())
		e.Logf("  %.300s", r.full())
	}
	k := 0
	for i, w := range wants {
		if i >= len(rs) || rs[i].full() != w.res.full() {
			got := "nothing"
			if i < len(rs) {
				got = rs[i].full()
			}
			e.Fail("result", "result %d of %.1500q is:\n  %.500s\nwanted:\n  %.500s\nall results:\n%s", i+1, text, got, w.res.full(), list(rs))
			return
		}
		if w.copy {
			t := ts[k]
			k++
			e.Count("data consumed", 1)
			bad := t.data != w.t.data || len(t.errs) != len(w.t.errs) || t.line != w.t.line && !(w.stop && w.t.data == "")
			for j := range w.t.errs {
				bad = bad || !strings.HasPrefix(t.errs[j], w.t.errs[j])
			}
			if bad {
				e.Fail("data", "the consumer of COPY, result %d of %.1500q, got:\n  %+v\nwanted:\n  %+v", i+1, text, t, w.t)
				return
			}
		}
		if w.stop {
			e.Nontriv = true
			return
		}
	}
	for i := 0; i < 3; i++ {
		if j := len(wants) + i; j >= len(rs) || !rs[j].End {
			e.Fail("result", "wanted only the end after result %d of %.1500q:\n%s", len(wants), text, list(rs))
			return
		}
	}
	e.Nontriv = k > 0 && len(wants) > 1
}

func shrinkCopy(cp core.Plan, emit func(core.Plan)) {
	p := cp.(*CopyPlan)
	clone := func() *CopyPlan { return core.Clone("C25", p) }
	for i := range p.Segs {
		q := clone()
		q.Segs = append(q.Segs[:i], q.Segs[i+1:]...)
		emit(q)
	}
	if len(p.Cuts) > 1 || len(p.Cuts) == 1 && p.Cuts[0] < 1<<20 {
		q := clone()
		q.Cuts = []int{1 << 20}
		emit(q)
	}
	if len(p.Empty) > 0 {
		q := clone()
		q.Empty = nil
		emit(q)
	}
	if p.Mode != "rune" {
		q := clone()
		q.Mode = "rune"
		emit(q)
	}
	for i := range p.Segs {
		s := &p.Segs[i]
		if s.Rest != "" {
			q := clone()
			q.Segs[i].Rest = ""
			emit(q)
		}
		if s.Fault > 0 {
			q := clone()
			q.Segs[i].Fault = 0
			emit(q)
		}
		ds := []rune(s.Data)
		for n := len(ds); n > 0; n /= 2 {
			for at := 0; at+n <= len(ds) && s.Take >= len(ds); at += n {
				q := clone()
				q.Segs[i].Data = string(ds[:at]) + string(ds[at+n:])
				q.Segs[i].Take -= n
				emit(q)
			}
		}
		for k := range s.W {
			want := " "
			if k == 0 || k == len(s.T) {
				want = ""
			}
			if s.W[k] != want {
				q := clone()
				q.Segs[i].W[k] = want
				emit(q)
			}
		}
	}
}

func init() {
	core.Register(&core.Check{
		ID:   "C25",
		Rule: "COPY statements with data among other statements; their consumers take all of the data, some of it, or all up to the end of the input, with read errors in the data and before it; non-trivial: data was consumed, and there was something after it",
		Real: realParts, Stub: stubParts, Quick: 200000,
		New: func() core.Plan { return &CopyPlan{} }, Gen: genCopy, Run: runCopy, Shrink: shrinkCopy,
		Assume: []string{"the consumer takes its data before the next statement is parsed"},
	})
}
