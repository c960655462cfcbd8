package parsecheck

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"

	"github.com/leftmike/maho/parser/sql"
	console "github.com/leftmike/maho/verifconsole"
	"verif/harness/core"
	"verifsim/sim"
	"verifsim/simos"
	"verifsim/simsync"
)

// output is what the console printed.
type output struct {
	mu     simsync.Mutex
	cond   *simsync.Cond
	raw    []byte
	buf    []byte
	lines  int // bytes of buf which are whole lines
	ended  bool
	writes int
}

func (o *output) Write(p []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.raw = append(o.raw, p...) // of the last line
	// Whatever the console calls its input.
	o.buf = append(o.buf[:o.lines], named.ReplaceAll(o.raw, []byte("parser: sim:$1: "))...)
	if i := bytes.LastIndexByte(o.buf, '\n'); i >= o.lines {
		o.lines = i + 1
		o.raw = append([]byte(nil), o.raw[bytes.LastIndexByte(o.raw, '\n')+1:]...)
	}
	o.writes++
	o.cond.Broadcast()
	return len(p), nil
}

var named = regexp.MustCompile(`parser: [a-z<>/-]*:([0-9]+:[0-9]+): `)

// wait until n bytes were printed.
func (o *output) wait(n int) {
	o.mu.Lock()
	defer o.mu.Unlock()
	for len(o.buf) < n && !o.ended {
		o.cond.Wait()
	}
}

func (o *output) end() {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.ended = true
	o.cond.Broadcast()
}

func genConsole(r *sim.Rand, big bool) *Plan {
	g := newGen(r)
	g.opts = 1
	n := r.Range(1, 5)
	if big {
		n = r.Range(1, 12)
	}
	in := genInput(r, g, n, sim.Pick(r, 0, 20, 50))
	in.Ahead = r.Chance(1, 3)
	in.NoEnd = r.Chance(1, 4)
	if r.Chance(1, 3) {
		in.Slow = 1 // does not wait for answers
	}
	if r.Chance(1, 4) {
		t := in.text()
		off := r.Intn(len(t) + 1)
		for off < len(t) && t[off]&0xc0 == 0x80 {
			off--
		}
		in.Faults = []Fault{{Off: off, Sticky: r.Chance(2, 3), With: r.Chance(1, 3)}}
	}
	in.Mode = "bufio"
	return &Plan{Inputs: []Input{in}}
}

func answer(r Res) string {
	if r.isErr() {
		return fmt.Sprintf("maho: %s\n", r.Err)
	}
	return fmt.Sprintln(r.stmt)
}

func runConsole(p *Plan, e *core.Env) {
	in := &p.Inputs[0]
	texts := in.texts()
	text := in.text()
	st := newStream(in.How)
	out := &output{}
	out.cond = simsync.NewCond(&out.mu)
	simos.Stdin.R, simos.Stdout.W, simos.Stderr.W = st, out, out
	var prompts []string // the output up to and with the prompt after each statement
	ok := true
	clean := 0 // statements before the fault
	setup := func() {
		parseAll(whole(text, in.Faults), 20+2*len(texts))
		want, o := expected(e, in)
		if ok = o; !ok {
			return
		}
		at := 0
		s := "maho: "
		prompts = append(prompts, s)
		for i, r := range want {
			if c, isCreate := r.stmt.(*sql.CreateDatabase); isCreate && len(c.Options) > 1 {
				ok = false // the options are printed in any order
				return
			}
			at += len(texts[i])
			if !r.End {
				s += answer(r) + "maho: "
			}
			prompts = append(prompts, s)
			if len(in.Faults) == 0 || at <= in.Faults[0].Off {
				clean = i + 1
			}
		}
		if in.NoEnd && len(in.Faults) > 0 {
			clean = min(clean, len(texts)-1)
		}
		if strings.Contains(s, "(PANIC=") {
			e.Fail("panic", "printing a statement of %.1500q failed:\n%s", text, s)
			ok = false
		}
	}
	exited := false
	if !e.RunTasks(p, setup, []core.Client{
		{Name: "console", Fn: func() {
			defer out.end()
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(simos.ExitCode); !ok {
						panic(r)
					}
				}
			}()
			console.Main()
			exited = true
		}},
		{Name: "user", Fn: func() {
			ts := append([]string(nil), texts...)
			if in.Ahead {
				for i := 1; i < len(ts); i++ {
					n := in.Stmts[i].Lead()
					ts[i-1] += ts[i][:n]
					ts[i] = ts[i][n:]
				}
			}
			for i, t := range ts {
				if in.Slow == 0 && i <= clean {
					out.wait(len(prompts[i]))
				}
				st.send([]byte(t))
			}
			if in.Slow == 0 && clean == len(ts) && !in.NoEnd {
				out.wait(len(prompts[clean]))
			}
			st.end()
		}},
	}, nil) || !ok {
		return
	}
	_ = exited
	got := string(out.buf)
	e.Count("fault read error", int64(st.faults))
	e.Count("fault empty read", int64(st.empty))
	e.Count("reads which waited", int64(st.waits))
	e.Count("statements", int64(len(texts)))
	e.Mix(got)
	e.Logf("%.400q", text)
	e.Logf("%.600q", got)
	e.Nontriv = len(texts) > 1 && st.waits > 0
	if len(in.Faults) == 0 {
		if want := prompts[len(prompts)-1]; got != want {
			e.Fail("output", "the console, given %.1500q, printed:\n%.1500s\nwanted:\n%.1500s", text, got, want)
		}
		return
	}
	pre := prompts[clean]
	if !strings.HasPrefix(got, pre) {
		e.Fail("output", "the console, given %.1500q, with a read error at %d, printed:\n%.1500s\nwanted, to begin with:\n%.1500s", text, in.Faults[0].Off, got, pre)
		return
	}
	// One error of the statement itself, and the read error.
	rest := strings.Split(strings.TrimSuffix(got[len(pre):], "\n"), "maho: maho: ")
	if len(rest) > 2 || !strings.HasPrefix(rest[0], "maho: ") || !strings.HasSuffix(got, "\n") {
		e.Fail("output", "the console, given %.1500q, with a read error at %d, printed after the statements before it:\n%.1500s", text,
			in.Faults[0].Off, got[len(pre):])
	}
}

func init() {
	register("C29", "a user of the console who sends a statement only after the prompt, or without waiting, then ends the input, perhaps in the middle of a statement, or whose input fails; non-trivial: at least two statements, and the console waited",
		150000, genConsole, runConsole)
}
