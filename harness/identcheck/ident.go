// Package identcheck has the checks of identifiers (C26) and of what one
// process encodes for another (C27).
package identcheck

import (
	"fmt"
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
	"verif/harness/core"
	"verifsim/sim"
	"verifsim/simsync"
)

var reserved = strings.Fields(`ADD ALL ALTER AND ANY AS ASC BEGIN BY CASCADE CHECK COLUMN COMMIT CONSTRAINT COPY CREATE
	DATABASE DEFAULT DELETE DESC DROP EXISTS EXPLAIN FALSE FOREIGN FROM GROUP HAVING IF IN INDEX INSERT INTO IS JOIN
	KEY NOT NULL ON OR ORDER PRIMARY ROLLBACK SCHEMA SELECT SET SHOW TABLE TO TRUE UNIQUE UPDATE USING VALUES WHERE`)

var unreserved = strings.Fields(`BIGINT BINARY BLOB BOOL BYTEA CHAR DOUBLE INT INT2 INT8 INTEGER PATH PRECISION REAL
	SMALLINT TEXT VARBINARY VARCHAR`)

var known = strings.Fields(`btree columns config constraints databases description field flags indexes info maho
	metadata primary private public schemas sequences system tables tree`)

// Written is a name as a client writes it. %s is replaced by what no earlier
// run used.
type Written struct {
	T      string `json:"t"`
	Quoted bool   `json:"quoted,omitempty"`
	Cut    int    `json:"cut,omitempty"` // or filled up to this length
}

func (w Written) text(seed uint64) string {
	s := strings.ReplaceAll(w.T, "%s", fmt.Sprintf("%x", seed))
	if w.Cut > 0 {
		if len(s) < w.Cut {
			s += strings.Repeat("x", w.Cut-len(s))
		}
		s += w.T[len(w.T)-1:]
	}
	return s
}

const maxName = 128

// canon is what the name means: its text, and whether it is a keyword.
func canon(s string, quoted bool) (text string, kw, res bool) {
	if len(s) > maxName {
		s = s[:maxName]
	}
	if quoted {
		return s, false, false
	}
	u := strings.ToUpper(s)
	for _, k := range reserved {
		if k == u {
			return k, true, true
		}
	}
	for _, k := range unreserved {
		if k == u {
			return k, true, false
		}
	}
	s = strings.ToLower(s) // which may be longer
	if len(s) > maxName {
		s = s[:maxName]
	}
	return s, false, false
}

func recase(r *sim.Rand, s string) string {
	switch r.Intn(3) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	}
	b := []byte(s)
	for i := range b {
		if r.Chance(1, 2) {
			if 'a' <= b[i] && b[i] <= 'z' {
				b[i] -= 32
			} else if 'A' <= b[i] && b[i] <= 'Z' {
				b[i] += 32
			}
		}
	}
	return string(b)
}

func genWritten(r *sim.Rand) Written {
	w := Written{Quoted: r.Chance(1, 3)}
	switch r.Intn(12) {
	case 0:
		w.T = recase(r, reserved[r.Intn(len(reserved))])
	case 1:
		w.T = recase(r, unreserved[r.Intn(len(unreserved))])
	case 2:
		w.T = recase(r, known[r.Intn(len(known))])
	case 3:
		w.T = sim.Pick(r, "", " %s", "%s ", "a b %s", "a.b%s", "%s\x00", "%s\xff", "SELECT %s", "select%s")
		w.Quoted = true
	case 4:
		w.T = sim.Pick(r, "\u00e9t\u00e9_%s", "\u00c9T\u00c9_%s", "\u042f%s", "\u044f%s", "\u4e16\u754c%s",
			// Letters which are odd about their cases.
			"\u023a%s", "\u0130%s", "\u0131%s", "\u017f%s", "\u212a%s", "k%s", "s%s", "\u1e9e\u00df%s", "\u03c2\u03c3\u03a3%s", "i\u017f",
			"\u212aEY", "\u017felect", "\u0131nt")
	case 5, 6:
		w.T = sim.Pick(r, "%sa", "%sA", "%sb", "\u023a\u023a\u023a\u0130%sa", "\u2c65\u2c65\u2c65i\u0307%sa", "\u212a\u212a%sa", "kk%sa")
		w.Cut = sim.Pick(r, 20, 126, 127, 128, 129, 300)
	default:
		w.T = sim.Pick(r, "n%s", "N%s", "m%s", "M%s", "n%sa", "N%sA", "_%s")
	}
	return w
}

// Op of a client: what it does with a name.
type Op struct {
	Do   string `json:"do"`
	Name int    `json:"name"`
}

type IDPlan struct {
	core.Common
	Names   []Written `json:"names"`
	Clients [][]Op    `json:"clients"`
}

func genID(r *sim.Rand, big bool) core.Plan {
	p := &IDPlan{}
	n := r.Range(1, 6)
	if big {
		n = r.Range(2, 30)
	}
	for i := 0; i < n; i++ {
		p.Names = append(p.Names, genWritten(r))
		if w := p.Names[i]; r.Chance(1, 3) && w.T != "" {
			// The same with another case.
			k := strings.Split(w.T, "%s")
			for j := range k {
				k[j] = recase(r, k[j])
			}
			w.T = strings.Join(k, "%s")
			if r.Chance(1, 4) {
				w.Quoted = !w.Quoted
			}
			p.Names = append(p.Names, w)
		}
	}
	cs := r.Range(2, 5)
	for c := 0; c < cs; c++ {
		var ops []Op
		m := r.Range(1, 6)
		if big {
			m = r.Range(1, 40)
		}
		for i := 0; i < m; i++ {
			ops = append(ops, Op{Do: sim.Pick(r, "id", "id", "id", "text", "text", "gob", "parse", "kind"), Name: r.Intn(len(p.Names))})
		}
		p.Clients = append(p.Clients, ops)
	}
	p.Sched = core.GenSched(r, cs+1, sim.Pick(r, 50, 200, 1000))
	return p
}

// seen is what clients were told about identifiers.
type seen struct {
	mu    simsync.Mutex
	ids   map[string]types.Identifier
	names map[types.Identifier]string
	bad   string
	new   int
}

func (s *seen) fail(format string, args ...any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.bad == "" {
		s.bad = fmt.Sprintf(format, args...)
	}
}

func (s *seen) id(who, text string, quoted bool, id types.Identifier) {
	c, kw, _ := canon(text, quoted)
	key := fmt.Sprintf("%t %s", kw, c)
	s.mu.Lock()
	defer s.mu.Unlock()
	if old, ok := s.ids[key]; !ok {
		s.ids[key] = id
	} else if old != id && s.bad == "" {
		s.bad = fmt.Sprintf("%s: %q (quoted %t) is %d, and it was %d before", who, text, quoted, id, old)
	}
	if old, ok := s.names[id]; !ok {
		s.names[id] = key
	} else if old != key && s.bad == "" {
		s.bad = fmt.Sprintf("%s: %q (quoted %t) is %d, which was %q before", who, text, quoted, id, old)
	}
}

func (s *seen) use(who, do, text string, quoted bool) {
	c, kw, res := canon(text, quoted)
	if do == "parse" {
		if strings.ContainsAny(text, "\x00\xff") || !quoted && strings.ContainsAny(text, " .") || text == "" || res || len(text) > 100 || !quoted && kw {
			do = "id"
		} else {
			q := text
			if quoted {
				q = `"` + text + `"`
			}
			st, err := parser.NewParser(strings.NewReader("DROP DATABASE "+q+";"), who).Parse()
			dd, ok := st.(*sql.DropDatabase)
			if err != nil || !ok {
				// Perhaps not a name where names are wanted.
				do = "id"
			} else {
				s.id(who+": parsed", text, quoted, dd.Database)
				return
			}
		}
	}
	id := types.ID(text, quoted)
	s.id(who, text, quoted, id)
	switch do {
	case "text":
		if got := id.String(); got != c {
			s.fail("%s: the text of %q (quoted %t), %d, is %q, wanted %q", who, text, quoted, id, got, c)
		}
	case "kind":
		if got := id.IsReserved(); got != res {
			s.fail("%s: %q (quoted %t), %d, is reserved: %t, wanted %t", who, text, quoted, id, got, res)
		}
	case "gob":
		buf, err := id.GobEncode()
		var id2 types.Identifier
		if err == nil {
			err = id2.GobDecode(buf)
		}
		if err != nil || id2 != id {
			s.fail("%s: %q (quoted %t), %d, was encoded and decoded as %d, %v", who, text, quoted, id, id2, err)
		}
	}
}

func runID(cp core.Plan, e *core.Env) {
	p := cp.(*IDPlan)
	s := &seen{ids: map[string]types.Identifier{}, names: map[types.Identifier]string{}}
	var clients []core.Client
	users := map[string]int{}
	for c := range p.Clients {
		ops := p.Clients[c]
		who := fmt.Sprintf("client%d", c)
		mine := map[string]bool{}
		for _, op := range ops {
			w := p.Names[op.Name]
			t, _, _ := canon(w.text(p.Seed), w.Quoted)
			mine[t] = true
		}
		for t := range mine {
			users[t]++
		}
		clients = append(clients, core.Client{Name: who, Fn: func() {
			for _, op := range ops {
				w := p.Names[op.Name]
				s.use(who, op.Do, w.text(p.Seed), w.Quoted)
			}
		}})
	}
	ok := e.RunTasks(p, func() {
		// An earlier run may have used these.
		for _, w := range p.Names {
			if !strings.Contains(w.T, "%s") {
				types.ID(w.text(p.Seed), w.Quoted)
			}
		}
	}, clients, func() {
		for _, do := range []string{"text", "kind", "gob"} {
			for _, w := range p.Names {
				s.use("afterwards", do, w.text(p.Seed), w.Quoted)
			}
		}
	})
	for _, w := range p.Names {
		e.Logf("%q quoted %t", w.text(p.Seed), w.Quoted)
	}
	if !ok {
		return
	}
	if s.bad != "" {
		e.Fail("identifier", "%s", s.bad)
	}
	e.Mix(fmt.Sprint(len(s.ids)))
	for _, n := range users {
		if n > 1 {
			e.Nontriv = true
			e.Count("names used by several clients", 1)
		}
	}
}

func shrinkID(cp core.Plan, emit func(core.Plan)) {
	p := cp.(*IDPlan)
	for c := range p.Clients {
		if len(p.Clients) > 1 {
			q := core.Clone(p.Prop, p)
			q.Clients = append(q.Clients[:c], q.Clients[c+1:]...)
			emit(q)
		}
		for i := range p.Clients[c] {
			q := core.Clone(p.Prop, p)
			q.Clients[c] = append(q.Clients[c][:i], q.Clients[c][i+1:]...)
			emit(q)
		}
	}
	for n := range p.Names {
		used := false
		for _, ops := range p.Clients {
			for _, op := range ops {
				used = used || op.Name == n
			}
		}
		if used || len(p.Names) == 1 {
			continue
		}
		q := core.Clone(p.Prop, p)
		q.Names = append(q.Names[:n], q.Names[n+1:]...)
		for c := range q.Clients {
			for i := range q.Clients[c] {
				if q.Clients[c][i].Name > n {
					q.Clients[c][i].Name--
				}
			}
		}
		emit(q)
	}
}

func init() {
	core.Register(&core.Check{
		ID:   "C26",
		Rule: "clients which ask for the same and different, new and known names, as text, by way of the parser, and encoded; non-trivial: several clients used one name",
		Real: []string{"types (identifiers)", "parser, scanner"}, Stub: []string{"scheduler and locks (simsync)"},
		Quick: 800000, Thorough: 4000000,
		New: func() core.Plan { return &IDPlan{} }, Gen: genID, Run: runID, Shrink: shrinkID,
		Assume: []string{"names of more than 128 bytes count as their first 128 bytes"},
	})
}
