package catalog

import (
	"fmt"
	"strings"

	"github.com/leftmike/maho/types"
	"verif/harness/fault"
	"verifsim/sim"
)

// Pool is the names of one run.
type Pool struct {
	DBs, SCs, TBs []Name
	Cols          []Name
	sql           bool
}

var special = []Name{{"a", false}, {"A", true}, {"ab", false}, {"a b", true}, {"a.b", true}, {"\u00e9t\u00e9", false},
	{"\u00c9T\u00c9", false}, {"a\x01", true}, {"a\xff", true}, {"select", true}, {"SELECT", true}, {"b", false},
	{"path", true}, {"a\x00", true}, {"a\x00b", true}, {"Ab", false}, {"Ab", true}, {"\u4e16\u754c", true}}

// SQL: only names which can be written in SQL.
func GenPool(r *sim.Rand, sql bool) *Pool {
	sp := special
	if sql {
		sp = nil
		for _, n := range special {
			if !strings.ContainsAny(n.S, "\x00\x01\xff") {
				sp = append(sp, n)
			}
		}
	}
	names := func(n int, words ...string) []Name {
		var ns []Name
		for i := 0; i < n; i++ {
			switch r.Intn(5) {
			case 0:
				ns = append(ns, sp[r.Intn(len(sp))])
			case 1:
				if r.Chance(1, 4) {
					ns = append(ns, Name{strings.Repeat(sim.Pick(r, "x", "y"), sim.Pick(r, 127, 128, 129, 200)) + sim.Pick(r, "", "p", "q"), r.Chance(1, 2)})
					continue
				}
				fallthrough
			default:
				ns = append(ns, Name{words[r.Intn(len(words))], false})
			}
		}
		return ns
	}
	p := &Pool{
		DBs:  names(r.Range(1, 3), "db", "db1", "db12", "Db2", "maho", "d"),
		SCs:  names(r.Range(1, 3), "sc", "sc1", "SC", "public", "private", "s"),
		TBs:  names(r.Range(1, 4), "tbl", "tbl1", "TBL", "tables", "t", "t1", "t12"),
		Cols: names(r.Range(1, 6), "c", "c1", "c2", "id", "name"),
	}
	p.sql = sql
	if r.Chance(1, 4) {
		p.DBs = append(p.DBs, Name{"maho", false})
		p.SCs = append(p.SCs, Name{"public", false})
	}
	if r.Chance(1, 12) {
		p.DBs = append(p.DBs, Name{"system", false})
		p.SCs = append(p.SCs, Name{"info", false})
		p.TBs = append(p.TBs, Name{"schemas", false})
	}
	if r.Chance(1, 4) {
		p.Cols = append(p.Cols, Name{sim.Pick(r, "path", "text", "int", "stdin"), false})
	}
	return p
}

// Grow makes many more names of one kind.
func (p *Pool) Grow(r *sim.Rand, what string) {
	more := func(ns *[]Name, s string, n int) {
		for i := 0; i < n; i++ {
			*ns = append(*ns, Name{fmt.Sprint(s, i), false})
		}
	}
	switch what {
	case "dbs":
		more(&p.DBs, "d", r.Range(8, 70))
		p.SCs = p.SCs[:1]
	case "schemas":
		more(&p.SCs, "s", r.Range(8, 70))
		p.DBs = p.DBs[:1]
	case "tables":
		more(&p.TBs, "t", r.Range(20, 200))
	}
}

func (p *Pool) DB(r *sim.Rand) *Name { n := p.DBs[r.Intn(len(p.DBs))]; return &n }
func (p *Pool) SC(r *sim.Rand) *Name { n := p.SCs[r.Intn(len(p.SCs))]; return &n }
func (p *Pool) TB(r *sim.Rand) *Name { n := p.TBs[r.Intn(len(p.TBs))]; return &n }

func GenType(r *sim.Rand) Col {
	var c Col
	c.N = r.Chance(1, 2)
	switch r.Intn(10) {
	case 0:
		c.T, c.S = types.BoolType, 1
	case 1:
		c.T, c.S, c.F = types.StringType, sim.Pick(r, uint32(1), 2, 255, 256, 65535, 1<<31), r.Chance(1, 2)
	case 2:
		c.T, c.S = types.StringType, types.MaxColumnSize
	case 3:
		c.T, c.S, c.F = types.BytesType, sim.Pick(r, uint32(1), 2, 255, 256, 65535, 1<<31), r.Chance(1, 2)
	case 4:
		c.T, c.S = types.BytesType, types.MaxColumnSize
	case 5:
		c.T, c.S = types.Float64Type, 8
	case 6:
		c.T, c.S = types.Int64Type, 2
	case 7:
		c.T, c.S = types.Int64Type, 4
	default:
		c.T, c.S = types.Int64Type, 8
	}
	return c
}

// GenDef makes a definition; max is how many columns it has at most.
func GenDef(r *sim.Rand, p *Pool, max int) *Def {
	d := &Def{}
	used := map[string]bool{}
	n := r.Range(1, max)
	if max > 3 && r.Chance(1, 20) {
		n = sim.Pick(r, 40, 64, 100, 300, 700)
		if p.sql {
			n = sim.Pick(r, 20, 40, 64, 200)
		}
	}
	for i := 0; i < n; i++ {
		c := GenType(r)
		if i < len(p.Cols) {
			c.Name = p.Cols[r.Intn(len(p.Cols))]
		} else {
			c.Name = Name{"col" + strings.Repeat("x", i%10) + string(rune('a'+i/10%26)) + strings.Repeat("z", i/260), false}
		}
		if used[colName(c.Name)] {
			continue
		}
		used[colName(c.Name)] = true
		d.Cols = append(d.Cols, c)
	}
	size := 300
	for _, c := range d.Cols {
		size += 60 + len(c.Name.S)
	}
	d.Huge = size > 2000
	if r.Chance(2, 3) {
		for _, c := range perm(r, len(d.Cols))[:r.Range(1, min(4, len(d.Cols)))] {
			if r.Chance(1, 3) {
				d.Key = append(d.Key, -c-1)
			} else {
				d.Key = append(d.Key, c+1)
			}
		}
	}
	return d
}

func perm(r *sim.Rand, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// GenFault: some call of an operation which makes up to max storage calls.
func GenFault(r *sim.Rand, max int) *fault.F {
	return &fault.F{N: r.Range(1, max), After: r.Chance(1, 4), Sticky: r.Chance(1, 3)}
}

// Intern the names of operations, so that a run does not depend on the runs
// before it in the same process.
func Intern(ops []Op) {
	for i := range ops {
		o := &ops[i]
		for _, n := range []*Name{o.DB, o.SC, o.TB} {
			if n != nil {
				n.ID()
				types.ID(n.Key(), true)
			}
		}
		if o.Def != nil {
			o.Def.Make()
			for _, c := range o.Def.Cols {
				types.ID(c.Name.Key(), true)
				types.ID(c.Name.ID().String(), true)
			}
		}
		if o.Col != "" {
			types.ID(o.Col, false)
		}
		Intern(o.More)
	}
}
