package sessioncheck

import (
	"strings"

	"github.com/leftmike/maho/types"
	"verif/harness/catalog"
	"verif/harness/core"
	"verifsim/sim"
)

type mix struct {
	clients [2]int
	stmts   [2]int
	qual    int // percent of names which are qualified
	faults  int // percent of statements
	end     int // how often a transaction ends, percent
	misuse  int // percent of transaction statements in the wrong state
	ahead   int
	w       map[string]int
}

var kinds = []string{"begin", "setdb", "setschema", "setbad", "createdb", "dropdb", "createschema", "dropschema",
	"createtable", "droptable", "createindex", "dropindex", "dml", "other", "syntax", "empty"}

// storage calls of a statement outside of a transaction
var calls = map[string]int{"commit": 1, "rollback": 1, "createdb": 4, "dropdb": 9, "createschema": 9, "dropschema": 9, "createtable": 22,
	"droptable": 3, "createindex": 7, "dropindex": 2, "other": 2}

func (m *mix) gen(r *sim.Rand, big bool) *Plan {
	p := &Plan{}
	pool := catalog.GenPool(r, true)
	// Some runs are larger than the others in one way.
	scale := ""
	if r.Chance(1, 60) {
		scale = sim.Pick(r, "dbs", "schemas", "tables", "stmts", "stmts", "clients")
		pool.Grow(r, scale)
		if scale == "tables" {
			pool.TBs = pool.TBs[:min(len(pool.TBs), 50)]
		}
	}
	size := func(lo, hi int, what string, times int) int {
		n := r.Range(lo, hi)
		if scale == what {
			n = n*times + r.Intn(times)
		}
		return n
	}
	// Values of SET are folded like unquoted names, and must not be keywords.
	vals := func(ns []catalog.Name) []string {
		var vs []string
		for _, n := range ns {
			if k := strings.ToUpper(n.S); k != "SELECT" && k != "PATH" {
				if n.Q && n.S != strings.ToLower(n.S) && r.Chance(1, 2) {
					continue
				}
				vs = append(vs, n.S)
			}
		}
		return append(vs, "a")
	}
	dbVals, scVals := vals(pool.DBs), vals(pool.SCs)
	w := map[string]int{}
	total := 0
	for _, k := range kinds {
		n := m.w[k]
		if n > 0 && n < 30 && r.Chance(1, 8) {
			n = 0
		} else if r.Chance(1, 8) {
			n *= 3
		}
		w[k] = n
		total += n
	}
	name := func(o *catalog.Op, table bool) {
		switch {
		case !r.Chance(m.qual, 100):
			if !table {
				o.SC = pool.SC(r)
			}
		case table && r.Chance(1, 2):
			o.SC = pool.SC(r)
		default:
			o.DB, o.SC = pool.DB(r), pool.SC(r)
		}
		if table {
			o.TB = pool.TB(r)
		}
	}
	var pick func() catalog.Op
	pick = func() catalog.Op {
		k := "empty"
		if total > 0 {
			x := r.Intn(total)
			for _, k = range kinds {
				if x < w[k] {
					break
				}
				x -= w[k]
			}
		}
		o := catalog.Op{K: k}
		switch k {
		case "setdb":
			o.Val = dbVals[r.Intn(len(dbVals))]
		case "setschema":
			o.Val = scVals[r.Intn(len(scVals))]
		case "setbad":
			o.Val = "x"
		case "createdb":
			o.DB = pool.DB(r)
			o.Opt = r.Chance(1, 10)
		case "dropdb":
			o.DB = pool.DB(r)
			o.If = r.Chance(1, 3)
		case "createschema":
			name(&o, false)
		case "dropschema":
			name(&o, false)
			o.If = r.Chance(1, 3)
		case "createtable":
			name(&o, true)
			o.If = r.Chance(1, 3)
			o.Def = catalog.GenDef(r, pool, 4)
			for i := range o.Def.Cols {
				if c := &o.Def.Cols[i]; c.T == types.Float64Type && r.Chance(1, 2) {
					c.S = 4
				}
			}
		case "droptable":
			name(&o, true)
			for r.Chance(1, 3) {
				o2 := catalog.Op{}
				name(&o2, true)
				o.More = append(o.More, o2)
			}
			o.If = r.Chance(1, 3)
		case "dml":
			name(&o, true)
		case "createindex", "dropindex":
			name(&o, true)
			o.If = r.Chance(1, 3)
			o.Opt = true
			o.Col = "nosuch"
		case "other":
			o.Text = unsupported[r.Intn(len(unsupported))]
		case "syntax":
			o.Text = malformed[r.Intn(len(malformed))]
		}
		return o
	}

	nc := size(m.clients[0], m.clients[1], "clients", 3)
	for c := 0; c < nc; c++ {
		s := Script{DB: catalog.Name{S: "maho"}, SC: catalog.Name{S: "public"}, Ahead: r.Chance(m.ahead, 100),
			End: sim.Pick(r, "commit", "rollback")}
		if r.Chance(1, 3) {
			s.DB, s.SC = *pool.DB(r), *pool.SC(r)
		}
		add := func(o catalog.Op) {
			if n := calls[o.K]; n > 0 && r.Chance(m.faults, 100) {
				o.Fault = catalog.GenFault(r, n)
				if o.K == "commit" || o.K == "rollback" {
					o.Fault.After, o.Fault.Sticky = false, false
				}
			}
			o.Text = strings.TrimSpace(render(r, &o))
			if r.Chance(1, 4) {
				o.Text = ws(r) + o.Text
			}
			s.Stmts = append(s.Stmts, o)
		}
		if c == 0 {
			// Most of the names exist.
			for _, db := range pool.DBs {
				if r.Chance(4, 5) {
					db := db
					add(catalog.Op{K: "createdb", DB: &db})
				}
			}
			tx := r.Chance(1, 2)
			if tx {
				add(catalog.Op{K: "begin"})
			}
			for _, db := range append(pool.DBs, catalog.Name{S: "maho"}) {
				for _, sc := range pool.SCs {
					if r.Chance(3, 5) {
						db, sc := db, sc
						add(catalog.Op{K: "createschema", DB: &db, SC: &sc})
					}
				}
			}
			if tx {
				add(catalog.Op{K: "commit"})
			}
		}
		if c == 0 && scale == "tables" {
			tx := r.Chance(1, 2)
			if tx {
				add(catalog.Op{K: "begin"})
			}
			for i := range pool.TBs {
				add(catalog.Op{K: "createtable", DB: pool.DB(r), SC: pool.SC(r), TB: &pool.TBs[i], Def: catalog.GenDef(r, pool, 2)})
			}
			if tx {
				add(catalog.Op{K: "commit"})
			}
		}
		inTx := false
		for n := size(m.stmts[0], m.stmts[1], "stmts", 6); n > 0; n-- {
			if inTx && r.Chance(m.end, 100) {
				add(catalog.Op{K: sim.Pick(r, "commit", "commit", "rollback")})
				inTx = false
				continue
			}
			if r.Chance(m.misuse, 100) {
				if inTx {
					add(catalog.Op{K: "begin"})
				} else {
					add(catalog.Op{K: sim.Pick(r, "commit", "rollback")})
				}
				continue
			}
			o := pick()
			if o.K == "begin" {
				if inTx {
					o = pick()
				}
				if o.K == "begin" {
					inTx = true
				}
			}
			add(o)
		}
		p.Scripts = append(p.Scripts, s)
	}
	p.Max = 10000000
	p.Sched = core.GenSched(r, nc+1, sim.Pick(r, 2000, 10000, 40000))
	if scale != "" {
		p.Max *= 20
		p.Sched.Span *= 10
	}
	return p
}

func shrink(p *Plan, emit func(*Plan)) {
	clone := func() *Plan { return core.Clone(p.Prop, p) }
	for c := range p.Scripts {
		q := clone()
		q.Scripts = append(q.Scripts[:c], q.Scripts[c+1:]...)
		emit(q)
	}
	for c := range p.Scripts {
		n := len(p.Scripts[c].Stmts)
		for size := n / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= n; i += size {
				q := clone()
				ss := q.Scripts[c].Stmts
				q.Scripts[c].Stmts = append(ss[:i], ss[i+size:]...)
				emit(q)
			}
		}
	}
	for c := range p.Scripts {
		for i := range p.Scripts[c].Stmts {
			if p.Scripts[c].Stmts[i].Fault != nil {
				q := clone()
				q.Scripts[c].Stmts[i].Fault = nil
				emit(q)
			}
		}
		if p.Scripts[c].Ahead {
			q := clone()
			q.Scripts[c].Ahead = false
			emit(q)
		}
	}
}

var (
	realParts = []string{"parser", "parser/scanner", "parser/sql", "evaluate", "engine", "storage/basic", "encode", "types",
		"encoding/gob and google/btree (uninstrumented)"}
	stubParts = []string{"sync (simulated mutexes)", "goroutine scheduling (simulator)", "storage errors (a wrapper of the store)"}
)

func overlapping(all []*catalog.Unit) bool {
	for _, a := range all {
		for _, b := range all {
			if a.Client != b.Client && a.Call < b.Ret && b.Call < a.Ret {
				return true
			}
		}
	}
	return false
}

func has(all []*catalog.Unit, fn func(u *catalog.Unit, o *catalog.Op, r *catalog.Res) bool) bool {
	for _, u := range all {
		for i := range u.Res {
			if fn(u, &u.Ops[i], &u.Res[i]) {
				return true
			}
		}
	}
	return false
}

func register(id, rule string, quick int64, nontriv func(p *Plan, all []*catalog.Unit) bool, mixes ...*mix) {
	core.Register(&core.Check{
		ID: id, Rule: rule, Real: realParts, Stub: stubParts, Quick: quick,
		New: func() core.Plan { return &Plan{} },
		Gen: func(r *sim.Rand, big bool) core.Plan { return mixes[r.Intn(len(mixes))].gen(r, big) },
		Run: func(cp core.Plan, e *core.Env) {
			p := cp.(*Plan)
			all := p.run(e)
			if all == nil {
				return
			}
			for i := range p.Scripts {
				for _, o := range p.Scripts[i].Stmts {
					e.Count("statements "+o.K, 1)
				}
			}
			for _, u := range all {
				if u.End == "rollback" {
					e.Count("fault rollback", 1)
				}
			}
			if len(p.Sched.Slow) > 0 {
				e.Count("fault stalled client", 1)
			}
			catalog.Judge(e, all)
			e.Nontriv = nontriv(p, all)
		},
		Shrink: func(cp core.Plan, emit func(core.Plan)) { shrink(cp.(*Plan), func(q *Plan) { emit(q) }) },
		Assume: []string{"a storage call which fails has either taken effect or not; a commit which fails has rolled back"},
	})
}

func init() {
	register("C16", "sessions run scripts of statements in and out of transactions, with BEGIN, COMMIT, ROLLBACK, and CREATE and DROP DATABASE also where they are errors; non-trivial: a transaction of at least two statements overlapped with another session",
		24000, func(p *Plan, all []*catalog.Unit) bool {
			return overlapping(all) && has(all, func(u *catalog.Unit, o *catalog.Op, r *catalog.Res) bool { return u.End != "auto" && len(u.Ops) > 1 })
		},
		&mix{clients: [2]int{2, 4}, stmts: [2]int{3, 14}, qual: 80, end: 30, misuse: 8, ahead: 30,
			w: map[string]int{"begin": 25, "setdb": 1, "setbad": 1, "createdb": 6, "dropdb": 4, "createschema": 14, "dropschema": 8,
				"createtable": 20, "droptable": 2, "createindex": 2, "dml": 2, "other": 2, "syntax": 1, "empty": 1}},
	)
	register("C17", "sessions with their own current databases and schemas run statements with qualified and unqualified names, and change their databases and schemas; non-trivial: an unqualified name was used after a SET",
		24000, func(p *Plan, all []*catalog.Unit) bool {
			for i := range p.Scripts {
				set := false
				for _, o := range p.Scripts[i].Stmts {
					if o.K == "setdb" || o.K == "setschema" {
						set = true
					} else if set && (o.K == "createtable" || o.K == "createschema") && o.DB == nil {
						return true
					}
				}
			}
			return false
		},
		&mix{clients: [2]int{1, 4}, stmts: [2]int{4, 16}, qual: 35, end: 30, misuse: 2, ahead: 40,
			w: map[string]int{"begin": 5, "setdb": 14, "setschema": 14, "setbad": 3, "createdb": 2, "dropdb": 1, "createschema": 12,
				"dropschema": 5, "createtable": 30, "droptable": 4, "createindex": 4, "dropindex": 2, "dml": 8, "other": 1, "syntax": 1}},
	)
	register("C18", "sessions run statements which fail by themselves, or because the storage fails at some point of them, in and out of transactions; non-trivial: a storage call failed",
		36000, func(p *Plan, all []*catalog.Unit) bool {
			return has(all, func(u *catalog.Unit, o *catalog.Op, r *catalog.Res) bool { return r.Fault || u.EndRes.Fault })
		},
		&mix{clients: [2]int{1, 3}, stmts: [2]int{4, 14}, qual: 70, end: 25, misuse: 5, faults: 30, ahead: 20,
			w: map[string]int{"begin": 14, "setdb": 2, "setbad": 2, "createdb": 8, "dropdb": 5, "createschema": 14, "dropschema": 8,
				"createtable": 20, "droptable": 3, "createindex": 5, "dropindex": 2, "dml": 2, "other": 8, "syntax": 4, "empty": 2}},
	)
}
