package enginecheck

import (
	"verif/harness/catalog"
	"verif/harness/core"
	"verif/harness/fault"
	"verifsim/sim"
)

type mix struct {
	clients  [2]int
	units    [2]int
	ops      [2]int
	rollback int
	faults   int // percent of operations
	after    int
	cols     int
	w        map[string]int
}

var kinds = []string{"createdb", "dropdb", "listdbs", "createschema", "dropschema", "listschemas", "createtable",
	"opentable", "droptable", "listtables"}

// storage calls of an operation
var calls = map[string]int{"createdb": 3, "dropdb": 8, "listdbs": 8, "createschema": 7, "dropschema": 7, "listschemas": 10,
	"createtable": 14, "opentable": 5, "droptable": 3, "listtables": 3}

func (m *mix) gen(r *sim.Rand, big bool) *Plan {
	p := &Plan{}
	pool := catalog.GenPool(r, false)
	// Some runs are larger than the others in one way.
	scale := ""
	if r.Chance(1, 60) {
		scale = sim.Pick(r, "dbs", "schemas", "tables", "units", "ops", "clients")
		pool.Grow(r, scale)
		p.Max = 100000000
	}
	size := func(lo, hi int, what string, times int) int {
		n := r.Range(lo, hi)
		if scale == what {
			n = n*times + r.Intn(times)
		}
		return n
	}
	w := map[string]int{}
	total, tx := 0, 0
	for i, k := range kinds {
		n := m.w[k]
		if n > 0 && n < 30 && r.Chance(1, 6) {
			n = 0
		} else if r.Chance(1, 6) {
			n *= 3
		}
		w[k] = n
		total += n
		if i >= 3 {
			tx += n
		}
	}
	op := func(from, total int) catalog.Op {
		k := "opentable"
		if total > 0 {
			x := r.Intn(total)
			for _, k = range kinds[from:] {
				if x < w[k] {
					break
				}
				x -= w[k]
			}
		}
		o := catalog.Op{K: k}
		switch k {
		case "createdb", "dropdb", "listschemas":
			o.DB = pool.DB(r)
		case "createschema", "dropschema", "listtables":
			o.DB, o.SC = pool.DB(r), pool.SC(r)
		case "createtable", "opentable", "droptable":
			o.DB, o.SC, o.TB = pool.DB(r), pool.SC(r), pool.TB(r)
		}
		switch k {
		case "createdb":
			o.Opt = r.Chance(1, 20)
		case "dropdb", "dropschema":
			o.If = r.Chance(1, 3)
		case "createtable":
			o.Def = catalog.GenDef(r, pool, m.cols)
		}
		if r.Chance(m.faults, 100) {
			o.Fault = catalog.GenFault(r, calls[k])
		}
		return o
	}
	nc := size(m.clients[0], m.clients[1], "clients", 3)
	nr := 0
	if r.Chance(1, 3) {
		nr = r.Range(1, 2)
	}
	for c := 0; c < nc+nr; c++ {
		var us []Unit
		if c == 0 {
			// Most of the names exist.
			u := Unit{End: "commit"}
			for _, db := range pool.DBs {
				if r.Chance(4, 5) {
					us = append(us, Unit{Ops: []catalog.Op{{K: "createdb", DB: &db}}, End: "auto"})
					for _, sc := range pool.SCs {
						if r.Chance(4, 5) {
							u.Ops = append(u.Ops, catalog.Op{K: "createschema", DB: &db, SC: &sc})
						}
					}
				}
			}
			us = append(us, u)
			for i := 0; scale == "tables" && i < len(pool.TBs); {
				u := Unit{End: "commit"}
				db, sc := pool.DB(r), pool.SC(r)
				for n := r.Range(1, 40); n > 0 && i < len(pool.TBs); n-- {
					u.Ops = append(u.Ops, catalog.Op{K: "createtable", DB: db, SC: sc, TB: &pool.TBs[i], Def: catalog.GenDef(r, pool, 2)})
					i++
				}
				us = append(us, u)
			}
		}
		for n := size(m.units[0], m.units[1], "units", 6); n > 0; n-- {
			o := op(0, total)
			if isAuto(&o) {
				us = append(us, Unit{Ops: []catalog.Op{o}, End: "auto"})
				continue
			}
			u := Unit{End: "commit", Ops: []catalog.Op{o}}
			if r.Chance(m.rollback, 100) {
				u.End = "rollback"
			}
			for n := size(m.ops[0], m.ops[1], "ops", 8); n > 1; n-- {
				u.Ops = append(u.Ops, op(3, tx))
			}
			if r.Chance(m.faults, 200) {
				u.EndFault = &fault.F{N: 1}
			}
			if r.Chance(m.after, 100) {
				for n := r.Range(1, 3); n > 0; n-- {
					u.After = append(u.After, sim.Pick(r, "commit", "rollback"))
				}
			}
			us = append(us, u)
		}
		if c < nc {
			p.Clients = append(p.Clients, us)
		} else {
			p.Restart = append(p.Restart, us)
		}
	}
	p.Sched = core.GenSched(r, nc+1, sim.Pick(r, 1000, 5000, 20000))
	if scale != "" {
		p.Sched.Span *= 10
	}
	return p
}

func shrink(p *Plan, emit func(*Plan)) {
	clone := func() *Plan { return core.Clone(p.Prop, p) }
	for c := range p.Clients {
		q := clone()
		q.Clients = append(q.Clients[:c], q.Clients[c+1:]...)
		emit(q)
	}
	for c := range p.Restart {
		q := clone()
		q.Restart = append(q.Restart[:c], q.Restart[c+1:]...)
		emit(q)
	}
	shrinkUnits(p.Clients, func() (*Plan, [][]Unit) { q := clone(); return q, q.Clients }, emit)
	shrinkUnits(p.Restart, func() (*Plan, [][]Unit) { q := clone(); return q, q.Restart }, emit)
}

func shrinkUnits(all [][]Unit, clone func() (*Plan, [][]Unit), emit func(*Plan)) {
	for c := range all {
		n := len(all[c])
		for size := n / 2; size > 1; size /= 2 {
			for i := 0; i+size <= n; i += size {
				q, us := clone()
				us[c] = append(us[c][:i], us[c][i+size:]...)
				emit(q)
			}
		}
	}
	for c := range all {
		for u := range all[c] {
			q, us := clone()
			us[c] = append(us[c][:u], us[c][u+1:]...)
			emit(q)
		}
	}
	for c := range all {
		for u := range all[c] {
			pu := &all[c][u]
			n := len(pu.Ops)
			for size := n / 2; size > 1; size /= 2 {
				for i := 0; i+size <= n; i += size {
					q, us := clone()
					ops := us[c][u].Ops
					us[c][u].Ops = append(ops[:i], ops[i+size:]...)
					emit(q)
				}
			}
			for i := 0; i < n && n > 1; i++ {
				q, us := clone()
				ops := us[c][u].Ops
				us[c][u].Ops = append(ops[:i], ops[i+1:]...)
				emit(q)
			}
			for i := 0; i < n; i++ {
				o := &pu.Ops[i]
				if o.Fault != nil {
					q, us := clone()
					us[c][u].Ops[i].Fault = nil
					emit(q)
				}
				if o.Def != nil && len(o.Def.Cols) > 1 && len(o.Def.Key) == 0 {
					q, us := clone()
					d := us[c][u].Ops[i].Def
					d.Cols = d.Cols[:len(d.Cols)/2]
					emit(q)
				}
				if o.Def != nil && len(o.Def.Key) > 0 {
					q, us := clone()
					d := us[c][u].Ops[i].Def
					d.Key = d.Key[:len(d.Key)-1]
					emit(q)
				}
			}
			if pu.EndFault != nil {
				q, us := clone()
				us[c][u].EndFault = nil
				emit(q)
			}
			if pu.After != nil {
				q, us := clone()
				us[c][u].After = nil
				emit(q)
			}
		}
	}
}
