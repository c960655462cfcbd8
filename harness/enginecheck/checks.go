package enginecheck

import (
	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
	"verif/harness/catalog"
	"verif/harness/core"
	"verifsim/sim"
)

var (
	realParts = []string{"engine", "storage/basic", "encode", "types", "encoding/gob and google/btree (uninstrumented)"}
	stubParts = []string{"sync (simulated mutexes)", "goroutine scheduling (simulator)", "storage errors (a wrapper of the store)"}
)

func register(id, rule string, quick int64, nontriv func(e *core.Env, all []*catalog.Unit) bool, mixes ...*mix) *core.Check {
	ck := &core.Check{
		ID:    id,
		Rule:  rule,
		Real:  realParts,
		Stub:  stubParts,
		Quick: quick,
		New:   func() core.Plan { return &Plan{} },
		Gen: func(r *sim.Rand, big bool) core.Plan {
			return mixes[r.Intn(len(mixes))].gen(r, big)
		},
		Run: func(cp core.Plan, e *core.Env) {
			p := cp.(*Plan)
			all := p.run(e)
			if all == nil {
				return
			}
			for _, us := range p.Clients {
				for _, u := range us {
					if u.End == "rollback" {
						e.Count("fault rollback", 1)
					}
					e.Count("fault completion attempted again", int64(len(u.After)))
				}
			}
			if len(p.Sched.Slow) > 0 {
				e.Count("fault stalled client", 1)
			}
			catalog.Judge(e, all)
			e.Nontriv = nontriv(e, all)
		},
		Shrink: func(cp core.Plan, emit func(core.Plan)) {
			shrink(cp.(*Plan), func(q *Plan) { emit(q) })
		},
		Assume: []string{"a storage call which fails has either taken effect or not; a commit which fails has rolled back"},
	}
	core.Register(ck)
	return ck
}

func has(all []*catalog.Unit, fn func(o *catalog.Op, r *catalog.Res) bool) bool {
	for _, u := range all {
		for i := range u.Res {
			if fn(&u.Ops[i], &u.Res[i]) {
				return true
			}
		}
	}
	return false
}

func created(all []*catalog.Unit) int {
	n := 0
	for _, u := range all {
		if u.End == "rollback" {
			continue
		}
		for i := range u.Res {
			if u.Ops[i].K == "createtable" && !u.Res[i].Err {
				n++
			}
		}
	}
	return n
}

func overlapping(all []*catalog.Unit) bool {
	for _, a := range all {
		for _, b := range all {
			if a.Client != b.Client && a.Call < b.Ret && b.Call < a.Ret {
				return true
			}
		}
	}
	return false
}

func init() {
	ck := register("x-catalog", "clients create, drop, list, and open databases, schemas, and tables, in transactions of which some are rolled back; non-trivial: transactions of different clients overlapped in time",
		0, func(e *core.Env, all []*catalog.Unit) bool { return overlapping(all) },
		&mix{clients: [2]int{2, 4}, units: [2]int{2, 6}, ops: [2]int{1, 5}, rollback: 20, after: 3, cols: 3,
			w: map[string]int{"createdb": 10, "dropdb": 6, "listdbs": 6, "createschema": 14, "dropschema": 8, "listschemas": 10,
				"createtable": 12, "opentable": 14, "droptable": 2, "listtables": 1}},
		&mix{clients: [2]int{2, 4}, units: [2]int{3, 8}, ops: [2]int{1, 4}, rollback: 25, cols: 2,
			w: map[string]int{"createdb": 15, "dropdb": 10, "listdbs": 12, "createschema": 14, "dropschema": 8, "listschemas": 14}},
	)
	ck.Findings = map[string]func() (bool, string){
		"drop-table": func() (bool, string) {
			tn := types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: types.ID("finding_tbl", true)}
			tx := fresh().Begin()
			defer tx.Rollback()
			tx.CreateTable(bg, tn, []types.Identifier{types.ID("c", true)}, []types.ColumnType{types.Int64ColType}, nil)
			if err := tx.DropTable(bg, tn); err != nil {
				return false, ""
			}
			_, err := tx.OpenTable(bg, tn)
			ids, _ := tx.ListTables(bg, tn.SchemaName())
			return err == nil || len(ids) > 0, "DROP TABLE succeeds and the table is still there (engine.DropTable, ListTables, CreateIndex, and DropIndex do nothing)"
		},
		"no-cascade": func() (bool, string) {
			eng := fresh()
			dn := types.ID("finding_db", true)
			sn := types.SchemaName{Database: dn, Schema: types.ID("s", true)}
			eng.CreateDatabase(dn, nil)
			tx := eng.Begin()
			tx.CreateSchema(bg, sn)
			tx.Commit(bg)
			if err := eng.DropDatabase(dn, false); err != nil {
				return false, ""
			}
			if err := eng.CreateDatabase(dn, nil); err != nil {
				return false, ""
			}
			tx = eng.Begin()
			defer tx.Rollback()
			ids, err := tx.ListSchemas(bg, dn)
			return err == nil && len(ids) > 0, "a database which was dropped and created again has the schemas (and tables) of the dropped one; so do schemas"
		},
		"keyword-name": func() (bool, string) {
			eng := fresh()
			eng.CreateDatabase(types.ID("path", false), nil)
			ids, _ := eng.ListDatabases()
			for _, id := range ids {
				if id == types.ID("path", false) {
					return false, ""
				}
			}
			return eng.CreateDatabase(types.ID("PATH", true), nil) != nil, "a database (schema, table) named by an unquoted keyword which is not reserved is listed as another identifier, and collides with the quoted upper case name"
		},
	}
	register("C11", "concurrent clients create tables, in transactions which are committed, rolled back, or fail, and in databases and schemas which are dropped; non-trivial: at least two tables were created",
		24000, func(e *core.Env, all []*catalog.Unit) bool { return created(all) >= 2 },
		&mix{clients: [2]int{1, 4}, units: [2]int{2, 6}, ops: [2]int{1, 5}, rollback: 25, faults: 3, cols: 2,
			w: map[string]int{"createdb": 2, "dropdb": 2, "createschema": 4, "dropschema": 4, "createtable": 40, "opentable": 14, "droptable": 3}},
	)
	register("x-tables", "tables of every definition are created and opened, by the creating and by other transactions, among tables whose definitions are too large to store; non-trivial: a table was created and opened",
		0, func(e *core.Env, all []*catalog.Unit) bool {
			return created(all) > 0 && has(all, func(o *catalog.Op, r *catalog.Res) bool { return o.K == "opentable" && r.Tid >= 512 })
		},
		&mix{clients: [2]int{1, 3}, units: [2]int{2, 5}, ops: [2]int{1, 5}, rollback: 15, cols: 9,
			w: map[string]int{"createdb": 2, "dropdb": 1, "createschema": 4, "dropschema": 1, "createtable": 40, "opentable": 24}},
	)
	register("x-engine-complete", "", 0, func(e *core.Env, all []*catalog.Unit) bool {
		return e.Stats["fault completion attempted again"] > 0
	},
		&mix{clients: [2]int{2, 4}, units: [2]int{2, 5}, ops: [2]int{1, 3}, rollback: 40, faults: 6, cols: 2, after: 70,
			w: map[string]int{"createdb": 4, "listdbs": 2, "createschema": 14, "dropschema": 8, "listschemas": 10, "createtable": 8, "opentable": 8}},
	)
	register("x-fault", "catalog operations during which a storage call fails, before or after its effect, once or from then on; non-trivial: a call failed",
		0, func(e *core.Env, all []*catalog.Unit) bool {
			return has(all, func(o *catalog.Op, r *catalog.Res) bool { return r.Fault })
		},
		&mix{clients: [2]int{1, 3}, units: [2]int{2, 6}, ops: [2]int{1, 4}, rollback: 20, faults: 40, cols: 3, after: 5,
			w: map[string]int{"createdb": 14, "dropdb": 10, "listdbs": 8, "createschema": 12, "dropschema": 10, "listschemas": 10,
				"createtable": 20, "opentable": 10}},
	)
}

func fresh() engine.Engine {
	st, _ := basic.NewStore("")
	if err := engine.Init(st); err != nil {
		panic(err)
	}
	return engine.NewEngine(st)
}
