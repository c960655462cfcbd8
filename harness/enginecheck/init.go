package enginecheck

import (
	"fmt"
	"io"
	"sort"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
	"verif/harness/core"
	"verif/harness/fault"
	"verifsim/sim"
)

// InitPlan initialises a store, again and again while it fails, as other
// clients use tables of their own in it.
type InitPlan struct {
	core.Common
	Attempts []fault.F `json:"attempts"`
	Others   []int     `json:"others"` // transactions of each other client
}

func init() {
	core.Register(&core.Check{
		ID:    "C14",
		Rule:  "initialisation during which any storage call fails, repeated until it succeeds, next to clients with tables of their own; non-trivial: an attempt failed",
		Real:  realParts,
		Stub:  stubParts,
		Quick: 70000,
		New:   func() core.Plan { return &InitPlan{} },
		Gen: func(r *sim.Rand, big bool) core.Plan {
			p := &InitPlan{}
			for n := r.Range(0, 4); n > 0; n-- {
				p.Attempts = append(p.Attempts, fault.F{N: r.Range(1, 18), After: r.Chance(1, 4), Sticky: r.Chance(1, 3)})
			}
			for n := r.Range(0, 2); n > 0; n-- {
				p.Others = append(p.Others, r.Range(1, 4))
			}
			p.Sched = core.GenSched(r, len(p.Others)+2, sim.Pick(r, 1000, 5000))
			return p
		},
		Run: func(cp core.Plan, e *core.Env) { cp.(*InitPlan).run(e) },
		Shrink: func(cp core.Plan, emit func(core.Plan)) {
			p := cp.(*InitPlan)
			for i := range p.Attempts {
				q := core.Clone(p.Prop, p)
				q.Attempts = append(q.Attempts[:i], q.Attempts[i+1:]...)
				emit(q)
			}
			for i := range p.Others {
				q := core.Clone(p.Prop, p)
				q.Others = append(q.Others[:i], q.Others[i+1:]...)
				emit(q)
			}
			for i := range p.Others {
				if p.Others[i] > 1 {
					q := core.Clone(p.Prop, p)
					q.Others[i]--
					emit(q)
				}
			}
		},
	})
}

type sysTable struct {
	name string
	tid  uint32
	rows []string
}

func (p *InitPlan) run(e *core.Env) {
	st, _ := basic.NewStore("")
	w := &world{st: fault.New(st)}
	var msgs []string
	fail := func(format string, args ...any) { msgs = append(msgs, fmt.Sprintf(format, args...)) }
	var log []string
	clients := []core.Client{{Name: "init", Fn: func() {
		for i := 0; ; i++ {
			var f *fault.F
			if i < len(p.Attempts) {
				f = &p.Attempts[i]
			}
			t := w.st.Arm(f)
			err := engine.Init(w.st)
			fired := w.st.Disarm()
			log = append(log, fmt.Sprintf("init: failed %v, storage failed %v", err != nil, fired))
			if t.Txs != 0 || t.Rows != 0 {
				fail("attempt %d left %d transactions and %d rows open", i, t.Txs, t.Rows)
				return
			}
			if err == nil {
				return
			}
			if !fired {
				fail("attempt %d failed: %v", i, err)
				return
			}
			e.Nontriv = true
		}
	}}}
	bad := make([]string, len(p.Others))
	for c := range p.Others {
		c := c
		clients = append(clients, core.Client{Name: fmt.Sprintf("other%d", c), Fn: func() {
			bad[c] = w.other(c, p.Others[c])
		}})
	}
	ok := e.RunTasks(p, func() {
		for c := range p.Others {
			otherTable(c)
		}
		for _, s := range []string{"c", "user0", "user1"} {
			types.ID(s, true)
		}
	}, clients, func() {
		for c := range p.Others {
			if s := w.otherRead(c, p.Others[c]); s != "" {
				fail("%s", s)
			}
		}
		if len(msgs) == 0 {
			w.initialised(fail)
		}
	})
	w.st.Count(e.Count)
	for _, l := range log {
		e.Logf("%s", l)
		e.Mix(l)
	}
	if !ok {
		return
	}
	msgs = append(msgs, bad...)
	for _, s := range msgs {
		if s != "" {
			e.Fail("model", "%s", s)
		}
	}
	if s := w.st.Leaks(); s != "" {
		e.Fail("leak", "%s", s)
	}
}

func otherTable(c int) (tid storage.TableId, tn types.TableName, cns []types.Identifier, cts []types.ColumnType, key []types.ColumnKey) {
	return storage.TableId(300 + c), types.TableName{Database: types.ID("x", true), Schema: types.ID("x", true), Table: types.ID(fmt.Sprintf("other%d", c), true)},
		[]types.Identifier{types.ID("k", true)}, []types.ColumnType{types.Int64ColType}, []types.ColumnKey{types.MakeColumnKey(0, false)}
}

// other client: a table of its own, to which each transaction adds a row.
func (w *world) other(c, n int) string {
	tid, tn, cns, cts, key := otherTable(c)
	for i := 0; i < n; i++ {
		tx := w.st.Begin()
		if i == 0 {
			if err := tx.CreateTable(bg, tid, tn, cns, cts, key); err != nil {
				return fmt.Sprintf("other client: create: %v", err)
			}
		}
		tbl, err := tx.OpenTable(bg, tid, tn, cns, cts, key)
		if err != nil {
			return fmt.Sprintf("other client: open: %v", err)
		}
		if err := tbl.Insert(bg, []types.Row{{types.Int64Value(i)}}); err != nil {
			return fmt.Sprintf("other client: insert: %v", err)
		}
		if err := tx.Commit(bg); err != nil {
			return fmt.Sprintf("other client: commit: %v", err)
		}
	}
	return ""
}

func (w *world) otherRead(c, n int) string {
	tid, tn, cns, cts, key := otherTable(c)
	rows, err := w.read(tid, tn, cns, cts, key)
	if err != nil {
		return fmt.Sprintf("other client: %v", err)
	}
	if len(rows) != n {
		return fmt.Sprintf("the table of another client has %d rows, expected %d", len(rows), n)
	}
	return ""
}

func (w *world) read(tid storage.TableId, tn types.TableName, cns []types.Identifier, cts []types.ColumnType,
	key []types.ColumnKey) ([]types.Row, error) {

	tx := w.st.Begin()
	defer tx.Rollback()
	tbl, err := tx.OpenTable(bg, tid, tn, cns, cts, key)
	if err != nil {
		return nil, err
	}
	rs, err := tbl.Rows(bg, nil, nil, nil, nil)
	if err != nil {
		return nil, err
	}
	defer rs.Close(bg)
	var rows []types.Row
	for {
		row, err := rs.Next(bg)
		if err == io.EOF {
			return rows, nil
		} else if err != nil {
			return nil, err
		}
		rows = append(rows, row)
	}
}

// initialised checks that the catalog is complete, and as it says it is.
func (w *world) initialised(fail func(format string, args ...any)) {
	eng := engine.NewEngine(w.st)
	eq := func(what string, ids []types.Identifier, err error, want ...string) {
		if err != nil {
			fail("%s: %v", what, err)
			return
		}
		var got []string
		for _, id := range ids {
			got = append(got, id.String())
		}
		sort.Strings(got)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			fail("%s: got %v, expected %v", what, got, want)
		}
	}
	ids, err := eng.ListDatabases()
	eq("databases", ids, err, "maho", "system")
	tx := eng.Begin()
	ids, err = tx.ListSchemas(bg, types.SYSTEM)
	eq("schemas of system", ids, err, "info")
	ids, err = tx.ListSchemas(bg, types.MAHO)
	eq("schemas of maho", ids, err, "public")
	type sys struct {
		n   int
		tbl engine.Table
	}
	var tbls []sys
	for _, t := range []struct {
		id types.Identifier
		n  int
	}{{types.SEQUENCES, 1}, {types.DATABASES, 2}, {types.SCHEMAS, 2}, {types.TABLES, 4}} {
		tn := types.TableName{Database: types.SYSTEM, Schema: types.INFO, Table: t.id}
		tbl, err := tx.OpenTable(bg, tn)
		if err != nil {
			fail("%s: %v", tn, err)
			continue
		}
		tbls = append(tbls, sys{t.n, tbl})
	}
	if err := tx.Commit(bg); err != nil {
		fail("commit: %v", err)
	}
	seen := map[storage.TableId]bool{}
	for _, t := range tbls {
		tid := t.tbl.TableId()
		if tid < storage.EngineTableId || tid >= 512 || seen[tid] {
			fail("%s has id %d", t.tbl.Name(), tid)
			continue
		}
		seen[tid] = true
		tt := t.tbl.Type()
		rows, err := w.read(tid, t.tbl.Name(), tt.ColumnNames, tt.ColumnTypes, tt.Key)
		if err != nil {
			fail("%s: %v", t.tbl.Name(), err)
		} else if len(rows) != t.n {
			fail("%s: %d rows, expected %d", t.tbl.Name(), len(rows), t.n)
		}
	}
	for i := 0; i < 2; i++ {
		tn := types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: types.ID(fmt.Sprintf("user%d", i), true)}
		tx := eng.Begin()
		err := tx.CreateTable(bg, tn, []types.Identifier{types.ID("c", true)}, []types.ColumnType{types.Int64ColType}, nil)
		if err != nil {
			fail("create %s: %v", tn, err)
		}
		tbl, err := tx.OpenTable(bg, tn)
		if err != nil {
			fail("open %s: %v", tn, err)
		} else if i == 0 && tbl.TableId() != 512 {
			fail("the first table has id %d", tbl.TableId())
		}
		if err := tx.Commit(bg); err != nil {
			fail("commit: %v", err)
		}
	}
}
