package storecheck

import (
	"verif/harness/core"
	"verifsim/sim"
)

var (
	realParts = []string{"storage/basic", "encode", "types", "google/btree (uninstrumented)"}
	stubParts = []string{"sync (simulated mutexes)", "goroutine scheduling (simulator)"}
)

func register(id, rule string, quick int64, nontriv func(p *Plan, e *core.Env, all []*result) bool, mixes ...*mix) {
	core.Register(&core.Check{
		ID:    id,
		Rule:  rule,
		Real:  realParts,
		Stub:  stubParts,
		Quick: quick,
		New:   func() core.Plan { return &Plan{} },
		Gen: func(r *sim.Rand, big bool) core.Plan {
			return mixes[r.Intn(len(mixes))].gen(r, big)
		},
		Run: func(cp core.Plan, e *core.Env) {
			p := cp.(*Plan)
			all, ok := p.simulate(e)
			if !ok {
				return
			}
			p.judge(e, all)
			e.Nontriv = nontriv(p, e, all)
			for _, res := range all {
				if res.txn.End == "rollback" {
					e.Count("fault rollback or abandoned transaction", 1)
				}
				e.Count("fault completion attempted with open rows", int64(len(res.txn.Early)))
				e.Count("fault completion attempted again", int64(len(res.txn.After)))
				e.Count("fault operation which must fail", int64(res.stats[stErr]))
			}
			if len(p.Sched.Slow) > 0 {
				e.Count("fault stalled client", 1)
			}
		},
		Shrink: func(cp core.Plan, emit func(core.Plan)) {
			shrink(cp.(*Plan), func(q *Plan) { emit(q) })
		},
		Assume: []string{"a caller does not use a row reference after its row was deleted, nor modify a row it has read or inserted"},
	})
}

func writes(all []*result) int {
	n := 0
	for _, r := range all {
		n += r.stats[stWrite] + r.stats[stCursorWrite]
	}
	return n
}

func overlapping(all []*result) bool {
	for _, a := range all {
		for _, b := range all {
			if a.client != b.client && a.call < b.ret && b.call < a.ret {
				return true
			}
		}
	}
	return false
}

func failed(all []*result) int {
	n := 0
	for _, r := range all {
		n += r.stats[stErr]
	}
	return n
}

func init() {
	register("C01", "clients run generated transactions (conflicting reads and writes of few keys, read-modify-write, cross-table sums) against the real store; non-trivial: transactions of different clients overlapped in time and some of them wrote",
		150000, func(p *Plan, e *core.Env, all []*result) bool { return overlapping(all) && writes(all) > 1 },
		&mix{clients: [2]int{2, 5}, txns: [2]int{1, 3}, ops: [2]int{1, 6}, tables: [2]int{1, 3}, rollback: 20, initRows: 5, bad: 5, counter: 80,
			w: map[string]int{"insert": 10, "scan": 15, "incr": 30, "copy": 20, "updscan": 8, "delscan": 5, "open": 3, "next": 5, "upd": 3, "del": 3}},
		&mix{clients: [2]int{2, 4}, txns: [2]int{1, 3}, ops: [2]int{1, 8}, tables: [2]int{1, 3}, rollback: 30, initRows: 6, bad: 10, counter: 30,
			w: map[string]int{"insert": 20, "scan": 20, "incr": 5, "copy": 5, "updscan": 10, "delscan": 8, "open": 5, "next": 8, "upd": 5, "del": 4, "ref": 3, "updref": 3, "delref": 2}},
		&mix{clients: [2]int{2, 4}, txns: [2]int{1, 3}, ops: [2]int{1, 6}, tables: [2]int{1, 3}, rollback: 30, bad: 5, counter: 60, dyn: true,
			w: map[string]int{"insert": 20, "scan": 15, "incr": 10, "copy": 5, "updscan": 6, "delscan": 4, "create": 14, "drop": 6}},
	)
	register("C02", "transactions which are rolled back, or abandoned after any prefix of their operations, between transactions which read everything; non-trivial: a rolled back transaction had written",
		150000, func(p *Plan, e *core.Env, all []*result) bool {
			for _, r := range all {
				if r.txn.End == "rollback" && r.stats[stWrite]+r.stats[stCursorWrite]+r.stats[stDDL] > 0 {
					return true
				}
			}
			return false
		},
		&mix{clients: [2]int{1, 3}, txns: [2]int{2, 5}, ops: [2]int{1, 6}, tables: [2]int{1, 2}, rollback: 65, initRows: 8, bad: 15, counter: 30,
			w: map[string]int{"insert": 25, "scan": 20, "incr": 8, "copy": 4, "updscan": 12, "delscan": 10, "open": 6, "next": 10, "upd": 8, "del": 6, "ref": 3, "updref": 3, "delref": 3}},
		&mix{clients: [2]int{1, 3}, txns: [2]int{2, 5}, ops: [2]int{1, 6}, tables: [2]int{1, 3}, rollback: 60, bad: 10, counter: 30, dyn: true,
			w: map[string]int{"insert": 25, "scan": 15, "create": 20, "drop": 12, "updscan": 8, "delscan": 6, "info": 5}},
	)
	register("C03", "tables of every column type with keys of several columns, ascending and descending, read with ranges, projections, and predicates between writes; non-trivial: at least three rows were read",
		150000, func(p *Plan, e *core.Env, all []*result) bool { return e.Stats["rows read"] >= 3 },
		&mix{clients: [2]int{1, 2}, txns: [2]int{1, 3}, ops: [2]int{3, 10}, tables: [2]int{1, 3}, rollback: 15, initRows: 20, bad: 3, counter: 5,
			w: map[string]int{"insert": 10, "scan": 60, "updscan": 5, "delscan": 3, "open": 6, "next": 15, "upd": 3, "del": 2}},
	)
	register("C04", "cursors which stay open while their transaction inserts, updates, and deletes through them, through other cursors, and through kept row references; non-trivial: a cursor or row reference wrote",
		180000, func(p *Plan, e *core.Env, all []*result) bool {
			return e.Stats["writes through a cursor or row reference"] > 0
		},
		&mix{clients: [2]int{1, 3}, txns: [2]int{1, 3}, ops: [2]int{6, 20}, tables: [2]int{1, 2}, rollback: 25, initRows: 10, bad: 8, counter: 20,
			w: map[string]int{"insert": 10, "scan": 6, "open": 14, "next": 30, "upd": 16, "del": 8, "ref": 10, "updref": 10, "delref": 6, "close": 3, "updscan": 5, "delscan": 3}},
	)
	register("C05", "inserts of several rows and updates of which many fail (duplicate keys within a statement or with existing rows, NULL, too long, not convertible), inside transactions which go on and commit; non-trivial: an operation failed and the transaction went on",
		200000, func(p *Plan, e *core.Env, all []*result) bool { return failed(all) > 0 },
		&mix{clients: [2]int{1, 2}, txns: [2]int{1, 3}, ops: [2]int{3, 10}, tables: [2]int{1, 2}, rollback: 20, initRows: 8, bad: 30, counter: 20,
			w: map[string]int{"insert": 35, "scan": 15, "updscan": 20, "delscan": 3, "open": 8, "next": 12, "upd": 14, "ref": 4, "updref": 6}},
	)
	register("C06", "values at and beyond the limits of every column type, inserted and updated, with and without conversion, and then read back and validated; non-trivial: an operation failed and rows were read back",
		150000, func(p *Plan, e *core.Env, all []*result) bool {
			return failed(all) > 0 && e.Stats["rows read"] > 0
		},
		&mix{clients: [2]int{1, 2}, txns: [2]int{1, 3}, ops: [2]int{3, 8}, tables: [2]int{1, 3}, rollback: 15, initRows: 3, bad: 45, counter: 5,
			w: map[string]int{"insert": 40, "scan": 15, "updscan": 20, "open": 6, "next": 8, "upd": 8, "valid": 12}},
	)
	register("C09", "tables with neighbouring ids are created, filled, dropped, and created again with another definition, by transactions of which some are rolled back; non-trivial: a table was created or dropped and rows were read",
		150000, func(p *Plan, e *core.Env, all []*result) bool {
			return e.Stats["tables created or dropped"] > 0 && e.Stats["rows read"] > 0
		},
		&mix{clients: [2]int{1, 3}, txns: [2]int{2, 5}, ops: [2]int{2, 8}, tables: [2]int{1, 4}, rollback: 25, bad: 3, counter: 30, dyn: true,
			w: map[string]int{"insert": 30, "scan": 18, "create": 25, "drop": 10, "updscan": 6, "delscan": 4, "info": 8, "open": 3, "next": 5, "wrong": 4}},
	)
	register("x-store-complete", "", 0, func(p *Plan, e *core.Env, all []*result) bool {
		return e.Stats["completions refused"] > 0
	},
		&mix{clients: [2]int{1, 4}, txns: [2]int{1, 4}, ops: [2]int{1, 5}, tables: [2]int{1, 2}, rollback: 40, initRows: 6, bad: 5, counter: 50,
			early: 40, after: 60,
			w: map[string]int{"insert": 25, "scan": 15, "incr": 8, "updscan": 8, "delscan": 5, "open": 15, "next": 8, "upd": 5, "close": 3}},
		&mix{clients: [2]int{2, 4}, txns: [2]int{1, 4}, ops: [2]int{1, 4}, tables: [2]int{1, 2}, rollback: 40, initRows: 6, counter: 80,
			early: 15, after: 80,
			w: map[string]int{"insert": 15, "scan": 15, "incr": 30, "updscan": 8, "open": 4}},
	)
}
