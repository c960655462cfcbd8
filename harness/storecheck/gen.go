package storecheck

import (
	"github.com/leftmike/maho/types"
	"verif/harness/core"
	"verif/harness/val"
	"verifsim/sim"
)

// mix is the weight of each kind of operation, and how a check's plans differ.
type mix struct {
	clients  [2]int
	txns     [2]int
	ops      [2]int
	tables   [2]int
	rollback int // percent
	initRows int
	bad      int // percent of values which are not as declared
	counter  int // percent of tables which are int key, int value
	dyn      bool
	early    int // percent of transactions completed with open rows
	after    int // percent completed again
	w        map[string]int
	order    []string
}

var kinds = []string{"insert", "scan", "open", "next", "upd", "del", "ref", "updref", "delref", "close",
	"updscan", "delscan", "incr", "copy", "create", "drop", "info", "valid", "wrong"}

func genCol(r *sim.Rand) Col {
	c := Col{N: r.Chance(1, 2)}
	switch r.Intn(9) {
	case 0:
		c.T, c.S = types.BoolType, 1
	case 1, 2:
		c.T, c.S, c.F = types.StringType, sim.Pick(r, uint32(1), 3, 10, 250, 4096), r.Chance(1, 4)
	case 3:
		c.T, c.S, c.F = types.BytesType, sim.Pick(r, uint32(1), 4, 16, 300), r.Chance(1, 4)
	case 4:
		c.T, c.S = types.Float64Type, 8
	case 5:
		c.T, c.S = types.Int64Type, 2
	case 6:
		c.T, c.S = types.Int64Type, 4
	default:
		c.T, c.S = types.Int64Type, 8
	}
	return c
}

func genDef(r *sim.Rand, tid uint32, counter bool, most int) TableDef {
	d := TableDef{Tid: tid}
	if counter {
		d.Cols = []Col{{T: types.Int64Type, S: 8, N: true}, {T: types.Int64Type, S: 8}}
		d.Key = []int{sim.Pick(r, 1, 1, -1)}
		return d
	}
	n := r.Range(1, most)
	for i := 0; i < n; i++ {
		d.Cols = append(d.Cols, genCol(r))
	}
	if r.Chance(1, 8) {
		return d // row id
	}
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i + 1
		j := r.Intn(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	k := 1
	if n > 1 && r.Chance(1, 2) {
		k = r.Range(1, min(n, max(3, most/3)))
	}
	for _, c := range perm[:k] {
		if r.Chance(1, 3) {
			c = -c
		}
		d.Key = append(d.Key, c)
	}
	return d
}

func genTid(r *sim.Rand, used map[uint32]bool) uint32 {
	for {
		tid := sim.Pick(r, 16, 17, 18, 19, 20, 255, 256, 257, 511, 512, 65536, 1<<24, 1<<31-1, 1<<31, 1<<32-2, 1<<32-1, uint32(16+r.Intn(1000)))
		if !used[tid] {
			used[tid] = true
			return tid
		}
	}
}

type gen struct {
	r    *sim.Rand
	m    *mix
	p    *Plan
	pool []int // per table: size of the pool of values

	// Some runs are larger than the others in one way.
	scale string
	slots int
}

func (g *gen) size(lo, hi int, what string, times int) int {
	n := g.r.Range(lo, hi)
	if g.scale == what {
		n = n*times + g.r.Intn(times)
	}
	return n
}

func genRow(r *sim.Rand, cts []types.ColumnType, pool, bad int) []val.V {
	n := len(cts)
	if bad > 0 && r.Chance(bad, 400) {
		n = r.Range(1, n)
	} else if bad > 0 && r.Chance(bad, 1500) {
		n++
	}
	var row []val.V
	for i := 0; i < n; i++ {
		if i == len(cts) {
			row = append(row, "n")
		} else if bad > 0 && r.Chance(bad, 100*len(cts)) {
			row = append(row, val.GenBad(r, cts[i]))
		} else {
			row = append(row, val.Gen(r, cts[i], pool))
		}
	}
	return row
}

// distinct are the rows with different keys.
func distinct(rows [][]val.V, d *TableDef) [][]val.V {
	seen := map[string]bool{}
	var out [][]val.V
	for _, row := range rows {
		k := ""
		for _, c := range d.keyCols() {
			if c < len(row) {
				k += string(row[c]) + "|"
			}
		}
		if len(d.Key) == 0 || !seen[k] {
			out = append(out, row)
		}
		seen[k] = true
	}
	return out
}

func (g *gen) newPool() int {
	pool := val.GenPool(g.r)
	if g.scale == "rows" && g.r.Chance(4, 5) {
		pool = val.Wide(pool, sim.Pick(g.r, 40, 200, 1000, 100000))
	}
	return pool
}

// bound of a range: the key columns, or a prefix of them.
func (g *gen) bound(d *TableDef, pool int) []val.V {
	cts := d.colTypes()
	row := make([]val.V, len(cts))
	for i := range row {
		row[i] = "n"
	}
	keys := d.keyCols()
	for i, c := range keys {
		if i > 0 && g.r.Chance(1, 4) {
			break
		}
		row[c] = val.Gen(g.r, cts[c], pool)
	}
	return row
}

func (g *gen) ranged(op *Op, d *TableDef, pool int) {
	r := g.r
	switch r.Intn(6) {
	case 0, 1:
	case 2:
		op.Min = g.bound(d, pool)
	case 3:
		op.Max = g.bound(d, pool)
	case 4:
		op.Min = g.bound(d, pool)
		op.Max = g.bound(d, pool)
	case 5:
		op.Min = g.bound(d, pool)
		op.Max = op.Min
	}
	if r.Chance(1, 4) {
		cts := d.colTypes()
		c := r.Intn(len(cts))
		op.Pred = &Pred{C: c, Op: sim.Pick(r, "eq", "ne", "lt", "le", "gt", "ge", "all", "none")}
		for op.Pred.V == "" || op.Pred.V == "n" {
			op.Pred.V = val.Gen(r, cts[c], pool)
		}
	}
	if r.Chance(1, 3) && op.K != "updscan" && op.K != "delscan" {
		cts := d.colTypes()
		op.Proj = []int{}
		for n := r.Range(0, 3); n > 0; n-- {
			op.Proj = append(op.Proj, r.Intn(len(cts)))
		}
	}
}

func (g *gen) sets(op *Op, d *TableDef, pool int) {
	r := g.r
	cts := d.colTypes()
	keys := d.keyCols()
	n := 1
	if r.Chance(1, 3) {
		n = r.Range(1, len(cts))
	}
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		c := r.Intn(len(cts))
		if i == 0 && r.Chance(1, 3) {
			c = keys[r.Intn(len(keys))]
		}
		if used[c] {
			continue
		}
		used[c] = true
		op.Cols = append(op.Cols, c)
		if r.Chance(g.m.bad, 100) {
			op.Vals = append(op.Vals, val.GenBad(r, cts[c]))
		} else {
			op.Vals = append(op.Vals, val.Gen(r, cts[c], pool))
		}
	}
}

// a 64 bit integer column which is not part of the key.
func intCol(d *TableDef) int {
	key := map[int]bool{}
	for _, c := range d.keyCols() {
		key[c] = true
	}
	for c, ct := range d.colTypes() {
		if ct.Type == types.Int64Type && ct.Size == 8 && !key[c] {
			return c
		}
	}
	return -1
}

func (g *gen) op(k string) (Op, bool) {
	r := g.r
	p := g.p
	lo := 0
	if p.Dyn {
		lo = 1
	}
	t := r.Range(lo, len(p.Defs)-1)
	d := &p.Defs[t]
	cts := d.colTypes()
	pool := g.pool[t]
	op := Op{K: k, T: t, Fresh: r.Chance(1, 6)}
	switch k {
	case "insert":
		n := sim.Pick(r, 1, 1, 1, 2, 3, 5)
		if g.scale == "rows" && r.Chance(1, 3) {
			n = r.Range(6, 60)
			if g.m.dyn && r.Chance(1, 2) {
				n = r.Range(60, 200)
			}
		} else if r.Chance(1, 20) {
			n = 0
		}
		for i := 0; i < n; i++ {
			bad := g.m.bad
			if n > 5 && r.Chance(9, 10) {
				bad = 0
			}
			op.Rows = append(op.Rows, genRow(r, cts, pool, bad))
		}
		if n > 5 && r.Chance(4, 5) {
			op.Rows = distinct(op.Rows, d)
			if r.Chance(1, 5) {
				op.Rows = append(op.Rows, op.Rows[r.Intn(len(op.Rows))])
			}
		}
	case "scan":
		g.ranged(&op, d, pool)
		if r.Chance(1, 6) {
			op.N = r.Range(1, 3)
		}
		op.Slot = r.Intn(2)
	case "open":
		op.Slot = r.Intn(g.slots)
		g.ranged(&op, d, pool)
	case "next":
		op.Slot = r.Intn(g.slots)
		op.N = sim.Pick(r, 1, 1, 2, 3)
	case "upd":
		op.Slot = r.Intn(g.slots)
		g.sets(&op, d, pool)
	case "del", "close":
		op.Slot = r.Intn(g.slots)
	case "ref":
		op.Slot = r.Intn(g.slots)
		op.N = r.Intn(g.slots)
	case "updref":
		op.N = r.Intn(g.slots)
		g.sets(&op, d, pool)
	case "delref":
		op.N = r.Intn(g.slots)
	case "updscan":
		g.ranged(&op, d, pool)
		g.sets(&op, d, pool)
		op.N = sim.Pick(r, 0, 0, 2, 3)
	case "delscan":
		g.ranged(&op, d, pool)
		op.N = sim.Pick(r, 0, 2, 3)
	case "incr", "copy":
		c := intCol(d)
		if c < 0 {
			return op, false
		}
		op.Cols = []int{c}
		op.Min = g.bound(d, pool)
		if k == "copy" {
			t2 := r.Range(lo, len(p.Defs)-1)
			c2 := intCol(&p.Defs[t2])
			if c2 < 0 {
				return op, false
			}
			op.T2 = t2
			op.Cols = []int{c, c2}
			op.Rows = [][]val.V{g.bound(&p.Defs[t2], g.pool[t2])}
			if r.Chance(1, 2) {
				op.Min = nil
			}
		}
	case "create", "drop":
		if !p.Dyn {
			return op, false
		}
	case "wrong":
		op.N = r.Intn(12)
		op.Slot = r.Intn(6)
	}
	return op, true
}

func (m *mix) gen(r *sim.Rand, big bool) *Plan {
	p := &Plan{Dyn: m.dyn}
	if r.Chance(1, 5) {
		p.Virgin = r.Range(1, 2)
	}
	g := &gen{r: r, m: m, p: p, slots: 3}
	most := 5
	if r.Chance(1, 50) {
		g.scale = sim.Pick(r, "rows", "rows", "rows", "txns", "ops", "tables", "cols", "slots")
		p.Max = 50000000
		switch g.scale {
		case "cols":
			most = 40
		case "slots":
			g.slots = maxSlots
		}
	}
	used := map[uint32]bool{}
	nt := g.size(m.tables[0], m.tables[1], "tables", 6)
	if m.dyn {
		d := genDef(r, genTid(r, used), true, most)
		d.Key = []int{1}
		p.Defs = append(p.Defs, d)
		g.pool = append(g.pool, 1)
		for slot := 1; slot <= nt; slot++ {
			tid := genTid(r, used)
			for n := r.Range(1, 2); n > 0; n-- {
				if r.Chance(1, 4) {
					used[tid] = true
					// Another version of the table may have another id.
					tid = genTid(r, used)
				}
				d := genDef(r, tid, r.Chance(m.counter, 100), most)
				d.Slot = slot
				if i := len(p.Defs) - 1; i > 0 && p.Defs[i].Slot == slot {
					// Much of it may be the same.
					if r.Chance(2, 3) {
						d.As = i + 1
					}
					if r.Chance(2, 3) {
						d.Like = i + 1
					}
					if r.Chance(1, 4) {
						d.Cols = append([]Col(nil), p.Defs[i].Cols...)
						c := r.Intn(len(d.Cols))
						if r.Chance(1, 2) {
							d.Cols[c].N = !d.Cols[c].N
						} else {
							d.Cols[c] = genCol(r)
						}
						d.Key = p.Defs[i].Key
					} else if r.Chance(1, 4) && len(d.Cols) == len(p.Defs[i].Cols) {
						d.Cols = append([]Col(nil), p.Defs[i].Cols...)
					}
				}
				p.Defs = append(p.Defs, d)
				g.pool = append(g.pool, g.newPool())
			}
		}
		p.Init = [][][]val.V{{}}
	} else {
		for t := 0; t < nt; t++ {
			p.Defs = append(p.Defs, genDef(r, genTid(r, used), r.Chance(m.counter, 100), most))
			g.pool = append(g.pool, g.newPool())
			var rows [][]val.V
			n := r.Range(0, m.initRows)
			if g.scale == "rows" && r.Chance(2, 3) {
				n = r.Range(10, 300)
			}
			for ; n > 0; n-- {
				rows = append(rows, genRow(r, p.Defs[t].colTypes(), g.pool[t], 0))
			}
			p.Init = append(p.Init, rows)
		}
	}
	// Swarm: some kinds of operations are left out of a run.
	w := map[string]int{}
	total := 0
	for _, k := range kinds {
		n := m.w[k]
		if n > 0 && r.Chance(1, 5) && n < 40 {
			n = 0
		} else if n > 0 && r.Chance(1, 6) {
			n *= 4
		}
		w[k] = n
		total += n
	}
	nc := r.Range(m.clients[0], m.clients[1])
	if big && r.Chance(1, 3) {
		nc++
	}
	for c := 0; c < nc; c++ {
		var txns []Txn
		for n := g.size(m.txns[0], m.txns[1], "txns", 6); n > 0; n-- {
			t := Txn{End: "commit"}
			if r.Chance(m.rollback, 100) {
				t.End = "rollback"
			}
			no := g.size(m.ops[0], m.ops[1], "ops", 6)
			if g.scale == "slots" {
				no *= 3
			}
			if big && r.Chance(1, 4) {
				no *= 2
			}
			for len(t.Ops) < no && total > 0 {
				x := r.Intn(total)
				for _, k := range kinds {
					if x < w[k] {
						if op, ok := g.op(k); ok {
							t.Ops = append(t.Ops, op)
						} else {
							no--
						}
						break
					}
					x -= w[k]
				}
			}
			if r.Chance(m.early, 100) {
				t.Early = []string{sim.Pick(r, "commit", "rollback")}
				if r.Chance(1, 3) {
					t.Early = append(t.Early, sim.Pick(r, "commit", "rollback"))
				}
				ot := r.Range(boolInt(m.dyn), len(p.Defs)-1)
				t.Ops = append(t.Ops, Op{K: "open", T: ot, Slot: 0})
				for n := sim.Pick(r, 0, 0, 1, 2); n > 0; n-- {
					t.Ops = append(t.Ops, Op{K: "scan", T: ot, Slot: r.Intn(2)})
				}
			}
			if r.Chance(m.after, 100) {
				for n := r.Range(1, 3); n > 0; n-- {
					t.After = append(t.After, sim.Pick(r, "commit", "rollback", "use"))
				}
			}
			txns = append(txns, t)
		}
		p.Clients = append(p.Clients, txns)
	}
	p.Sched = core.GenSched(r, nc+1, sim.Pick(r, 200, 1000, 5000))
	if g.scale != "" {
		p.Sched.Span *= 10
	}
	return p
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// shrink a plan: leave out clients, transactions, operations, rows, and the
// faults of a transaction.
func shrink(p *Plan, emit func(*Plan)) {
	clone := func() *Plan { return core.Clone(p.Prop, p) }
	for c := range p.Clients {
		q := clone()
		q.Clients = append(q.Clients[:c], q.Clients[c+1:]...)
		emit(q)
	}
	for c := range p.Clients {
		for t := range p.Clients[c] {
			q := clone()
			q.Clients[c] = append(q.Clients[c][:t], q.Clients[c][t+1:]...)
			emit(q)
		}
	}
	for c := range p.Clients {
		for t := range p.Clients[c] {
			n := len(p.Clients[c][t].Ops)
			for size := n; size >= 1; size /= 2 {
				for i := 0; i+size <= n; i += size {
					q := clone()
					ops := q.Clients[c][t].Ops
					q.Clients[c][t].Ops = append(ops[:i], ops[i+size:]...)
					emit(q)
				}
			}
			if len(p.Clients[c][t].After) > 0 {
				q := clone()
				q.Clients[c][t].After = nil
				emit(q)
			}
			if len(p.Clients[c][t].Early) > 0 {
				q := clone()
				q.Clients[c][t].Early = nil
				emit(q)
			}
		}
	}
	if p.Virgin > 0 {
		q := clone()
		q.Virgin--
		emit(q)
	}
	for t := range p.Init {
		if len(p.Init[t]) > 0 {
			q := clone()
			q.Init[t] = nil
			emit(q)
			for size := len(p.Init[t]) / 2; size > 1; size /= 2 {
				for i := 0; i+size <= len(p.Init[t]); i += size {
					q := clone()
					q.Init[t] = append(q.Init[t][:i], q.Init[t][i+size:]...)
					emit(q)
				}
			}
			for i := range p.Init[t] {
				q := clone()
				q.Init[t] = append(q.Init[t][:i], q.Init[t][i+1:]...)
				emit(q)
			}
		}
	}
	for c := range p.Clients {
		for t := range p.Clients[c] {
			for o := range p.Clients[c][t].Ops {
				op := &p.Clients[c][t].Ops[o]
				if len(op.Rows) > 1 {
					for size := len(op.Rows) / 2; size > 1; size /= 2 {
						for i := 0; i+size <= len(op.Rows); i += size {
							q := clone()
							qo := &q.Clients[c][t].Ops[o]
							qo.Rows = append(qo.Rows[:i], qo.Rows[i+size:]...)
							emit(q)
						}
					}
					for i := range op.Rows {
						q := clone()
						qo := &q.Clients[c][t].Ops[o]
						qo.Rows = append(qo.Rows[:i], qo.Rows[i+1:]...)
						emit(q)
					}
				}
				if op.Pred != nil {
					q := clone()
					q.Clients[c][t].Ops[o].Pred = nil
					emit(q)
				}
				if op.Proj != nil {
					q := clone()
					q.Clients[c][t].Ops[o].Proj = nil
					emit(q)
				}
				if op.Min != nil && op.K != "incr" {
					q := clone()
					q.Clients[c][t].Ops[o].Min = nil
					emit(q)
				}
				if op.Max != nil {
					q := clone()
					q.Clients[c][t].Ops[o].Max = nil
					emit(q)
				}
			}
		}
	}
	if !p.Dyn && len(p.Defs) > 1 {
		t := len(p.Defs) - 1
		used := false
		for c := range p.Clients {
			for _, txn := range p.Clients[c] {
				for _, op := range txn.Ops {
					used = used || op.T == t || op.T2 == t
				}
			}
		}
		if !used {
			q := clone()
			q.Defs = q.Defs[:t]
			if len(q.Init) > t {
				q.Init = q.Init[:t]
			}
			emit(q)
		}
	}
}
