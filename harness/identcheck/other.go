package identcheck

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"

	procb "maho.other/b/verifproc"
	"verif/harness/core"
	proca "verif/harness/identcheck/proc"
	"verif/harness/identcheck/wire"
	"verifsim/sim"
	"verifsim/simsync"
)

// process is one of the two.
type process struct {
	name       string
	id         func(text string, quoted bool) int
	known      func(n wire.Name) int
	encode     func(d wire.Def) ([]byte, []int, error)
	decode     func(buf []byte) (wire.Def, []int, error)
	encodeName func(n wire.Name) ([]byte, error)
	decodeName func(buf []byte) (wire.Name, error)
	newEngine  func(st wire.Store, init bool) (wire.Engine, error)
}

var procs = [2]process{
	{"process A", proca.ID, proca.Known, proca.Encode, proca.Decode, proca.EncodeName, proca.DecodeName, proca.NewEngine},
	{"process B", procb.ID, procb.Known, procb.Encode, procb.Decode, procb.EncodeName, procb.DecodeName, procb.NewEngine},
}

// Damage to what was encoded.
type Damage struct {
	Msg  int  `json:"msg"`
	At   int  `json:"at"`
	Cut  bool `json:"cut,omitempty"`
	With int  `json:"with,omitempty"`
}

// Step of the process which has the store.
type Step struct {
	Do  string `json:"do"` // database, schema, table, commit, rollback, restart
	DB  int    `json:"db,omitempty"`
	SC  int    `json:"sc,omitempty"`
	TB  int    `json:"tb,omitempty"`
	Def int    `json:"def,omitempty"`
}

type OtherPlan struct {
	core.Common
	Names  []Written  `json:"names"`
	Before [2][]int   `json:"before"` // names each process has before
	While  [2][]int   `json:"while"`  // and those its other clients use
	Defs   []wire.Def `json:"defs"`   // names by index
	Damage []Damage   `json:"damage,omitempty"`
	Steps  []Step     `json:"steps,omitempty"` // with a store
}

var ctx = context.Background()

func (p *OtherPlan) name(n int) wire.Name {
	w := p.Names[n%len(p.Names)]
	t, kw, res := canon(w.text(p.Seed), w.Quoted)
	return wire.Name{Text: t, Kw: kw, Res: res}
}

// def with its names.
func (p *OtherPlan) def(i int) wire.Def {
	d := p.Defs[i%len(p.Defs)]
	names := d.Names
	d.Names = nil
	for _, n := range names {
		var k int
		fmt.Sscan(n.Text, &k)
		d.Names = append(d.Names, p.name(k))
	}
	ixs := d.Indexes
	d.Indexes = nil
	for _, ix := range ixs {
		var k int
		fmt.Sscan(ix.Name.Text, &k)
		d.Indexes = append(d.Indexes, wire.Index{Name: p.name(k), Key: ix.Key})
	}
	return d
}

// created is what a table created with names, types, and key of def is.
func (p *OtherPlan) created(i int) wire.Def {
	d := p.def(i)
	d.Version = 1
	d.Indexes = nil
	return d
}

func genKey(r *sim.Rand, cols int) []int32 {
	var key []int32
	for n := r.Range(1, 3); n > 0 && cols > 0; n-- {
		c := int32(r.Intn(cols)) + 1
		if r.Chance(1, 3) {
			c = -c
		}
		key = append(key, c)
	}
	return key
}

func genDef(r *sim.Rand, names int) wire.Def {
	d := wire.Def{Version: uint32(sim.Pick(r, 0, 1, 1, 2, 1<<31))}
	n := r.Range(0, 6)
	for i := 0; i < n; i++ {
		d.Names = append(d.Names, wire.Name{Text: fmt.Sprint(r.Intn(names))})
		d.Types = append(d.Types, wire.ColType{Type: r.Range(0, 5), Size: uint32(sim.Pick(r, 0, 1, 2, 8, 1<<32-2)),
			Fixed: r.Chance(1, 3), NotNull: r.Chance(1, 2)})
	}
	if r.Chance(3, 4) {
		d.Key = genKey(r, n)
	}
	for k := sim.Pick(r, 0, 0, 1, 2); k > 0; k-- {
		d.Indexes = append(d.Indexes, wire.Index{Name: wire.Name{Text: fmt.Sprint(r.Intn(names))}, Key: genKey(r, n)})
	}
	return d
}

func genOther(r *sim.Rand, big bool) core.Plan {
	p := &OtherPlan{}
	n := r.Range(2, 8)
	if big {
		n = r.Range(2, 20)
	}
	for i := 0; i < n; i++ {
		p.Names = append(p.Names, genWritten(r))
	}
	some := func() []int {
		var ns []int
		for k := r.Range(0, n); k > 0; k-- {
			ns = append(ns, r.Intn(n))
		}
		return ns
	}
	for i := range p.Before {
		p.Before[i] = some()
		p.While[i] = some()
	}
	defs := r.Range(1, 3)
	for i := 0; i < defs; i++ {
		p.Defs = append(p.Defs, genDef(r, n))
	}
	if r.Chance(1, 2) {
		for k := r.Range(1, 4); k > 0; k-- {
			p.Damage = append(p.Damage, Damage{Msg: r.Intn(10), At: r.Intn(300), Cut: r.Chance(1, 3), With: r.Range(1, 255)})
		}
	}
	if r.Chance(1, 3) {
		m := r.Range(4, 12)
		if big {
			m = r.Range(3, 30)
		}
		few := func() int { return sim.Pick(r, 0, 0, 0, 0, 1, 1, 2) }
		for i := 0; i < m; i++ {
			st := Step{Do: sim.Pick(r, "database", "schema", "schema", "table", "table", "table", "commit", "commit", "rollback", "restart"),
				DB: few(), SC: few(), TB: r.Intn(n), Def: r.Intn(defs)}
			if i < 4 && r.Chance(7, 8) {
				st = Step{Do: []string{"database", "schema", "table", "commit"}[i], TB: st.TB, Def: st.Def}
			}
			p.Steps = append(p.Steps, st)
		}
	}
	p.Sched = core.GenSched(r, 6, sim.Pick(r, 200, 2000))
	return p
}

type message struct {
	buf  []byte
	def  int // or a name
	name int
	nums []int
}

// queue of what one process encoded for the other.
type queue struct {
	mu   simsync.Mutex
	cond *simsync.Cond
	ms   []message
	end  bool
}

func newQueue() *queue {
	q := &queue{}
	q.cond = simsync.NewCond(&q.mu)
	return q
}

func (q *queue) put(m message) {
	q.mu.Lock()
	defer q.mu.Unlock()
	q.ms = append(q.ms, m)
	q.cond.Broadcast()
}

func (q *queue) finish() {
	q.mu.Lock()
	defer q.mu.Unlock()
	q.end = true
	q.cond.Broadcast()
}

func (q *queue) get(i int) (message, bool) {
	q.mu.Lock()
	defer q.mu.Unlock()
	for len(q.ms) <= i && !q.end {
		q.cond.Wait()
	}
	if len(q.ms) <= i {
		return message{}, false
	}
	return q.ms[i], true
}

func norm(d wire.Def) string { return fmt.Sprintf("%+v", d) }

// counts of one task.
type counts map[string]int64

func (p *OtherPlan) run(e *core.Env) {
	s := &seen{}
	cb, cs := counts{}, counts{}
	to, back := newQueue(), newQueue()
	a, b := &procs[0], &procs[1]
	send := func(pr *process, q *queue, m message) bool {
		var err error
		if m.def >= 0 {
			m.buf, m.nums, err = pr.encode(p.def(m.def))
		} else {
			m.buf, err = pr.encodeName(p.name(m.name))
			m.nums = []int{pr.known(p.name(m.name))}
		}
		if err != nil {
			s.fail("%s did not encode %s: %v", pr.name, p.what(m), err)
			return false
		}
		q.put(m)
		return true
	}
	receive := func(pr *process, m message) bool {
		if m.def >= 0 {
			d, _, err := pr.decode(m.buf)
			if want := p.def(m.def); err != nil || norm(d) != norm(want) {
				s.fail("%s decoded:\n  %s, %v\nwhat was encoded is:\n  %s", pr.name, norm(d), err, norm(want))
				return false
			}
			return true
		}
		n, err := pr.decodeName(m.buf)
		if want := p.name(m.name); err != nil || n != want {
			s.fail("%s decoded %+v, %v; what was encoded is %+v", pr.name, n, err, want)
			return false
		}
		return true
	}
	var all []message
	for i := range p.Defs {
		all = append(all, message{def: i})
	}
	for i := range p.Names {
		all = append(all, message{def: -1, name: i})
	}
	others := func(i int) func() {
		return func() {
			for _, n := range p.While[i] {
				w := p.Names[n]
				procs[i].id(w.text(p.Seed), w.Quoted)
			}
		}
	}
	different := 0
	clients := []core.Client{
		{Name: "A encodes", Fn: func() {
			defer to.finish()
			for _, m := range all {
				if !send(a, to, m) {
					return
				}
			}
		}},
		{Name: "B decodes", Fn: func() {
			defer back.finish()
			for i := 0; ; i++ {
				m, ok := to.get(i)
				if !ok {
					return
				}
				if !receive(b, m) || !send(b, back, message{def: m.def, name: m.name}) {
					return
				}
				for _, dm := range p.Damage {
					if dm.Msg == i {
						p.damaged(cb, b, m, dm)
					}
				}
			}
		}},
		{Name: "A decodes", Fn: func() {
			for i := 0; ; i++ {
				m, ok := back.get(i)
				if !ok || !receive(a, m) {
					return
				}
				// The same numbers as before, whatever they were in B.
				was, _ := to.get(i)
				if m.def >= 0 {
					_, nums, _ := a.decode(m.buf)
					if !reflect.DeepEqual(nums, was.nums) {
						s.fail("the names of %s were %v in process A, and are %v", p.what(m), was.nums, nums)
						return
					}
				}
				if !reflect.DeepEqual(was.nums, m.nums) {
					different++
				}
			}
		}},
		{Name: "other of A", Fn: others(0)},
		{Name: "other of B", Fn: others(1)},
	}
	if len(p.Steps) > 0 {
		clients = append(clients, core.Client{Name: "store", Fn: func() { p.stored(cs, s) }})
	}
	ok := e.RunTasks(p, func() {
		for i := range p.Before {
			procs[i].id("plain", true)
			for k := 0; k < i*3; k++ { // the other process is not where this one is
				procs[i].id(fmt.Sprintf("filler%d.%x", k, p.Seed), true)
			}
			for _, w := range p.Names {
				if !strings.Contains(w.T, "%s") {
					procs[i].id(w.text(p.Seed), w.Quoted)
					t, _, _ := canon(w.text(p.Seed), w.Quoted)
					procs[i].id(t, true)
				}
			}
			for _, n := range p.Before[i] {
				w := p.Names[n]
				procs[i].id(w.text(p.Seed), w.Quoted)
			}
		}
	}, clients, nil)
	for i := range p.Names {
		e.Logf("name %d: %+v", i, p.name(i))
	}
	if !ok {
		return
	}
	if s.bad != "" {
		e.Fail("meaning", "%s", s.bad)
	}
	for _, c := range []counts{cb, cs} {
		for k, n := range c {
			e.Count(k, n)
		}
	}
	e.Count("messages with different numbers", int64(different))
	e.Nontriv = different > 0
}

func (p *OtherPlan) what(m message) string {
	if m.def >= 0 {
		return norm(p.def(m.def))
	}
	return fmt.Sprintf("%+v", p.name(m.name))
}

// damaged data is an error, or means something.
func (p *OtherPlan) damaged(cs counts, pr *process, m message, dm Damage) {
	buf := append([]byte(nil), m.buf...)
	if len(buf) == 0 {
		return
	}
	at := dm.At % len(buf)
	if dm.Cut {
		buf = buf[:at]
	} else {
		buf[at] ^= byte(dm.With)
	}
	var err error
	// Quiet because an earlier run may have had these names.
	sim.Quiet(func() {
		if m.def >= 0 {
			_, _, err = pr.decode(buf)
		} else {
			_, err = pr.decodeName(buf)
		}
	})
	cs["fault damaged data"]++
	if err != nil {
		cs["damaged data refused"]++
	}
}

// stored has the catalog in a store which the processes use one after the
// other; what a process has not committed is lost when it ends.
func (p *OtherPlan) stored(cs counts, s *seen) {
	st, err := proca.NewStore()
	if err != nil {
		s.fail("%v", err)
		return
	}
	cur := 0
	eng, err := procs[cur].newEngine(st, true)
	if err != nil {
		s.fail("init: %v", err)
		return
	}
	var tx wire.EngineTx
	restart := func(to int) bool {
		if tx != nil {
			tx.Rollback() // as it ends
			tx = nil
		}
		cur = to
		eng, err = procs[cur].newEngine(st, false)
		if err != nil {
			s.fail("%s did not open the store: %v", procs[cur].name, err)
		}
		return err == nil
	}

	// What is there by now, and what is committed.
	type state struct {
		things map[string]bool
		tables map[wire.TableName]int
	}
	clone := func(st state) state {
		n := state{map[string]bool{}, map[wire.TableName]int{}}
		for k, v := range st.things {
			n.things[k] = v
		}
		for k, v := range st.tables {
			n.tables[k] = v
		}
		return n
	}
	plain := func(n int) wire.Name { // a name which is not a keyword
		w := p.name(n)
		if w.Text == "" || w.Kw {
			return wire.Name{Text: "plain"}
		}
		return w
	}
	dbOf := func(n wire.Name) string { return fmt.Sprintf("database %q", n.Text) }
	scOf := func(d, n wire.Name) string { return fmt.Sprintf("schema %q %q", d.Text, n.Text) }
	list := func() (map[string]bool, bool) {
		m := map[string]bool{}
		ns, err := eng.Databases()
		if err != nil {
			s.fail("%s: databases: %v", procs[cur].name, err)
			return nil, false
		}
		tx := eng.Begin()
		defer tx.Rollback()
		for _, n := range ns {
			m[dbOf(n)] = true
			scs, err := tx.Schemas(ctx, n)
			if err != nil {
				s.fail("%s: schemas: %v", procs[cur].name, err)
				return nil, false
			}
			for _, sn := range scs {
				m[scOf(n, sn)] = true
			}
		}
		return m, true
	}
	things, ok := list()
	if !ok {
		return
	}
	done := state{things, map[wire.TableName]int{}}
	now := clone(done)
	check := func() bool {
		got, ok := list()
		if !ok {
			return false
		}
		if !reflect.DeepEqual(got, done.things) {
			s.fail("%s found:\n  %v\nwanted:\n  %v", procs[cur].name, keys(got), keys(done.things))
			return false
		}
		tx := eng.Begin()
		defer tx.Rollback()
		for n := range p.Names {
			for d := 0; d < 3; d++ {
				for c := 0; c < 3; c++ {
					tn := wire.TableName{plain(d), plain(c), plain(n)}
					df, tn2, _, err := tx.Table(ctx, tn)
					i, ok := done.tables[tn]
					if !ok {
						if err == nil {
							s.fail("%s found table %v, which is not there", procs[cur].name, tn)
							return false
						}
						continue
					}
					if want := p.created(i); err != nil || norm(df) != norm(want) || tn2 != tn {
						s.fail("%s found table %v:\n  %s, %v\nwanted %v:\n  %s", procs[cur].name, tn2, norm(df), err, tn, norm(want))
						return false
					}
				}
			}
		}
		return true
	}
	for _, sp := range p.Steps {
		var err error
		want := false
		db, sc, tb := plain(sp.DB), plain(sp.SC), plain(sp.TB)
		if sp.Do == "schema" || sp.Do == "table" {
			if tx == nil {
				tx = eng.Begin()
			}
		} else if sp.Do == "database" && tx != nil {
			tx.Rollback()
			tx, now = nil, clone(done)
		}
		switch sp.Do {
		case "database":
			err = eng.CreateDatabase(db)
			want = !done.things[dbOf(db)]
			if want {
				done.things[dbOf(db)] = true
				now = clone(done)
			}
		case "schema":
			err = tx.CreateSchema(ctx, db, sc)
			want = now.things[dbOf(db)] && !now.things[scOf(db, sc)]
			if want {
				now.things[scOf(db, sc)] = true
			}
		case "table":
			tn := wire.TableName{db, sc, tb}
			d := p.def(sp.Def)
			var key []int32
			if d.Key != nil {
				key = d.Key
			}
			_, there := now.tables[tn]
			err = tx.CreateTable(ctx, tn, d.Names, d.Types, key)
			want = now.things[scOf(db, sc)] && !there
			if want {
				now.tables[tn] = sp.Def
			}
		case "commit":
			want = true
			if tx != nil {
				err = tx.Commit(ctx)
				tx = nil
			}
			done = clone(now)
		case "rollback":
			want = true
			if tx != nil {
				err = tx.Rollback()
				tx = nil
			}
			now = clone(done)
		case "restart":
			want = true
			now = clone(done)
			if !restart(1-cur) || !check() {
				return
			}
			cs["fault process restarted"]++
		}
		if (err == nil) != want {
			s.fail("%s: %s %q %q %q: %v, expected success: %t", procs[cur].name, sp.Do, db.Text, sc.Text, tb.Text, err, want)
			return
		}
		if err != nil && tx != nil {
			// As a session does.
			tx.Rollback()
			tx, now = nil, clone(done)
		}
	}
	cs["tables stored"] += int64(len(done.tables))
	for i := 0; i < 2; i++ {
		if !restart(1-cur) || !check() {
			return
		}
	}
}

func keys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func shrinkOther(cp core.Plan, emit func(core.Plan)) {
	p := cp.(*OtherPlan)
	clone := func() *OtherPlan { return core.Clone(p.Prop, p) }
	if len(p.Steps) > 0 {
		q := clone()
		q.Steps = nil
		emit(q)
	}
	for i := range p.Steps {
		q := clone()
		q.Steps = append(q.Steps[:i], q.Steps[i+1:]...)
		emit(q)
	}
	for i := range p.Damage {
		q := clone()
		q.Damage = append(q.Damage[:i], q.Damage[i+1:]...)
		emit(q)
	}
	for i := range p.Before {
		for j := range p.Before[i] {
			q := clone()
			q.Before[i] = append(q.Before[i][:j], q.Before[i][j+1:]...)
			emit(q)
		}
		for j := range p.While[i] {
			q := clone()
			q.While[i] = append(q.While[i][:j], q.While[i][j+1:]...)
			emit(q)
		}
	}
	for i := range p.Defs {
		if len(p.Defs) > 1 {
			q := clone()
			q.Defs = append(q.Defs[:i], q.Defs[i+1:]...)
			emit(q)
		}
		for j := range p.Defs[i].Names {
			q := clone()
			d := &q.Defs[i]
			d.Names = append(d.Names[:j], d.Names[j+1:]...)
			d.Types = append(d.Types[:j], d.Types[j+1:]...)
			emit(q)
		}
		for j := range p.Defs[i].Indexes {
			q := clone()
			d := &q.Defs[i]
			d.Indexes = append(d.Indexes[:j], d.Indexes[j+1:]...)
			emit(q)
		}
		if p.Defs[i].Key != nil {
			q := clone()
			q.Defs[i].Key = nil
			emit(q)
		}
	}
	if n := len(p.Names) - 1; n > 0 {
		q := clone()
		q.Names = q.Names[:n]
		drop := func(ns []int) []int {
			var o []int
			for _, k := range ns {
				if k < n {
					o = append(o, k)
				}
			}
			return o
		}
		for i := range q.Before {
			q.Before[i] = drop(q.Before[i])
			q.While[i] = drop(q.While[i])
		}
		emit(q)
	}
}

func init() {
	// The numbers which gob gives to types should not depend on earlier runs.
	for i := range procs {
		d := wire.Def{Names: []wire.Name{{Text: "c"}}, Types: []wire.ColType{{}}, Key: []int32{1},
			Indexes: []wire.Index{{Name: wire.Name{Text: "c"}, Key: []int32{1}}}}
		buf, _, err := procs[i].encode(d)
		if err == nil {
			procs[i].decode(buf)
		}
	}
	core.Register(&core.Check{
		ID:    "C27",
		Rule:  "two processes, each with its own copy of the whole program and its own history of identifiers: one encodes names and definitions of tables, the other decodes them, encodes them again, and the first decodes those, as other clients create identifiers in both; damaged data; and a catalog in a store which the processes use in turn, with restarts between any two steps; non-trivial: an identifier had different numbers in the two",
		Real:  []string{"types (identifiers), twice", "engine (TableType, catalog), twice", "storage/basic"},
		Stub:  []string{"scheduler and locks (simsync)", "the store as another process sees it (values and names are copied)"},
		Quick: 30000,
		New:   func() core.Plan { return &OtherPlan{} }, Gen: genOther,
		Run: func(cp core.Plan, e *core.Env) { cp.(*OtherPlan).run(e) }, Shrink: shrinkOther,
	})
}
