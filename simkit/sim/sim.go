// Package sim is a deterministic scheduler for the goroutines of a program.
//
// Every task is a goroutine, but only the one that the scheduler chose runs;
// the others are parked. Instrumented code calls Y before every statement, and
// the replacements of the packages sync and sync/atomic call Point, Block, and
// Wake; at each of these the scheduler may hand the processor to another task.
// Which task runs, and when, is decided by a seeded pseudo-random generator or
// by an explicit list of decisions, so that an execution can be repeated
// exactly.
//
// The functions which run while another task may be parked in the middle of a
// statement are not instrumented by the race detector (go:norace), and neither
// use maps nor grow slices, so that the hand over from task to task is not
// seen as synchronization of the program under test.
package sim

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"unsafe"
)

const (
	maxDecisions = 1 << 15
)

// Spec says how the tasks are scheduled.
type Spec struct {
	Seed     uint64     `json:"seed"`
	Policy   string     `json:"policy"`          // random, pct, seq, explicit
	Gap      int        `json:"gap,omitempty"`   // random: mean number of steps between preemptions
	Sync     int        `json:"sync,omitempty"`  // percent chance of a preemption at a synchronization
	Depth    int        `json:"depth,omitempty"` // pct: number of priority changes
	Span     int        `json:"span,omitempty"`  // pct: steps in which the changes are
	Slow     []int      `json:"slow,omitempty"`  // tasks which are rarely chosen
	Explicit []Decision `json:"explicit,omitempty"`
}

// Decision is a switch to another task at a step.
type Decision struct {
	Step uint64 `json:"s"`
	To   int    `json:"t"`
}

type state uint8

const (
	runnable state = iota
	blocked
	finished
)

type task struct {
	id    int
	name  string
	wake  chan struct{}
	state state
	wait  any // what it is blocked on
	prio  uint64
	slow  bool
	fn    func()
	why   string
	quiet int // > 0: no preemption (harness code is running)

	// Started by the program: the run does not wait for it if it is blocked.
	daemon bool
}

// Outcome of a run.
type Outcome struct {
	Kind   string // ok, deadlock, panic, steps, fatal
	Detail string
}

type Sim struct {
	rng    *Rand
	env    *Rand // of Choose
	spec   Spec
	live   []*task // those which are not finished
	nlive  int
	ntasks int // started so far
	cur    *task
	step   uint64
	next   uint64 // step at which to preempt
	max    uint64
	change [16]uint64
	nchg   int
	lowest uint64

	dec      []Decision // taken
	ndec     int
	edx      int // next explicit decision
	ihash    uint64
	preempts int
	blocks   int

	killing bool
	drain   bool // only daemons are left
	done    chan struct{}
	out     Outcome
	epoch   uint64
	seq     uint64
	endSem  *int64 // orders the end of every task before the return from Run
}

var (
	cur   *Sim // the running simulation
	decs  [maxDecisions]Decision
	epoch uint64
	beat  atomic.Uint64
)

// Beat counts scheduling events; a watchdog outside of the simulation uses it
// to tell a stuck process.
func Beat() uint64 { return beat.Load() }

func New(spec Spec, maxSteps uint64) *Sim {
	epoch++
	s := &Sim{
		rng:    NewRand(spec.Seed ^ 0x5eed5eed5eed5eed),
		env:    NewRand(spec.Seed ^ 0x0e0e0e0e0e0e0e0e),
		spec:   spec,
		max:    maxSteps,
		dec:    decs[:],
		done:   make(chan struct{}),
		epoch:  epoch,
		ihash:  14695981039346656037,
		out:    Outcome{Kind: "ok"},
		lowest: 1 << 20,
		endSem: new(int64),
	}
	s.plan()
	if spec.Policy == "pct" {
		s.nchg = spec.Depth
		if s.nchg > len(s.change) {
			s.nchg = len(s.change)
		}
		for i := 0; i < s.nchg; i++ {
			s.change[i] = 1 + uint64(s.rng.Intn(spec.Span+1))
		}
	}
	return s
}

//go:norace
func (s *Sim) plan() {
	switch s.spec.Policy {
	case "random":
		// Uniform over 1..2*Gap-1: mean of Gap.
		s.next = s.step + 1 + uint64(s.rng.Intn(2*s.spec.Gap))
	case "explicit":
		if s.edx < len(s.spec.Explicit) {
			s.next = s.spec.Explicit[s.edx].Step
		} else {
			s.next = ^uint64(0)
		}
	case "pct":
		s.next = ^uint64(0)
		for i := 0; i < s.nchg; i++ {
			if s.change[i] > s.step && s.change[i] < s.next {
				s.next = s.change[i]
			}
		}
	default:
		s.next = ^uint64(0)
	}
	if s.next > s.max {
		s.next = s.max
	}
}

// Go adds a task; before Run, or from a running task.
//
//go:norace
func (s *Sim) Go(name string, fn func()) int {
	return s.newTask(name, fn).id
}

//go:norace
func (s *Sim) newTask(name string, fn func()) *task {
	t := &task{id: s.ntasks, name: name, wake: make(chan struct{}, 1), fn: fn}
	t.prio = 1<<40 + s.rng.Uint64()>>30
	for i := 0; i < len(s.spec.Slow); i++ {
		if s.spec.Slow[i] == t.id {
			t.slow = true
		}
	}
	s.ntasks++
	if s.nlive == len(s.live) {
		more := make([]*task, 2*s.nlive+16)
		for i := 0; i < s.nlive; i++ {
			more[i] = s.live[i]
		}
		s.live = more
	}
	s.live[s.nlive] = t
	s.nlive++
	go s.main(t)
	return t
}

// forget a finished task.
//
//go:norace
func (s *Sim) forget(t *task) {
	n := 0
	for i := 0; i < s.nlive; i++ {
		if s.live[i] != t {
			s.live[n] = s.live[i]
			n++
		}
	}
	if n < s.nlive {
		s.live[n] = nil
	}
	s.nlive = n
}

func (s *Sim) main(t *task) {
	raceDisable()
	<-t.wake
	raceEnable()
	normal := false
	defer func() {
		RaceReleaseMrg(unsafe.Pointer(s.endSem))
		if !normal && !s.isKilling() {
			if r := recover(); r != nil {
				s.fail(Outcome{Kind: "panic",
					Detail: fmt.Sprintf("task %s: panic: %v\n%s", t.name, r, debug.Stack())})
			} else {
				s.fail(Outcome{Kind: "panic", Detail: fmt.Sprintf("task %s: exited", t.name)})
			}
		}
		s.finish(t)
	}()
	if !s.isKilling() {
		t.fn()
	}
	normal = true
}

//go:norace
func (s *Sim) isKilling() bool { return s.killing }

//go:norace
func (s *Sim) fail(o Outcome) {
	if s.out.Kind == "ok" {
		s.out = o
	}
	s.killing = true
}

// Fail ends the run with an outcome; it does not return.
func Fail(kind, detail string) {
	s := Cur()
	s.fail(Outcome{Kind: kind, Detail: detail})
	runtime.Goexit()
}

// Run the tasks until all of them are finished.
func (s *Sim) Run() Outcome {
	s.start()
	<-s.done
	RaceAcquire(unsafe.Pointer(s.endSem))
	cur = nil
	outer.s = 1
	return s.out
}

//go:norace
func (s *Sim) start() {
	cur = s
	t := s.choose(nil)
	if t == nil {
		close(s.done)
		return
	}
	s.record(t)
	s.cur = t
	raceDisable()
	t.wake <- struct{}{}
	raceEnable()
}

//go:norace
func (s *Sim) record(t *task) {
	beat.Add(1)
	if s.ndec < maxDecisions {
		s.dec[s.ndec] = Decision{s.step, t.id}
		s.ndec++
	}
}

// choose one of the runnable tasks, other than not if possible.
//
//go:norace
func (s *Sim) choose(not *task) *task {
	if s.spec.Policy == "explicit" {
		for s.edx < len(s.spec.Explicit) && s.spec.Explicit[s.edx].Step < s.step {
			s.edx++
		}
		if s.edx < len(s.spec.Explicit) && s.spec.Explicit[s.edx].Step == s.step {
			to := s.spec.Explicit[s.edx].To
			s.edx++
			for i := 0; i < s.nlive; i++ {
				if s.live[i].id == to && s.live[i].state == runnable {
					return s.live[i]
				}
			}
		}
		if not != nil {
			return not
		}
	}
	var best *task
	n := 0
	fast := 0
	for i := 0; i < s.nlive; i++ {
		t := s.live[i]
		if t.state == runnable && t != not {
			n++
			if !t.slow {
				fast++
			}
		}
	}
	if n == 0 {
		if not != nil && not.state == runnable {
			return not
		}
		return nil
	}
	switch s.spec.Policy {
	case "random":
		useFast := fast > 0 && fast < n && s.rng.Intn(40) != 0
		k := n
		if useFast {
			k = fast
		}
		k = s.rng.Intn(k)
		for i := 0; i < s.nlive; i++ {
			t := s.live[i]
			if t.state == runnable && t != not && (!useFast || !t.slow) {
				if k == 0 {
					return t
				}
				k--
			}
		}
	case "pct":
		for i := 0; i < s.nlive; i++ {
			t := s.live[i]
			if t.state == runnable && (best == nil || t.prio > best.prio) {
				best = t
			}
		}
		return best
	}
	for i := 0; i < s.nlive; i++ {
		t := s.live[i]
		if t.state == runnable && t != not {
			return t
		}
	}
	return nil
}

//go:norace
func (s *Sim) hand(from, to *task) {
	s.ihash = Hash(s.ihash, s.step, uint64(to.id))
	s.cur = to
	raceDisable()
	to.wake <- struct{}{}
	<-from.wake
	raceEnable()
	if s.killing {
		runtime.Goexit()
	}
}

//go:norace
func (s *Sim) finish(t *task) {
	t.state = finished
	s.step++
	s.forget(t)
	if s.killing {
		// Wake the others, one by one: they exit.
		for i := 0; i < s.nlive; i++ {
			if s.live[i].state != finished {
				s.cur = s.live[i]
				raceDisable()
				s.live[i].wake <- struct{}{}
				raceEnable()
				return
			}
		}
		s.finished()
		return
	}
	if !s.drain && s.onlyDaemons() {
		s.drain = true
		if s.max > s.step+maxDrain {
			s.max = s.step + maxDrain
		}
	}
	to := s.choose(nil)
	if to == nil {
		if !s.onlyDaemons() {
			s.fail(Outcome{Kind: "deadlock", Detail: s.describe()})
		} else {
			s.killing = true
		}
		s.finish(t)
		return
	}
	s.plan()
	s.record(to)
	s.ihash = Hash(s.ihash, s.step, uint64(to.id))
	s.cur = to
	raceDisable()
	to.wake <- struct{}{}
	raceEnable()
}

// onlyDaemons is whether all of the others are finished.
//
//go:norace
func (s *Sim) onlyDaemons() bool {
	for i := 0; i < s.nlive; i++ {
		if !s.live[i].daemon && s.live[i].state != finished {
			return false
		}
	}
	return true
}

// maxDrain is the number of steps for which daemons go on after the others.
const maxDrain = 1 << 14

// finished tells Run; the synchronization is visible to the race detector.
func (s *Sim) finished() { close(s.done) }

func (s *Sim) describe() string {
	d := ""
	for i := 0; i < s.nlive; i++ {
		t := s.live[i]
		switch t.state {
		case blocked:
			d += fmt.Sprintf("%s blocked: %s; ", t.name, t.why)
		case runnable:
			d += fmt.Sprintf("%s runnable; ", t.name)
		}
	}
	return d
}

// Y is called before every statement of the program under test.
//
//go:norace
func Y() {
	s := cur
	if s == nil || s.cur.quiet > 0 {
		if aside++; aside > maxAside {
			tooLong(s)
		}
		return
	}
	if s.killing {
		return
	}
	s.step++
	if s.step < s.next {
		return
	}
	s.preempt()
}

// aside counts statements which are not steps of the run: the program is also
// used to prepare runs and to judge them.
var aside uint64

var maxAside = ^uint64(0)

// Aside starts to count again, up to a limit, and returns what was counted.
//
//go:norace
func Aside(max uint64) uint64 {
	n := aside
	aside = 0
	maxAside = max
	return n
}

//go:norace
func tooLong(s *Sim) {
	aside = 0
	if s == nil {
		// Not an error: programs recover from those.
		panic("the program does not end, with all of its input at hand")
	}
	if !s.killing {
		s.fail(Outcome{Kind: "hang", Detail: "the program does not end, with all of its input at hand"})
	}
	runtime.Goexit()
}

// Point is called at every synchronization operation.
//
//go:norace
func Point() {
	s := cur
	if s == nil || s.killing || s.cur.quiet > 0 {
		return
	}
	s.step++
	if s.step >= s.next {
		s.preempt()
		return
	}
	switch s.spec.Policy {
	case "random":
		if s.spec.Sync > 0 && s.rng.Intn(100) < s.spec.Sync {
			s.preempt()
		}
	case "pct":
		t := s.choose(nil)
		if t != s.cur && t != nil {
			s.preempt()
		}
	}
}

//go:norace
func (s *Sim) preempt() {
	if s.step >= s.max && s.drain {
		s.killing = true
		runtime.Goexit()
	}
	if s.step >= s.max {
		s.fail(Outcome{Kind: "steps", Detail: "step limit reached; running: " + s.cur.name})
		runtime.Goexit()
	}
	me := s.cur
	if s.spec.Policy == "pct" {
		for i := 0; i < s.nchg; i++ {
			if s.change[i] == s.step {
				s.lowest--
				me.prio = s.lowest
			}
		}
	}
	to := s.choose(me)
	s.plan()
	if to == nil || to == me {
		return
	}
	s.preempts++
	s.record(to)
	s.hand(me, to)
}

// Block the running task until Wake is called with obj.
//
//go:norace
func Block(obj any, why string) {
	s := cur
	if s.killing {
		runtime.Goexit()
	}
	me := s.cur
	me.state = blocked
	me.wait = obj
	me.why = why
	s.step++
	s.blocks++
	to := s.choose(nil)
	if to == nil && s.drain {
		s.killing = true
		runtime.Goexit()
	}
	if to == nil {
		s.fail(Outcome{Kind: "deadlock", Detail: s.describe()})
		runtime.Goexit()
	}
	s.plan()
	s.record(to)
	s.hand(me, to)
}

// Wake the tasks blocked on obj.
//
//go:norace
func Wake(obj any) {
	s := cur
	if s == nil {
		return
	}
	for i := 0; i < s.nlive; i++ {
		t := s.live[i]
		if t.state == blocked && t.wait == obj {
			t.state = runnable
			t.wait = nil
		}
	}
}

// Active is true if called by a task of a running simulation.
//
//go:norace
func Active() bool { return cur != nil && !cur.killing }

// Killing is true while a run which has failed is torn down.
//
//go:norace
func Killing() bool { return cur != nil && cur.killing }

// Epoch identifies the simulation; state of an earlier one is ignored.
//
//go:norace
func Epoch() uint64 {
	if cur == nil {
		return 0
	}
	return cur.epoch
}

//go:norace
func Cur() *Sim { return cur }

// TaskID of the running task; -1 if there is none.
//
//go:norace
func TaskID() int {
	if cur == nil || cur.cur == nil {
		return -1
	}
	return cur.cur.id
}

// Quiet runs harness code without preemption and without counting steps.
//
//go:norace
func Quiet(fn func()) {
	s := cur
	if s == nil {
		fn()
		return
	}
	t := s.cur
	t.quiet++
	defer unquiet(t)
	fn()
}

//go:norace
func unquiet(t *task) { t.quiet-- }

// Loud runs fn as if Quiet had not been called.
//
//go:norace
func Loud(fn func()) {
	s := cur
	if s == nil {
		fn()
		return
	}
	t := s.cur
	n := t.quiet
	t.quiet = 0
	defer requiet(t, n)
	fn()
}

//go:norace
func requiet(t *task, n int) { t.quiet = n }

// Seq returns the next number of the global event order.
//
//go:norace
func Seq() int64 {
	s := cur
	if s == nil {
		return 0
	}
	s.seq++
	return int64(s.seq)
}

//go:norace
func (t *task) setDaemon() { t.daemon = true }

// Choose one of n; apart from the scheduler's choices, and the same if those
// are given.
//
//go:norace
func Choose(n int) int {
	switch {
	case n < 2:
		return 0
	case cur == nil:
		return outer.Intn(n)
	}
	return cur.env.Intn(n)
}

// outer is for what prepares and judges runs; from the start for each of them.
var outer = NewRand(1)

// GoTask starts a task from the program under test (a go statement).
func GoTask(fn func()) {
	if s := Cur(); s != nil {
		s.newTask("go", fn).setDaemon()
		Point()
		return
	}
	go fn()
}

func (s *Sim) Steps() uint64         { return s.step }
func (s *Sim) Hash() uint64          { return Hash(s.ihash, s.step) }
func (s *Sim) Preempts() int         { return s.preempts }
func (s *Sim) Blocks() int           { return s.blocks }
func (s *Sim) Decisions() []Decision { return append([]Decision(nil), s.dec[:s.ndec]...) }
func (s *Sim) Overflow() bool        { return s.ndec == maxDecisions }

// AddBeat tells the watchdog that there is progress.
func AddBeat() { beat.Add(1) }
