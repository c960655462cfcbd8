// Package core runs simulations: it generates plans from seeds, executes them
// in worker processes, minimises and replays violations, and writes evidence.
package core

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"strings"

	"verifsim/sim"
	"verifsim/simsync"
)

// Common is the part of a plan that every check has.
type Common struct {
	Prop  string   `json:"prop"`
	Index int64    `json:"index"`
	Seed  uint64   `json:"seed"` // of names which must not have been used before in the process
	Sched sim.Spec `json:"sched"`
	Max   uint64   `json:"max,omitempty"` // step limit
}

func (c *Common) C() *Common { return c }

// Plan is one simulated run: workload, faults, and schedule; it is JSON.
type Plan interface{ C() *Common }

type Check struct {
	ID         string
	Rule       string
	Real, Stub []string // components
	New        func() Plan
	Gen        func(r *sim.Rand, big bool) Plan
	Run        func(p Plan, e *Env)
	Shrink     func(p Plan, emit func(Plan))
	Quick      int64 // runs
	Thorough   int64
	Aside      uint64 // limit of the statements while preparing and judging
	NoVary     bool   // do not try other schedules while minimising
	Findings   map[string]func() (bool, string)
	Assume     []string
}

var Checks = map[string]*Check{}

func Register(c *Check) {
	if c.Aside == 0 {
		c.Aside = 100000000
	}
	Checks[c.ID] = c
}

type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Env collects what a run did.
type Env struct {
	Stats    map[string]int64
	Viol     *Violation
	Hash     uint64
	Inter    uint64 // identifies the interleaving
	Steps    uint64
	Preempts int
	Blocks   int
	Tasks    int
	Nontriv  bool
	Verbose  bool
	Lines    []string
	sim      *sim.Sim
	killed   bool
	outer    *sim.Sim           // the run is one of several in this simulation
	ready    *simsync.WaitGroup // for the setup of the others
}

func (e *Env) Count(name string, n int64) {
	if n != 0 {
		e.Stats[name] += n
	}
}

func (e *Env) Fail(class, format string, args ...any) {
	if e.Viol == nil {
		msg := fmt.Sprintf(format, args...)
		if len(msg) > 6000 {
			msg = msg[:3000] + " ... " + msg[len(msg)-3000:]
		}
		e.Viol = &Violation{Class: class, Msg: msg}
	}
}

func (e *Env) Logf(format string, args ...any) {
	if e.Verbose {
		e.Lines = append(e.Lines, fmt.Sprintf(format, args...))
	}
}

func (e *Env) Mix(s string) { e.Hash = sim.HashString(e.Hash, s) }

// Sim makes the simulator of a run.
func (e *Env) Sim(p Plan) *sim.Sim {
	c := p.C()
	max := c.Max
	if max == 0 {
		max = 2000000
	}
	return sim.New(c.Sched, max)
}

// Finish runs the simulator; it returns true if all of the tasks finished.
func (e *Env) Finish(s *sim.Sim) bool {
	out := s.Run()
	e.Steps += s.Steps()
	e.Preempts += s.Preempts()
	e.Blocks += s.Blocks()
	e.sim = s
	e.Inter = sim.Hash(e.Inter, s.Hash())
	e.Hash = sim.Hash(e.Hash, s.Hash())
	if out.Kind != "ok" {
		e.killed = true
		e.Fail(out.Kind, "%s: %s", out.Kind, trim(out.Detail))
		return false
	}
	return true
}

func trim(s string) string {
	ls := strings.Split(s, "\n")
	if len(ls) > 60 {
		ls = ls[:60]
	}
	return strings.Join(ls, "\n")
}

// Execute a plan; a panic of the program outside of the simulator is a
// violation as one inside is.
func Execute(ck *Check, p Plan, verbose bool) *Env {
	e := &Env{Stats: map[string]int64{}, Verbose: verbose}
	races := sim.RaceErrors()
	sim.Aside(ck.Aside)
	func() {
		defer func() {
			if r := recover(); r != nil {
				e.Fail("panic", "panic: %v\n%s", r, trim(string(debug.Stack())))
			}
		}()
		ck.Run(p, e)
	}()
	if n := int64(sim.Aside(^uint64(0))); n > e.Stats["most statements aside"] {
		e.Stats["most statements aside"] = n
	}
	// Tasks which are killed do not synchronize any more.
	if n := sim.RaceErrors() - races; n > 0 && !e.killed {
		e.Viol = nil
		e.Fail("race", "%d data races:\n%s", n, raceReport())
	}
	if e.Viol != nil {
		e.Hash = sim.HashString(e.Hash, e.Viol.Class)
	}
	return e
}

// PlanSeed is the seed of one run.
func PlanSeed(base uint64, prop string, index int64) uint64 {
	return sim.Hash(sim.HashString(14695981039346656037, prop), base, uint64(index))
}

// MakePlan is a pure function of the seed.
func MakePlan(ck *Check, base uint64, index int64, big bool) Plan {
	seed := PlanSeed(base, ck.ID, index)
	p := ck.Gen(sim.NewRand(seed), big)
	c := p.C()
	c.Prop = ck.ID
	c.Index = index
	c.Seed = seed
	return p
}

func Decode(buf []byte) (*Check, Plan, error) {
	var c Common
	if err := json.Unmarshal(buf, &c); err != nil {
		return nil, nil, err
	}
	ck := Checks[c.Prop]
	if ck == nil {
		return nil, nil, fmt.Errorf("unknown property: %q", c.Prop)
	}
	p := ck.New()
	if err := json.Unmarshal(buf, p); err != nil {
		return nil, nil, err
	}
	return ck, p, nil
}

// Clone a plan by way of JSON.
func Clone[P Plan](ck string, p P) P {
	buf, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	np := Checks[ck].New().(P)
	if err := json.Unmarshal(buf, np); err != nil {
		panic(err)
	}
	return np
}

// GenSched chooses how a run is scheduled: swarm style, every run differs.
// span is about the number of steps of the run.
func GenSched(r *sim.Rand, tasks, span int) sim.Spec {
	sp := sim.Spec{Seed: r.Uint64()}
	switch r.Intn(10) {
	case 0, 1, 2, 3, 4, 5:
		sp.Policy = "random"
		sp.Gap = sim.Pick(r, 2, 5, 12, 30, 80, 200, 1000)
		sp.Sync = sim.Pick(r, 0, 10, 30, 60, 90)
	case 6, 7, 8:
		sp.Policy = "pct"
		sp.Depth = r.Range(1, 6)
		sp.Span = span
	case 9:
		sp.Policy = "random"
		sp.Gap = sim.Pick(r, 5000, 100000)
		sp.Sync = sim.Pick(r, 20, 50)
	}
	if tasks > 1 && r.Chance(1, 4) {
		sp.Slow = []int{r.Intn(tasks)}
	}
	return sp
}

// Decisions of the scheduler; only until the next run starts.
func (e *Env) Decisions() []sim.Decision {
	if e.sim == nil || e.sim.Overflow() {
		return nil
	}
	return e.sim.Decisions()
}

// Client is a task of a run.
type Client struct {
	Name string
	Fn   func()
}

// RunTasks runs setup, then the clients concurrently, and then final, all of
// them under the scheduler; it returns true if they finished.
func (e *Env) RunTasks(p Plan, setup func(), clients []Client, final func()) bool {
	e.Tasks = len(clients)
	if e.outer != nil {
		if setup != nil {
			setup()
		}
		e.ready.Done()
		e.ready.Wait()
		e.ready = nil
		sim.Loud(func() { e.tasks(e.outer, nil, clients, final) })
		return true
	}
	s := e.Sim(p)
	s.Go("main", func() { e.tasks(s, setup, clients, final) })
	return e.Finish(s)
}

func (e *Env) tasks(s *sim.Sim, setup func(), clients []Client, final func()) {
	if setup != nil {
		sim.Quiet(setup)
	}
	var wg simsync.WaitGroup
	wg.Add(len(clients))
	for _, c := range clients {
		fn := c.Fn
		s.Go(c.Name, func() {
			fn()
			wg.Done()
		})
	}
	wg.Wait()
	if final != nil {
		final()
	}
}

// Together executes runs of checks at the same time in one simulation; it
// returns what each of them did, and whether they finished.
func (e *Env) Together(p Plan, cks []*Check, ps []Plan) ([]*Env, bool) {
	s := e.Sim(p)
	var es []*Env
	ready := &simsync.WaitGroup{}
	ready.Add(len(ps))
	for range ps {
		es = append(es, &Env{Stats: map[string]int64{}, Verbose: e.Verbose, outer: s, ready: ready})
	}
	for i := range ps {
		ck, p, se := cks[i], ps[i], es[i]
		s.Go(fmt.Sprintf("run%d", i), func() {
			sim.Quiet(func() { ck.Run(p, se) })
			if se.ready != nil {
				ready.Done()
			}
		})
	}
	return es, e.Finish(s)
}
