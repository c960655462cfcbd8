// Package simenv stands for what the instrumented program uses of its
// environment otherwise: channels, the order of maps, and the clock. All of
// them are decided by the simulator.
//
// A buffer is that of the channel itself, which is only used without waiting;
// those who wait, and what they wait with, are kept here.
package simenv

import (
	"reflect"
	"runtime"
	"unsafe"

	"verifsim/sim"
)

// waits are the tasks which wait for a channel.
type waits struct {
	key   unsafe.Pointer
	next  *waits
	recvq queue
	sendq queue
}

// op is what a task waits for: one of its cases.
type op struct {
	fired  int
	val    any
	ok     bool
	closed bool
}

type waiter struct {
	op   *op
	idx  int
	val  any
	next *waiter
}

type queue struct{ first, last *waiter }

//go:norace
func (q *queue) add(w *waiter) {
	if q.first == nil {
		q.first = w
	} else {
		q.last.next = w
	}
	q.last = w
}

// skip those which do not wait any longer; their task went on with another of
// its cases.
//
//go:norace
func (q *queue) skip() {
	for q.first != nil && q.first.op.fired >= 0 {
		q.first = q.first.next
	}
}

//go:norace
func (q *queue) take() *waiter {
	q.skip()
	w := q.first
	if w != nil {
		q.first = w.next
	}
	return w
}

var (
	waiting *waits
	epoch   uint64
)

//go:norace
func lookup(p unsafe.Pointer) *waits {
	if e := sim.Epoch(); e != epoch {
		epoch = e
		waiting = nil
	}
	if p == nil {
		return nil
	}
	for q := &waiting; *q != nil; {
		w := *q
		w.recvq.skip()
		w.sendq.skip()
		if w.recvq.first == nil && w.sendq.first == nil {
			*q = w.next
			continue
		}
		if w.key == p {
			return w
		}
		q = &w.next
	}
	return nil
}

//go:norace
func create(p unsafe.Pointer) *waits {
	w := lookup(p)
	if w == nil {
		w = &waits{key: p, next: waiting}
		waiting = w
	}
	return w
}

//go:norace
func (o *op) sync() {
	sim.RaceAcquire(unsafe.Pointer(o))
	sim.RaceReleaseMrg(unsafe.Pointer(o))
}

//go:norace
func (w *waiter) fire(v any, ok, closed bool) {
	w.op.sync()
	w.op.val, w.op.ok, w.op.closed = v, ok, closed
	w.op.fired = w.idx
	sim.Wake(w.op)
}

//go:norace
func (ws *waits) receiver() *waiter {
	if ws == nil {
		return nil
	}
	return ws.recvq.take()
}

//go:norace
func (ws *waits) sender() *waiter {
	if ws == nil {
		return nil
	}
	return ws.sendq.take()
}

//go:norace
func (w *waiter) value() any { return w.val }

func name(ch any) unsafe.Pointer { return reflect.ValueOf(ch).UnsafePointer() }

func as[T any](v any) T {
	var t T
	if v != nil {
		t = v.(T)
	}
	return t
}

// Case of a select.
type Case interface {
	try() bool
	enlist(o *op, idx int)
	done(o *op)
}

type RecvCase[T any] struct {
	ch  <-chan T
	Val T
	Ok  bool
}

type SendCase[T any] struct {
	ch chan<- T
	v  T
}

func OnRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }
func OnSend[T any](ch chan<- T) *SendCase[T] { return &SendCase[T]{ch: ch} }

// With is what is sent.
func (sc *SendCase[T]) With(v T) *SendCase[T] {
	sc.v = v
	return sc
}

// Do waits for the send.
func (sc *SendCase[T]) Do() { Select(false, sc) }

func (rc *RecvCase[T]) try() bool {
	ws := lookup(name(rc.ch))
	select {
	case rc.Val, rc.Ok = <-rc.ch:
		if rc.Ok {
			// There is a place for the first which waits with another.
			if w := ws.sender(); w != nil {
				put(rc.ch, as[T](w.value()))
				w.fire(nil, true, false)
			}
		}
		return true
	default:
	}
	if w := ws.sender(); w != nil {
		rc.Val, rc.Ok = as[T](w.value()), true
		w.fire(nil, true, false)
		return true
	}
	return false
}

// put into the buffer of a channel of which only the other direction is known.
func put[T any](ch <-chan T, v T) {
	bi := *(*chan T)(unsafe.Pointer(&ch))
	select {
	case bi <- v:
	default:
		panic("simenv: no place in a channel")
	}
}

func (sc *SendCase[T]) try() bool {
	if w := lookup(name(sc.ch)).receiver(); w != nil {
		w.fire(sc.v, true, false)
		return true
	}
	select {
	case sc.ch <- sc.v:
		return true
	default:
		return false
	}
}

func (rc *RecvCase[T]) enlist(o *op, idx int) { enlist(name(rc.ch), o, idx, nil, false) }
func (sc *SendCase[T]) enlist(o *op, idx int) { enlist(name(sc.ch), o, idx, sc.v, true) }

//go:norace
func enlist(p unsafe.Pointer, o *op, idx int, v any, send bool) {
	if p == nil {
		return
	}
	q := &create(p).recvq
	if send {
		q = &create(p).sendq
	}
	q.add(&waiter{op: o, idx: idx, val: v})
}

func (rc *RecvCase[T]) done(o *op) {
	v, ok, _ := result(o)
	rc.Val, rc.Ok = as[T](v), ok
}

func (sc *SendCase[T]) done(o *op) {
	if _, _, closed := result(o); closed {
		sc.ch <- sc.v // panics
	}
}

//go:norace
func result(o *op) (any, bool, bool) {
	o.sync()
	return o.val, o.ok, o.closed
}

//go:norace
func newOp() *op {
	o := &op{fired: -1}
	o.sync()
	return o
}

//go:norace
func await(o *op) int {
	for o.fired < 0 {
		if !sim.Active() {
			panic("simenv: deadlock: blocked on a channel outside of a simulation")
		}
		sim.Block(o, "waiting for a channel")
	}
	return o.fired
}

// Select returns the index of the case which was done; -1 is the default.
func Select(def bool, cases ...Case) int {
	if sim.Killing() {
		runtime.Goexit()
	}
	sim.Point()
	if n := len(cases); n > 0 {
		k := sim.Choose(n)
		for i := range cases {
			if idx := (i + k) % n; cases[idx].try() {
				sim.Point()
				return idx
			}
		}
	}
	if def {
		return -1
	}
	o := newOp()
	for idx, c := range cases {
		c.enlist(o, idx)
	}
	idx := await(o)
	cases[idx].done(o)
	return idx
}

func Recv[T any](ch <-chan T) T {
	rc := OnRecv(ch)
	Select(false, rc)
	return rc.Val
}

func Recv2[T any](ch <-chan T) (T, bool) {
	rc := OnRecv(ch)
	Select(false, rc)
	return rc.Val, rc.Ok
}

func Close[T any](ch chan<- T) {
	if sim.Killing() {
		return
	}
	sim.Point()
	ws := lookup(name(ch))
	close(ch)
	for w := ws.receiver(); w != nil; w = ws.receiver() {
		w.fire(nil, false, true)
	}
	for w := ws.sender(); w != nil; w = ws.sender() {
		w.fire(nil, false, true)
	}
	sim.Point()
}

// ChanRange is the range over a channel.
type ChanRange[T any] struct{ ch <-chan T }

func RangeChan[T any](ch <-chan T) (ChanRange[T], T) {
	var t T
	return ChanRange[T]{ch}, t
}

func (r ChanRange[T]) Next(v *T) bool {
	t, ok := Recv2(r.ch)
	if ok && v != nil {
		*v = t
	}
	return ok
}
