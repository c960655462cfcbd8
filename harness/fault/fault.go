// Package fault wraps a store: the calls of one task may be made to fail, and
// what every task leaves open is known.
package fault

import (
	"context"
	"errors"
	"fmt"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
	"verifsim/sim"
)

// F is a fault of the Nth storage call (from 1) of an operation.
type F struct {
	N      int  `json:"n"`
	After  bool `json:"after,omitempty"`  // takes effect, and then is reported as failed
	Sticky bool `json:"sticky,omitempty"` // all of the following calls fail as well
}

var Err = errors.New("simulated storage failure")

// Task is what the wrapper knows about one task; only the task uses it.
type Task struct {
	f         *F
	calls     int
	Fired     int
	Must      int    // of those, which may not be ignored
	Writes    int    // of those, which change the store
	First     string // call which failed first
	Rows      int    // open rows
	Txs       int    // open transactions
	Begun     int
	Completed int
	Kinds     [16]int64
	Calls     int64
}

const maxTasks = 64

type Store struct {
	Inner storage.Store
	tasks [maxTasks]Task
}

func New(inner storage.Store) *Store { return &Store{Inner: inner} }

func (st *Store) Task() *Task {
	id := sim.TaskID()
	if id < 0 {
		id = maxTasks - 1
	}
	return &st.tasks[id%maxTasks]
}

// Arm the calling task: the faults of its next operation.
func (st *Store) Arm(f *F) *Task {
	t := st.Task()
	t.f = f
	t.calls = 0
	t.Fired = 0
	t.Must, t.Writes = 0, 0
	t.First = ""
	return t
}

// Disarm says whether a call failed.
func (st *Store) Disarm() bool {
	t := st.Task()
	t.f = nil
	return t.Fired > 0
}

var kinds = []string{"OpenTable", "CreateTable", "DropTable", "Commit", "Rollback", "Rows", "Insert", "Next",
	"Current", "Close", "Update", "Delete"}

// Count the faults which were injected.
func (st *Store) Count(count func(name string, n int64)) {
	for i := range st.tasks {
		for k, n := range st.tasks[i].Kinds {
			if n > 0 {
				count("fault storage error in "+kinds[k], n)
			}
		}
		count("storage calls", st.tasks[i].Calls)
	}
}

// Leaks describes what the tasks left open.
func (st *Store) Leaks() string {
	for i := range st.tasks {
		t := &st.tasks[i]
		if t.Rows != 0 || t.Txs != 0 {
			return fmt.Sprintf("task %d left %d rows and %d transactions open", i, t.Rows, t.Txs)
		}
	}
	return ""
}

// must the failure of a call be reported: an operation which failed to close
// or to roll back may still have done what was asked for.
func must(kind int) bool { return kind != 4 && kind != 9 }

func write(kind int) bool {
	switch kind {
	case 1, 2, 3, 6, 10, 11:
		return true
	}
	return false
}

// fails says whether the call fails, before or after its effect.
func (st *Store) fails(kind int) (before, after bool) {
	t := st.Task()
	t.Calls++
	if t.f == nil {
		return false, false
	}
	t.calls++
	if t.calls == t.f.N || (t.f.Sticky && t.calls > t.f.N) {
		t.Fired++
		if must(kind) {
			t.Must++
		}
		if write(kind) {
			t.Writes++
		}
		t.Kinds[kind]++
		if t.Fired == 1 {
			t.First = kinds[kind]
		}
		if t.calls == t.f.N && t.f.After {
			return false, true
		}
		return true, false
	}
	return false, false
}

// failed says that the call failed by itself, so not by a fault after it.
func (st *Store) failed(kind int, after bool) {
	if after {
		t := st.Task()
		t.Fired--
		if must(kind) {
			t.Must--
		}
		if write(kind) {
			t.Writes--
		}
		t.Kinds[kind]--
	}
}

func (st *Store) Name() string { return st.Inner.Name() }

func (st *Store) SetupColumns(colNames []types.Identifier, colTypes []types.ColumnType,
	primary []types.ColumnKey) ([]types.Identifier, []types.ColumnType, []types.ColumnKey) {

	return st.Inner.SetupColumns(colNames, colTypes, primary)
}

type tx struct {
	st    *Store
	inner storage.Transaction
	task  *Task
	done  bool
}

func (st *Store) Begin() storage.Transaction {
	inner := st.Inner.Begin()
	t := st.Task()
	t.Txs++
	t.Begun++
	return &tx{st: st, inner: inner, task: t}
}

func (x *tx) Store() storage.Store { return x.st }
func (x *tx) NextStmt()            { x.inner.NextStmt() }

func (x *tx) OpenTable(ctx context.Context, tid storage.TableId, tn types.TableName, colNames []types.Identifier,
	colTypes []types.ColumnType, primary []types.ColumnKey) (storage.Table, error) {

	before, after := x.st.fails(0)
	if before {
		return nil, Err
	}
	tbl, err := x.inner.OpenTable(ctx, tid, tn, colNames, colTypes, primary)
	if err != nil {
		x.st.failed(0, after)
		return nil, err
	} else if after {
		return nil, Err
	}
	return &table{Table: tbl, x: x}, nil
}

func (x *tx) CreateTable(ctx context.Context, tid storage.TableId, tn types.TableName,
	colNames []types.Identifier, colTypes []types.ColumnType, primary []types.ColumnKey) error {

	before, after := x.st.fails(1)
	if before {
		return Err
	}
	err := x.inner.CreateTable(ctx, tid, tn, colNames, colTypes, primary)
	if err != nil {
		x.st.failed(1, after)
	}
	if err == nil && after {
		return Err
	}
	return err
}

func (x *tx) DropTable(ctx context.Context, tid storage.TableId) error {
	before, after := x.st.fails(2)
	if before {
		return Err
	}
	err := x.inner.DropTable(ctx, tid)
	if err != nil {
		x.st.failed(2, after)
	}
	if err == nil && after {
		return Err
	}
	return err
}

// A commit which fails has rolled the transaction back.
func (x *tx) Commit(ctx context.Context) error {
	if x.done {
		return x.inner.Commit(ctx)
	}
	before, after := x.st.fails(3)
	if before || after {
		if err := x.inner.Rollback(); err != nil {
			return err
		}
		x.completed()
		return Err
	}
	err := x.inner.Commit(ctx)
	if err == nil {
		x.completed()
	}
	return err
}

func (x *tx) completed() {
	x.done = true
	x.task.Txs--
	x.task.Completed++
}

func (x *tx) Rollback() error {
	if x.done {
		return x.inner.Rollback()
	}
	before, after := x.st.fails(4)
	err := x.inner.Rollback()
	if err == nil {
		x.completed()
		if before || after {
			return Err
		}
	}
	return err
}

type table struct {
	storage.Table
	x *tx
}

func (t *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxRow types.Row,
	pred storage.Predicate) (storage.Rows, error) {

	before, after := t.x.st.fails(5)
	if before {
		return nil, Err
	}
	rs, err := t.Table.Rows(ctx, cols, minRow, maxRow, pred)
	if err != nil {
		t.x.st.failed(5, after)
		return nil, err
	} else if after {
		rs.Close(ctx)
		return nil, Err
	}
	t.x.task.Rows++
	return &rows{rs: rs, x: t.x}, nil
}

func (t *table) Insert(ctx context.Context, rs []types.Row) error {
	before, after := t.x.st.fails(6)
	if before {
		return Err
	}
	err := t.Table.Insert(ctx, rs)
	if err != nil {
		t.x.st.failed(6, after)
	}
	if err == nil && after {
		return Err
	}
	return err
}

type rows struct {
	rs     storage.Rows
	x      *tx
	closed bool
}

func (r *rows) Next(ctx context.Context) (types.Row, error) {
	before, after := r.x.st.fails(7)
	if before {
		return nil, Err
	}
	row, err := r.rs.Next(ctx)
	if after {
		return nil, Err
	}
	return row, err
}

func (r *rows) Current() (storage.RowRef, error) {
	before, after := r.x.st.fails(8)
	if before {
		return nil, Err
	}
	rr, err := r.rs.Current()
	if err != nil {
		r.x.st.failed(8, after)
		return nil, err
	} else if after {
		return nil, Err
	}
	return &ref{rr: rr, x: r.x}, nil
}

// Close always closes.
func (r *rows) Close(ctx context.Context) error {
	before, after := r.x.st.fails(9)
	if !r.closed {
		r.closed = true
		r.x.task.Rows--
	}
	err := r.rs.Close(ctx)
	if before || after {
		return Err
	}
	return err
}

type ref struct {
	rr storage.RowRef
	x  *tx
}

func (r *ref) Update(ctx context.Context, cols []types.ColumnNum, vals []types.Value) error {
	before, after := r.x.st.fails(10)
	if before {
		return Err
	}
	err := r.rr.Update(ctx, cols, vals)
	if err != nil {
		r.x.st.failed(10, after)
	}
	if err == nil && after {
		return Err
	}
	return err
}

func (r *ref) Delete(ctx context.Context) error {
	before, after := r.x.st.fails(11)
	if before {
		return Err
	}
	err := r.rr.Delete(ctx)
	if err != nil {
		r.x.st.failed(11, after)
	}
	if err == nil && after {
		return Err
	}
	return err
}
