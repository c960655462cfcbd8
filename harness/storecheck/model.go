// Package storecheck decides the properties of the storage layer: transaction
// programs run against the real store by concurrent clients under the
// simulator, and against the model store below, one transaction at a time.
package storecheck

import (
	"context"
	"errors"
	"fmt"
	"io"
	"slices"
	"sort"
	"strings"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
	"verif/harness/val"
)

// model is an immutable state of the model store.
type model struct {
	tables map[storage.TableId]*mtable
	dump   string
}

type mtable struct {
	tn       types.TableName
	colNames []types.Identifier
	colTypes []types.ColumnType
	primary  []types.ColumnKey
	rows     []types.Row // sorted by key
}

func (m *model) clone() *model {
	n := &model{tables: map[storage.TableId]*mtable{}}
	for tid, t := range m.tables {
		nt := *t
		nt.rows = append([]types.Row(nil), t.rows...)
		n.tables[tid] = &nt
	}
	return n
}

// Dump identifies the state.
func (m *model) Dump() string {
	if m.dump == "" {
		var tids []int
		for tid := range m.tables {
			tids = append(tids, int(tid))
		}
		sort.Ints(tids)
		var sb strings.Builder
		for _, tid := range tids {
			t := m.tables[storage.TableId(tid)]
			fmt.Fprintf(&sb, "%d %v %v %v:", tid, t.colNames, t.colTypes, t.primary)
			for _, r := range t.rows {
				sb.WriteString(val.FormatRow(r))
			}
			sb.WriteByte('\n')
		}
		m.dump = sb.String()
	}
	return m.dump
}

func compareRows(key []types.ColumnKey, a, b types.Row) int {
	for _, ck := range key {
		c := val.CompareKey(a[ck.Column()], b[ck.Column()], ck.Reverse())
		if c != 0 {
			return c
		}
	}
	return 0
}

// find the first row whose key is not less.
func (t *mtable) find(row types.Row) (int, bool) {
	i := sort.Search(len(t.rows), func(i int) bool { return compareRows(t.primary, t.rows[i], row) >= 0 })
	return i, i < len(t.rows) && compareRows(t.primary, t.rows[i], row) == 0
}

func (t *mtable) insert(row types.Row) bool {
	i, ok := t.find(row)
	if ok {
		return false
	}
	t.rows = append(t.rows, nil)
	copy(t.rows[i+1:], t.rows[i:])
	t.rows[i] = row
	return true
}

// mstore is the model as a storage.Store, for one transaction at a time.
type mstore struct{ m *model }

func (ms *mstore) Name() string { return "model" }

func (ms *mstore) SetupColumns(cn []types.Identifier, ct []types.ColumnType,
	pr []types.ColumnKey) ([]types.Identifier, []types.ColumnType, []types.ColumnKey) {

	if pr == nil {
		ncn := []types.Identifier{types.ROWID}
		nct := []types.ColumnType{types.Int64ColType}
		return append(ncn, cn...), append(nct, ct...), []types.ColumnKey{types.MakeColumnKey(0, false)}
	}
	return cn, ct, pr
}

func (ms *mstore) Begin() storage.Transaction { return &mtx{ms: ms, m: ms.m.clone()} }

type mtx struct {
	ms   *mstore
	m    *model
	open int
	done bool
}

var errModel = errors.New("model: error")

func (tx *mtx) Store() storage.Store { return tx.ms }
func (tx *mtx) NextStmt()            {}

func (tx *mtx) OpenTable(ctx context.Context, tid storage.TableId, tn types.TableName,
	cn []types.Identifier, ct []types.ColumnType, pr []types.ColumnKey) (storage.Table, error) {

	t := tx.m.tables[tid]
	if t == nil || t.tn != tn || !slices.Equal(t.colNames, cn) || !slices.Equal(t.colTypes, ct) || !slices.Equal(t.primary, pr) {
		return nil, errModel
	}
	return &mtbl{tx: tx, tid: tid, t: t}, nil
}

func (tx *mtx) CreateTable(ctx context.Context, tid storage.TableId, tn types.TableName,
	cn []types.Identifier, ct []types.ColumnType, pr []types.ColumnKey) error {

	if tx.m.tables[tid] != nil {
		return errModel
	}
	for i, n := range cn {
		if n == types.ROWID && (i > 0 || ct[0] != types.Int64ColType || !slices.Equal(pr, []types.ColumnKey{types.MakeColumnKey(0, false)})) {
			return errModel
		}
	}
	tx.m.tables[tid] = &mtable{tn: tn, colNames: cn, colTypes: ct, primary: pr}
	return nil
}

func (tx *mtx) DropTable(ctx context.Context, tid storage.TableId) error {
	if tx.m.tables[tid] == nil {
		return errModel
	}
	delete(tx.m.tables, tid)
	return nil
}

func (tx *mtx) Commit(ctx context.Context) error {
	if tx.done {
		return errModel
	}
	if tx.open > 0 {
		panic("model: open rows")
	}
	tx.done = true
	tx.ms.m = tx.m
	return nil
}

func (tx *mtx) Rollback() error {
	if tx.done {
		return errModel
	}
	if tx.open > 0 {
		panic("model: open rows")
	}
	tx.done = true
	return nil
}

type mtbl struct {
	tx  *mtx
	tid storage.TableId
	t   *mtable
}

func (t *mtbl) TID() storage.TableId            { return t.tid }
func (t *mtbl) Name() types.TableName           { return t.t.tn }
func (t *mtbl) Version() uint32                 { return 1 }
func (t *mtbl) ColumnNames() []types.Identifier { return t.t.colNames }
func (t *mtbl) ColumnTypes() []types.ColumnType { return t.t.colTypes }
func (t *mtbl) Key() []types.ColumnKey          { return t.t.primary }

func (t *mtbl) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxRow types.Row,
	pred storage.Predicate) (storage.Rows, error) {

	rs := &mrows{t: t, cols: cols, at: -1}
	for _, r := range t.t.rows {
		if minRow != nil && compareRows(t.t.primary, r, minRow) < 0 {
			continue
		}
		if maxRow != nil && compareRows(t.t.primary, r, maxRow) > 0 {
			continue
		}
		if pred != nil && !satisfies(pred, r[pred.Column()]) {
			continue
		}
		rs.rows = append(rs.rows, r)
	}
	t.tx.open++
	return rs, nil
}

func satisfies(pred storage.Predicate, v types.Value) bool {
	switch v := v.(type) {
	case types.BoolValue:
		return pred.(storage.BoolPredicate).BoolPred(v)
	case types.StringValue:
		return pred.(storage.StringPredicate).StringPred(v)
	case types.BytesValue:
		return pred.(storage.BytesPredicate).BytesPred(v)
	case types.Float64Value:
		return pred.(storage.Float64Predicate).Float64Pred(v)
	case types.Int64Value:
		return pred.(storage.Int64Predicate).Int64Pred(v)
	}
	return false
}

func (t *mtbl) Insert(ctx context.Context, rows []types.Row) error {
	nt := *t.t
	nt.rows = append([]types.Row(nil), t.t.rows...)
	for _, row := range rows {
		if len(row) > len(nt.colTypes) {
			return errModel
		}
		nr := make(types.Row, len(nt.colTypes))
		for i, v := range row {
			c, ok := val.Convert(nt.colTypes[i], v)
			if !ok {
				return errModel
			}
			nr[i] = own(c)
		}
		if !nt.insert(nr) {
			return errModel
		}
	}
	t.t.rows = nt.rows
	return nil
}

// own memory, which is not the client's.
func own(v types.Value) types.Value {
	if b, ok := v.(types.BytesValue); ok {
		return types.BytesValue(string(b))
	}
	return v
}

type mrows struct {
	t      *mtbl
	cols   []types.ColumnNum
	rows   []types.Row
	at     int
	closed bool
}

func (rs *mrows) Next(ctx context.Context) (types.Row, error) {
	if rs.closed {
		panic("model: next on closed rows")
	}
	if rs.at+1 >= len(rs.rows) {
		return nil, io.EOF
	}
	rs.at++
	r := rs.rows[rs.at]
	if rs.cols == nil {
		nr := make(types.Row, len(r))
		for i, v := range r {
			nr[i] = own(v)
		}
		return nr, nil
	}
	nr := make(types.Row, len(rs.cols))
	for i, c := range rs.cols {
		nr[i] = own(r[c])
	}
	return nr, nil
}

func (rs *mrows) Current() (storage.RowRef, error) {
	if rs.closed {
		panic("model: current on closed rows")
	}
	return &mref{t: rs.t, row: rs.rows[rs.at]}, nil
}

func (rs *mrows) Close(ctx context.Context) error {
	if rs.closed {
		panic("model: closed twice")
	}
	rs.closed = true
	rs.t.tx.open--
	return nil
}

type mref struct {
	t   *mtbl
	row types.Row
}

func (rr *mref) Update(ctx context.Context, cols []types.ColumnNum, vals []types.Value) error {
	t := rr.t.t
	i, ok := t.find(rr.row)
	if !ok {
		panic("model: missing row")
	}
	nr := append(types.Row(nil), t.rows[i]...)
	for j, c := range cols {
		v, ok := val.Convert(t.colTypes[c], vals[j])
		if !ok {
			return errModel
		}
		nr[c] = own(v)
	}
	if compareRows(t.primary, nr, t.rows[i]) != 0 {
		if _, dup := t.find(nr); dup {
			return errModel
		}
	}
	t.rows = append(append([]types.Row(nil), t.rows[:i]...), t.rows[i+1:]...)
	t.insert(nr)
	return nil
}

func (rr *mref) Delete(ctx context.Context) error {
	t := rr.t.t
	i, ok := t.find(rr.row)
	if !ok {
		panic("model: missing row")
	}
	t.rows = append(append([]types.Row(nil), t.rows[:i]...), t.rows[i+1:]...)
	return nil
}
