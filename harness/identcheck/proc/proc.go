// Package proc is one simulated process: the program, with identifiers of its
// own. The build makes a second one of it.
package proc

import (
	"context"
	"fmt"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
	"verif/harness/identcheck/wire"
)

func ID(text string, quoted bool) int { return int(types.ID(text, quoted)) }

// In the process's own numbers.
func in(n wire.Name) types.Identifier { return types.ID(n.Text, !n.Kw) }

func Known(n wire.Name) int { return int(in(n)) }

func out(id types.Identifier) wire.Name {
	s := id.String()
	return wire.Name{Text: s, Kw: types.ID(s, true) != id, Res: id.IsReserved()}
}

func Name(id int) wire.Name { return out(types.Identifier(id)) }

func ins(ns []wire.Name) []types.Identifier {
	if ns == nil {
		return nil
	}
	ids := []types.Identifier{}
	for _, n := range ns {
		ids = append(ids, in(n))
	}
	return ids
}

func outs(ids []types.Identifier) []wire.Name {
	var ns []wire.Name
	for _, id := range ids {
		ns = append(ns, out(id))
	}
	return ns
}

func inTypes(cts []wire.ColType) []types.ColumnType {
	var ts []types.ColumnType
	for _, ct := range cts {
		ts = append(ts, types.ColumnType{Type: types.ValueType(ct.Type), Size: ct.Size, Fixed: ct.Fixed, NotNull: ct.NotNull})
	}
	return ts
}

func outTypes(cts []types.ColumnType) []wire.ColType {
	var ts []wire.ColType
	for _, ct := range cts {
		ts = append(ts, wire.ColType{Type: int(ct.Type), Size: ct.Size, Fixed: ct.Fixed, NotNull: ct.NotNull})
	}
	return ts
}

func inKey(ks []int32) []types.ColumnKey {
	if ks == nil {
		return nil
	}
	key := []types.ColumnKey{}
	for _, k := range ks {
		key = append(key, types.ColumnKey(k))
	}
	return key
}

func outKey(ks []types.ColumnKey) []int32 {
	var key []int32
	for _, k := range ks {
		key = append(key, int32(k))
	}
	return key
}

func inTable(tn wire.TableName) types.TableName {
	return types.TableName{Database: in(tn[0]), Schema: in(tn[1]), Table: in(tn[2])}
}

func outTable(tn types.TableName) wire.TableName {
	return wire.TableName{out(tn.Database), out(tn.Schema), out(tn.Table)}
}

func inDef(d wire.Def) *engine.TableType {
	tt := &engine.TableType{Version: d.Version, ColumnNames: ins(d.Names), ColumnTypes: inTypes(d.Types), Key: inKey(d.Key)}
	for _, ix := range d.Indexes {
		tt.Indexes = append(tt.Indexes, engine.IndexType{Name: in(ix.Name), Key: inKey(ix.Key)})
	}
	return tt
}

func outDef(tt *engine.TableType) wire.Def {
	d := wire.Def{Version: tt.Version, Names: outs(tt.ColumnNames), Types: outTypes(tt.ColumnTypes), Key: outKey(tt.Key)}
	for _, ix := range tt.Indexes {
		d.Indexes = append(d.Indexes, wire.Index{Name: out(ix.Name), Key: outKey(ix.Key)})
	}
	return d
}

// Encode a definition of a table; nums are the numbers of its names.
func Encode(d wire.Def) (buf []byte, nums []int, err error) {
	tt := inDef(d)
	buf, err = tt.Encode()
	return buf, numbers(tt), err
}

func numbers(tt *engine.TableType) []int {
	var nums []int
	for _, id := range tt.ColumnNames {
		nums = append(nums, int(id))
	}
	for _, ix := range tt.Indexes {
		nums = append(nums, int(ix.Name))
	}
	return nums
}

func Decode(buf []byte) (d wire.Def, nums []int, err error) {
	tt, err := engine.DecodeTableType(buf)
	if err != nil {
		return wire.Def{}, nil, err
	}
	if tt == nil {
		return wire.Def{}, nil, fmt.Errorf("neither definition nor error")
	}
	return outDef(tt), numbers(tt), nil
}

func EncodeName(n wire.Name) ([]byte, error) { return in(n).GobEncode() }

func DecodeName(buf []byte) (wire.Name, error) {
	var id types.Identifier
	if err := id.GobDecode(buf); err != nil {
		return wire.Name{}, err
	}
	return out(id), nil
}

// Values.

func inVal(v any) types.Value {
	switch v := v.(type) {
	case nil:
		return nil
	case bool:
		return types.BoolValue(v)
	case int64:
		return types.Int64Value(v)
	case float64:
		return types.Float64Value(v)
	case string:
		return types.StringValue(v)
	case []byte:
		return types.BytesValue(v)
	}
	panic(fmt.Sprintf("proc: %T", v))
}

func outVal(v types.Value) any {
	switch v := v.(type) {
	case nil:
		return nil
	case types.BoolValue:
		return bool(v)
	case types.Int64Value:
		return int64(v)
	case types.Float64Value:
		return float64(v)
	case types.StringValue:
		return string(v)
	case types.BytesValue:
		return []byte(v)
	}
	panic(fmt.Sprintf("proc: %T", v))
}

func inRow(vs []any) types.Row {
	if vs == nil {
		return nil
	}
	r := types.Row{}
	for _, v := range vs {
		r = append(r, inVal(v))
	}
	return r
}

func outRow(r types.Row) []any {
	if r == nil {
		return nil
	}
	vs := []any{}
	for _, v := range r {
		vs = append(vs, outVal(v))
	}
	return vs
}

func inCols(cs []uint32) []types.ColumnNum {
	if cs == nil {
		return nil
	}
	cols := []types.ColumnNum{}
	for _, c := range cs {
		cols = append(cols, types.ColumnNum(c))
	}
	return cols
}

func outCols(cs []types.ColumnNum) []uint32 {
	if cs == nil {
		return nil
	}
	cols := []uint32{}
	for _, c := range cs {
		cols = append(cols, uint32(c))
	}
	return cols
}

// The process's store, for other processes.

type exStore struct{ st storage.Store }
type exTx struct{ tx storage.Transaction }
type exTable struct{ tbl storage.Table }
type exRows struct{ rows storage.Rows }

func NewStore() (wire.Store, error) {
	st, err := basic.NewStore("")
	return &exStore{st}, err
}

func (st *exStore) SetupColumns(names []wire.Name, cts []wire.ColType, key []int32) ([]wire.Name, []wire.ColType, []int32) {
	n, t, k := st.st.SetupColumns(ins(names), inTypes(cts), inKey(key))
	return outs(n), outTypes(t), outKey(k)
}

func (st *exStore) Begin() wire.Tx { return &exTx{st.st.Begin()} }

func (tx *exTx) OpenTable(ctx context.Context, tid uint32, tn wire.TableName, names []wire.Name, cts []wire.ColType, key []int32) (wire.Table, error) {
	tbl, err := tx.tx.OpenTable(ctx, storage.TableId(tid), inTable(tn), ins(names), inTypes(cts), inKey(key))
	if err != nil {
		return nil, err
	}
	return &exTable{tbl}, nil
}

func (tx *exTx) CreateTable(ctx context.Context, tid uint32, tn wire.TableName, names []wire.Name, cts []wire.ColType, key []int32) error {
	return tx.tx.CreateTable(ctx, storage.TableId(tid), inTable(tn), ins(names), inTypes(cts), inKey(key))
}

func (tx *exTx) DropTable(ctx context.Context, tid uint32) error {
	return tx.tx.DropTable(ctx, storage.TableId(tid))
}

func (tx *exTx) Commit(ctx context.Context) error { return tx.tx.Commit(ctx) }
func (tx *exTx) Rollback() error                  { return tx.tx.Rollback() }
func (tx *exTx) NextStmt()                        { tx.tx.NextStmt() }

func (tbl *exTable) Def() wire.Def {
	return wire.Def{Version: tbl.tbl.Version(), Names: outs(tbl.tbl.ColumnNames()), Types: outTypes(tbl.tbl.ColumnTypes()), Key: outKey(tbl.tbl.Key())}
}

func (tbl *exTable) Rows(ctx context.Context, cols []uint32, min, max []any) (wire.Rows, error) {
	rows, err := tbl.tbl.Rows(ctx, inCols(cols), inRow(min), inRow(max), nil)
	if err != nil {
		return nil, err
	}
	return &exRows{rows}, nil
}

func (tbl *exTable) Insert(ctx context.Context, rows [][]any) error {
	var rs []types.Row
	for _, r := range rows {
		rs = append(rs, inRow(r))
	}
	return tbl.tbl.Insert(ctx, rs)
}

func (r *exRows) Next(ctx context.Context) ([]any, error) {
	row, err := r.rows.Next(ctx)
	return outRow(row), err
}

func (r *exRows) Update(ctx context.Context, cols []uint32, vals []any) error {
	ref, err := r.rows.Current()
	if err != nil {
		return err
	}
	return ref.Update(ctx, inCols(cols), inRow(vals))
}

func (r *exRows) Delete(ctx context.Context) error {
	ref, err := r.rows.Current()
	if err != nil {
		return err
	}
	return ref.Delete(ctx)
}

func (r *exRows) Close(ctx context.Context) error { return r.rows.Close(ctx) }

// A store of another process.

type imStore struct{ st wire.Store }

type imTx struct {
	st *imStore
	tx wire.Tx
}

type imTable struct {
	tbl wire.Table
	tid storage.TableId
	tn  types.TableName
}

type imRows struct{ rows wire.Rows }

func (st *imStore) Name() string { return "shared" }

func (st *imStore) SetupColumns(names []types.Identifier, cts []types.ColumnType, key []types.ColumnKey) ([]types.Identifier, []types.ColumnType, []types.ColumnKey) {
	var ks []int32
	if key != nil {
		ks = append([]int32{}, outKey(key)...)
	}
	n, t, k := st.st.SetupColumns(outs(names), outTypes(cts), ks)
	return ins(n), inTypes(t), inKey(k)
}

func (st *imStore) Begin() storage.Transaction { return &imTx{st, st.st.Begin()} }

func (tx *imTx) Store() storage.Store { return tx.st }

func (tx *imTx) OpenTable(ctx context.Context, tid storage.TableId, tn types.TableName, names []types.Identifier, cts []types.ColumnType, key []types.ColumnKey) (storage.Table, error) {
	tbl, err := tx.tx.OpenTable(ctx, uint32(tid), outTable(tn), outs(names), outTypes(cts), outKey(key))
	if err != nil {
		return nil, err
	}
	return &imTable{tbl, tid, tn}, nil
}

func (tx *imTx) CreateTable(ctx context.Context, tid storage.TableId, tn types.TableName, names []types.Identifier, cts []types.ColumnType, key []types.ColumnKey) error {
	return tx.tx.CreateTable(ctx, uint32(tid), outTable(tn), outs(names), outTypes(cts), outKey(key))
}

func (tx *imTx) DropTable(ctx context.Context, tid storage.TableId) error {
	return tx.tx.DropTable(ctx, uint32(tid))
}

func (tx *imTx) Commit(ctx context.Context) error { return tx.tx.Commit(ctx) }
func (tx *imTx) Rollback() error                  { return tx.tx.Rollback() }
func (tx *imTx) NextStmt()                        { tx.tx.NextStmt() }

func (tbl *imTable) TID() storage.TableId            { return tbl.tid }
func (tbl *imTable) Name() types.TableName           { return tbl.tn }
func (tbl *imTable) Version() uint32                 { return tbl.tbl.Def().Version }
func (tbl *imTable) ColumnNames() []types.Identifier { return ins(tbl.tbl.Def().Names) }
func (tbl *imTable) ColumnTypes() []types.ColumnType { return inTypes(tbl.tbl.Def().Types) }
func (tbl *imTable) Key() []types.ColumnKey          { return inKey(tbl.tbl.Def().Key) }

func (tbl *imTable) Rows(ctx context.Context, cols []types.ColumnNum, min, max types.Row, pred storage.Predicate) (storage.Rows, error) {
	if pred != nil {
		panic("proc: predicate")
	}
	rows, err := tbl.tbl.Rows(ctx, outCols(cols), outRow(min), outRow(max))
	if err != nil {
		return nil, err
	}
	return &imRows{rows}, nil
}

func (tbl *imTable) Insert(ctx context.Context, rows []types.Row) error {
	var rs [][]any
	for _, r := range rows {
		rs = append(rs, outRow(r))
	}
	return tbl.tbl.Insert(ctx, rs)
}

func (r *imRows) Next(ctx context.Context) (types.Row, error) {
	row, err := r.rows.Next(ctx)
	return inRow(row), err
}

func (r *imRows) Current() (storage.RowRef, error) { return r, nil }

func (r *imRows) Update(ctx context.Context, cols []types.ColumnNum, vals []types.Value) error {
	return r.rows.Update(ctx, outCols(cols), outRow(vals))
}

func (r *imRows) Delete(ctx context.Context) error { return r.rows.Delete(ctx) }
func (r *imRows) Close(ctx context.Context) error  { return r.rows.Close(ctx) }

// The process's catalog.

type eng struct{ e engine.Engine }
type engTx struct{ tx engine.Transaction }

// NewEngine opens the catalog of a store, which is initialised first if init.
func NewEngine(st wire.Store, init bool) (wire.Engine, error) {
	im := &imStore{st}
	if init {
		if err := engine.Init(im); err != nil {
			return nil, err
		}
	}
	return &eng{engine.NewEngine(im)}, nil
}

func (e *eng) CreateDatabase(dn wire.Name) error { return e.e.CreateDatabase(in(dn), nil) }
func (e *eng) DropDatabase(dn wire.Name) error   { return e.e.DropDatabase(in(dn), false) }
func (e *eng) Databases() ([]wire.Name, error) {
	ids, err := e.e.ListDatabases()
	return outs(ids), err
}
func (e *eng) Begin() wire.EngineTx { return &engTx{e.e.Begin()} }

func (tx *engTx) Commit(ctx context.Context) error { return tx.tx.Commit(ctx) }
func (tx *engTx) Rollback() error                  { return tx.tx.Rollback() }

func schema(dn, sn wire.Name) types.SchemaName {
	return types.SchemaName{Database: in(dn), Schema: in(sn)}
}

func (tx *engTx) CreateSchema(ctx context.Context, dn, sn wire.Name) error {
	return tx.tx.CreateSchema(ctx, schema(dn, sn))
}

func (tx *engTx) DropSchema(ctx context.Context, dn, sn wire.Name) error {
	return tx.tx.DropSchema(ctx, schema(dn, sn), false)
}

func (tx *engTx) Schemas(ctx context.Context, dn wire.Name) ([]wire.Name, error) {
	ids, err := tx.tx.ListSchemas(ctx, in(dn))
	return outs(ids), err
}

func (tx *engTx) CreateTable(ctx context.Context, tn wire.TableName, names []wire.Name, cts []wire.ColType, key []int32) error {
	return tx.tx.CreateTable(ctx, inTable(tn), ins(names), inTypes(cts), inKey(key))
}

func (tx *engTx) DropTable(ctx context.Context, tn wire.TableName) error {
	return tx.tx.DropTable(ctx, inTable(tn))
}

func (tx *engTx) Tables(ctx context.Context, dn, sn wire.Name) ([]wire.Name, error) {
	ids, err := tx.tx.ListTables(ctx, schema(dn, sn))
	return outs(ids), err
}

func (tx *engTx) Table(ctx context.Context, tn wire.TableName) (wire.Def, wire.TableName, uint32, error) {
	tbl, err := tx.tx.OpenTable(ctx, inTable(tn))
	if err != nil {
		return wire.Def{}, wire.TableName{}, 0, err
	}
	return outDef(tbl.Type()), outTable(tbl.Name()), uint32(tbl.TableId()), nil
}
