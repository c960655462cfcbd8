package storecheck

import (
	"context"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
	"verif/harness/core"
	"verif/harness/val"
	"verifsim/sim"
)

type Col struct {
	T types.ValueType `json:"t"`
	S uint32          `json:"s"`
	N bool            `json:"n,omitempty"` // NOT NULL
	F bool            `json:"f,omitempty"` // fixed
}

func (c Col) Type() types.ColumnType {
	return types.ColumnType{Type: c.T, Size: c.S, NotNull: c.N, Fixed: c.F}
}

// TableDef is a table; Slot is the directory entry of a table which is created
// and dropped by the clients.
type TableDef struct {
	Tid  uint32 `json:"tid"`
	Slot int    `json:"slot,omitempty"`
	As   int    `json:"as,omitempty"`   // has the name of the definition As - 1
	Like int    `json:"like,omitempty"` // has the column names of the definition Like - 1
	Cols []Col  `json:"cols"`
	Key  []int  `json:"key,omitempty"` // column + 1, negative if reverse; none: row id
}

type Pred struct {
	C  int    `json:"c"`
	Op string `json:"op"` // eq, ne, lt, le, gt, ge, all, none
	V  val.V  `json:"v,omitempty"`
}

type Op struct {
	K     string    `json:"k"`
	T     int       `json:"t"`
	T2    int       `json:"t2,omitempty"`
	Slot  int       `json:"slot,omitempty"`
	Cols  []int     `json:"cols,omitempty"`
	Proj  []int     `json:"proj,omitempty"`
	Min   []val.V   `json:"min,omitempty"`
	Max   []val.V   `json:"max,omitempty"`
	Pred  *Pred     `json:"pred,omitempty"`
	Rows  [][]val.V `json:"rows,omitempty"`
	Vals  []val.V   `json:"vals,omitempty"`
	N     int       `json:"n,omitempty"`
	Fresh bool      `json:"fresh,omitempty"`
}

// maxSlots is how many cursors, and row references, a transaction has.
const maxSlots = 24

type Txn struct {
	Ops   []Op     `json:"ops"`
	End   string   `json:"end"`             // commit, rollback
	Early []string `json:"early,omitempty"` // attempts to complete it while rows are open
	After []string `json:"after,omitempty"` // attempts to complete it again
}

type Plan struct {
	core.Common
	Dyn     bool        `json:"dyn,omitempty"`
	Virgin  int         `json:"virgin,omitempty"` // transactions rolled back while the store is still empty
	Defs    []TableDef  `json:"defs"`
	Init    [][][]val.V `json:"init"`
	Clients [][]Txn     `json:"clients"`
}

type tableInfo struct {
	def      *TableDef
	tid      storage.TableId
	tn       types.TableName
	colNames []types.Identifier
	colTypes []types.ColumnType
	primary  []types.ColumnKey
}

func (p *Plan) infos(st storage.Store) []*tableInfo {
	var tis []*tableInfo
	for i := range p.Defs {
		d := &p.Defs[i]
		as, like := i, i
		if d.As > 0 {
			as = d.As - 1
		}
		if d.Like > 0 {
			like = d.Like - 1
		}
		ti := &tableInfo{def: d, tid: storage.TableId(d.Tid),
			tn: types.TableName{
				Database: types.ID("db", true),
				Schema:   types.ID("sc", true),
				Table:    types.ID(fmt.Sprintf("tbl%d", as), true),
			}}
		for c, col := range d.Cols {
			ti.colNames = append(ti.colNames, types.ID(fmt.Sprintf("col%d_%d", like, c), true))
			ti.colTypes = append(ti.colTypes, col.Type())
		}
		for _, k := range d.Key {
			if k < 0 {
				ti.primary = append(ti.primary, types.MakeColumnKey(types.ColumnNum(-k-1), true))
			} else {
				ti.primary = append(ti.primary, types.MakeColumnKey(types.ColumnNum(k-1), false))
			}
		}
		ti.colNames, ti.colTypes, ti.primary = st.SetupColumns(ti.colNames, ti.colTypes, ti.primary)
		tis = append(tis, ti)
	}
	return tis
}

// width and types of the columns as stored (with the row id).
func (d *TableDef) colTypes() []types.ColumnType {
	var cts []types.ColumnType
	if d.Key == nil {
		cts = append(cts, types.Int64ColType)
	}
	for _, c := range d.Cols {
		cts = append(cts, c.Type())
	}
	return cts
}

func (d *TableDef) keyCols() []int {
	if d.Key == nil {
		return []int{0}
	}
	var ks []int
	for _, k := range d.Key {
		if k < 0 {
			k = -k
		}
		ks = append(ks, k-1)
	}
	return ks
}

func toRow(vs []val.V, n int) types.Row {
	if vs == nil {
		return nil
	}
	row := make(types.Row, 0, n)
	for _, v := range vs {
		row = append(row, v.Value())
	}
	for len(row) < n {
		row = append(row, nil)
	}
	return row
}

func inRow(vs []val.V) types.Row {
	row := make(types.Row, 0, len(vs))
	for _, v := range vs {
		row = append(row, v.Value())
	}
	return row
}

// Predicates: only the interface of the type of the column.
type predBase struct {
	c  types.ColumnNum
	op string
	v  types.Value
}

func (p *predBase) Column() types.ColumnNum { return p.c }

func (p *predBase) test(v types.Value) bool {
	if p.op == "all" {
		return true
	} else if p.op == "none" || p.v == nil {
		return false
	}
	c := val.CompareKey(v, p.v, false)
	switch p.op {
	case "eq":
		return c == 0
	case "ne":
		return c != 0
	case "lt":
		return c < 0
	case "le":
		return c <= 0
	case "gt":
		return c > 0
	case "ge":
		return c >= 0
	}
	return false
}

type boolPred struct{ predBase }
type stringPred struct{ predBase }
type bytesPred struct{ predBase }
type floatPred struct{ predBase }
type intPred struct{ predBase }

func (p *boolPred) BoolPred(v types.BoolValue) bool        { return p.test(v) }
func (p *stringPred) StringPred(v types.StringValue) bool  { return p.test(v) }
func (p *bytesPred) BytesPred(v types.BytesValue) bool     { return p.test(v) }
func (p *floatPred) Float64Pred(v types.Float64Value) bool { return p.test(v) }
func (p *intPred) Int64Pred(v types.Int64Value) bool       { return p.test(v) }

func (p *Pred) make(cts []types.ColumnType) storage.Predicate {
	if p == nil {
		return nil
	}
	b := predBase{c: types.ColumnNum(p.C), op: p.Op, v: p.V.Value()}
	switch cts[p.C].Type {
	case types.BoolType:
		return &boolPred{b}
	case types.StringType:
		return &stringPred{b}
	case types.BytesType:
		return &bytesPred{b}
	case types.Float64Type:
		return &floatPred{b}
	}
	return &intPred{b}
}

// result of one transaction
type result struct {
	client int
	txn    *Txn
	call   int64
	ret    int64
	log    []string
	stats  [9]int // not a map: clients are tasks
}

const (
	stErr = iota
	stWrite
	stRow
	stRefused
	stInvalid
	stCursorWrite
	stDDL
	stWrong
)

var statNames = []string{"failed operations", "writes", "rows read", "completions refused", "invalid values stored",
	"writes through a cursor or row reference", "tables created or dropped", "wrong definitions refused"}

type cursor struct {
	t      int
	ti     *tableInfo
	tbl    storage.Table
	rows   storage.Rows
	shadow storage.Rows
	row    types.Row // of shadow
	ok     bool
}

type ref struct {
	t   int
	ti  *tableInfo
	tbl storage.Table
	rr  storage.RowRef
	row types.Row
}

type held struct {
	row  []types.Value
	text string
}

// run is one transaction being interpreted.
type run struct {
	p       *Plan
	tis     []*tableInfo
	st      storage.Store
	tx      storage.Transaction
	res     *result
	handles map[int]storage.Table
	curs    map[int]*cursor
	refs    map[int]*ref
	held    []held
	gen     map[int]int // table: how often it was created or dropped
}

var bg = context.Background()

func (r *run) logf(format string, args ...any) {
	r.res.log = append(r.res.log, fmt.Sprintf(format, args...))
}

func (r *run) err(err error) string {
	if err != nil {
		r.res.stats[stErr]++
		return "error"
	}
	return "ok"
}

// reuse the memory of values for something else.
func reuse(vals []types.Value) {
	for i, v := range vals {
		if b, ok := v.(types.BytesValue); ok {
			for j := range b {
				b[j] ^= 0xa5
			}
		}
		vals[i] = types.StringValue("reused")
	}
}

// give a row to a client which keeps it, or which reuses its memory.
func (r *run) give(row []types.Value) string {
	if (r.res.stats[stRow]+1)%3 != 0 {
		return r.keep(row)
	}
	s := val.FormatRow(row)
	r.res.stats[stRow]++
	reuse(row)
	return s
}

func (r *run) keep(row []types.Value) string {
	s := val.FormatRow(row)
	r.res.stats[stRow]++
	if len(r.held) < 200 {
		r.held = append(r.held, held{row, s})
	}
	return s
}

// current definition of a table; with a directory, the one in it.
func (r *run) info(t int) *tableInfo {
	if !r.p.Dyn || t == 0 {
		return r.tis[t]
	}
	d := r.open(r.tis[0], 0, false)
	if d == nil {
		return nil
	}
	key := types.Row{types.Int64Value(r.tis[t].def.Slot), nil}
	rows, err := d.Rows(bg, nil, key, key, nil)
	if err != nil {
		r.logf("directory: %s", r.err(err))
		return nil
	}
	defer rows.Close(bg)
	row, err := rows.Next(bg)
	if err != nil || len(row) != 2 {
		return nil
	}
	n, ok := row[1].(types.Int64Value)
	if !ok || n < 0 || int(n) >= len(r.tis) {
		r.logf("directory: bad row %s", val.FormatRow(row))
		return nil
	}
	return r.tis[n]
}

func (r *run) open(ti *tableInfo, t int, fresh bool) storage.Table {
	if tbl := r.handles[t]; tbl != nil && !fresh {
		return tbl
	}
	tbl, err := r.tx.OpenTable(bg, ti.tid, ti.tn, ti.colNames, ti.colTypes, ti.primary)
	if err != nil || tbl == nil {
		r.logf("open table %d: %s", t, r.err(err))
		return nil
	}
	r.handles[t] = tbl
	return tbl
}

func (r *run) table(op *Op) (*tableInfo, storage.Table) {
	ti := r.info(op.T)
	if ti == nil {
		r.logf("%s: no table", op.K)
		return nil, nil
	}
	return ti, r.open(ti, op.T, op.Fresh)
}

func colNums(cs []int) []types.ColumnNum {
	if cs == nil {
		return nil
	}
	ns := make([]types.ColumnNum, 0, len(cs))
	for _, c := range cs {
		ns = append(ns, types.ColumnNum(c))
	}
	return ns
}

// fits says whether an operation made for one definition of a table is
// possible with the current one.
func fits(ti *tableInfo, op *Op) bool {
	n := len(ti.colTypes)
	for _, c := range op.Cols {
		if c >= n {
			return false
		}
	}
	for _, c := range op.Proj {
		if c >= n {
			return false
		}
	}
	for _, row := range [][]val.V{op.Min, op.Max} {
		if len(row) > n {
			return false
		}
		for c, v := range row {
			if v != "n" && !val.Valid(ti.colTypes[c], v.Value()) {
				if x := v.Value(); x != nil {
					if cv, ok := val.Convert(types.ColumnType{Type: ti.colTypes[c].Type, Size: 1 << 30}, x); !ok || val.Format(cv) != val.Format(x) {
						return false
					}
				}
			}
		}
	}
	if op.Pred != nil {
		if op.Pred.C >= n {
			return false
		}
		if v := op.Pred.V.Value(); v != nil {
			cv, ok := val.Convert(types.ColumnType{Type: ti.colTypes[op.Pred.C].Type, Size: 1 << 30}, v)
			if !ok || val.Format(cv) != val.Format(v) {
				return false
			}
		}
	}
	return true
}

func (r *run) scan(ti *tableInfo, tbl storage.Table, op *Op, full bool) (storage.Rows, error) {
	n := len(ti.colTypes)
	proj := colNums(op.Proj)
	if full {
		proj = nil
	}
	minRow, maxRow := toRow(op.Min, n), toRow(op.Max, n)
	rows, err := tbl.Rows(bg, proj, minRow, maxRow, op.Pred.make(ti.colTypes))
	reuse(minRow)
	reuse(maxRow)
	return rows, err
}

func (r *run) exists(tbl storage.Table, row types.Row) bool {
	rows, err := tbl.Rows(bg, nil, row, row, nil)
	if err != nil {
		r.logf("lookup: %s", r.err(err))
		return false
	}
	defer rows.Close(bg)
	_, err = rows.Next(bg)
	return err == nil
}

func (r *run) closeCursor(slot int) {
	if c := r.curs[slot]; c != nil {
		if err := c.rows.Close(bg); err != nil {
			r.logf("close: %s", r.err(err))
		}
		if c.shadow != nil {
			c.shadow.Close(bg)
		}
		delete(r.curs, slot)
	}
}

func (r *run) closeAll(t int) {
	for slot := 0; slot < maxSlots; slot++ {
		if c := r.curs[slot]; c != nil && (t < 0 || c.t == t) {
			r.closeCursor(slot)
		}
	}
}

func (r *run) write(ti *tableInfo, tbl storage.Table, rr storage.RowRef, row types.Row, op *Op, n int) string {
	if !r.exists(tbl, row) {
		return "gone"
	}
	r.res.stats[stCursorWrite]++
	if op.K == "del" || op.K == "delref" || op.K == "delscan" {
		return r.err(rr.Delete(bg))
	}
	vals := make([]types.Value, 0, len(op.Vals))
	for _, v := range op.Vals {
		vals = append(vals, v.Value())
	}
	cols := colNums(op.Cols)
	s := r.err(rr.Update(bg, cols, vals))
	for i := range vals {
		if i < len(cols) && (int(cols[i]) != op.Cols[i] || val.Format(vals[i]) != val.Format(op.Vals[i].Value())) {
			s += " (the caller's values were changed)"
		}
	}
	reuse(vals)
	return s
}

func (r *run) upsert(ti *tableInfo, tbl storage.Table, key types.Row, col int, v types.Value) string {
	rows, err := tbl.Rows(bg, nil, key, key, nil)
	if err != nil {
		return r.err(err)
	}
	_, err = rows.Next(bg)
	if err == io.EOF {
		rows.Close(bg)
		row := append(types.Row(nil), key...)
		row[col] = v
		return "insert " + r.err(tbl.Insert(bg, []types.Row{row}))
	}
	if err != nil {
		rows.Close(bg)
		return r.err(err)
	}
	rr, err := rows.Current()
	if err != nil {
		rows.Close(bg)
		return r.err(err)
	}
	err = rr.Update(bg, []types.ColumnNum{types.ColumnNum(col)}, []types.Value{v})
	rows.Close(bg)
	return "update " + r.err(err)
}

func (r *run) op(op *Op) {
	switch op.K {
	case "insert":
		ti, tbl := r.table(op)
		if tbl == nil {
			return
		}
		_ = ti
		var rows []types.Row
		for _, vs := range op.Rows {
			rows = append(rows, inRow(vs))
		}
		r.res.stats[stWrite]++
		var texts []string
		for _, row := range rows {
			texts = append(texts, val.FormatRow(row))
		}
		r.logf("insert %d: %s", op.T, r.err(tbl.Insert(bg, rows)))
		for i, row := range rows {
			if s := val.FormatRow(row); s != texts[i] {
				r.logf("insert %d: the caller's row %s was changed to %s", op.T, texts[i], s)
			}
			reuse(row)
		}

	case "scan":
		ti, tbl := r.table(op)
		if tbl == nil || !fits(ti, op) {
			return
		}
		rows, err := r.scan(ti, tbl, op, false)
		if err != nil {
			r.logf("scan %d: %s", op.T, r.err(err))
			return
		}
		var sb strings.Builder
		for n := 0; op.N == 0 || n < op.N; n++ {
			row, err := rows.Next(bg)
			if err == io.EOF {
				sb.WriteString(" end")
				if op.Slot > 0 { // and again
					_, err := rows.Next(bg)
					if err != io.EOF {
						sb.WriteString(" more after the end")
					}
				}
				break
			} else if err != nil {
				sb.WriteString(" " + r.err(err))
				break
			}
			sb.WriteString(r.give(row))
		}
		r.logf("scan %d: %s close %s", op.T, sb.String(), r.err(rows.Close(bg)))
		if op.Slot > 0 { // and again
			what := ""
			for i, fn := range []func() error{
				func() error { return rows.Close(bg) },
				func() error { _, err := rows.Next(bg); return err },
				func() error { _, err := rows.Current(); return err },
				func() error { return rows.Close(bg) },
			} {
				if !refused(fn) {
					what += fmt.Sprintf(" use %d of closed rows was not refused", i)
				}
			}
			r.logf("scan %d: closed%s", op.T, what)
		}

	case "open":
		r.closeCursor(op.Slot)
		ti, tbl := r.table(op)
		if tbl == nil || !fits(ti, op) {
			return
		}
		rows, err := r.scan(ti, tbl, op, false)
		if err != nil {
			r.logf("open %d: %s", op.T, r.err(err))
			return
		}
		c := &cursor{t: op.T, ti: ti, tbl: tbl, rows: rows}
		c.shadow, err = r.scan(ti, tbl, op, true)
		if err != nil {
			r.logf("open %d: %s", op.T, r.err(err))
			c.shadow = nil
		}
		r.curs[op.Slot] = c

	case "next":
		c := r.curs[op.Slot]
		if c == nil {
			return
		}
		for n := 0; n < max(op.N, 1); n++ {
			row, err := c.rows.Next(bg)
			c.ok = err == nil
			if err == io.EOF {
				r.logf("next %d: end", op.Slot)
				break
			} else if err != nil {
				r.logf("next %d: %s", op.Slot, r.err(err))
				break
			}
			r.logf("next %d: %s", op.Slot, r.give(row))
			if c.shadow != nil {
				srow, err := c.shadow.Next(bg)
				if err != nil {
					r.logf("next %d: shadow: %v", op.Slot, err)
					c.ok = false
				}
				c.row = srow
			} else {
				c.ok = false
			}
		}

	case "upd", "del":
		c := r.curs[op.Slot]
		if c == nil || !c.ok || !fits(c.ti, op) {
			return
		}
		rr, err := c.rows.Current()
		if err != nil {
			r.logf("%s %d: current: %s", op.K, op.Slot, r.err(err))
			return
		}
		r.logf("%s %d: %s", op.K, op.Slot, r.write(c.ti, c.tbl, rr, c.row, op, 0))

	case "ref":
		c := r.curs[op.Slot]
		if c == nil || !c.ok {
			return
		}
		rr, err := c.rows.Current()
		if err != nil {
			r.logf("ref %d: current: %s", op.Slot, r.err(err))
			return
		}
		r.refs[op.N] = &ref{t: c.t, ti: c.ti, tbl: c.tbl, rr: rr, row: c.row}

	case "updref", "delref":
		f := r.refs[op.N]
		if f == nil || !fits(f.ti, op) {
			return
		}
		r.logf("%s %d: %s", op.K, op.N, r.write(f.ti, f.tbl, f.rr, f.row, op, 0))

	case "close":
		r.closeCursor(op.Slot)

	case "updscan", "delscan":
		ti, tbl := r.table(op)
		if tbl == nil || !fits(ti, op) {
			return
		}
		rows, err := r.scan(ti, tbl, op, true)
		if err != nil {
			r.logf("%s %d: %s", op.K, op.T, r.err(err))
			return
		}
		var sb strings.Builder
		for n := 0; ; n++ {
			row, err := rows.Next(bg)
			if err != nil {
				if err != io.EOF {
					sb.WriteString(" " + r.err(err))
				}
				break
			}
			sb.WriteString(" " + r.keep(row))
			if op.N > 0 && n%op.N != 0 {
				continue
			}
			rr, err := rows.Current()
			if err != nil {
				sb.WriteString(" current " + r.err(err))
				break
			}
			s := r.write(ti, tbl, rr, row, op, n)
			sb.WriteString(" " + s)
			if s == "error" && op.Fresh {
				break // give up
			}
		}
		r.logf("%s %d:%s close %s", op.K, op.T, sb.String(), r.err(rows.Close(bg)))

	case "incr":
		ti, tbl := r.table(op)
		if tbl == nil || !fits(ti, op) || len(op.Cols) == 0 {
			return
		}
		key := toRow(op.Min, len(ti.colTypes))
		rows, err := tbl.Rows(bg, colNums(op.Cols), key, key, nil)
		if err != nil {
			r.logf("incr %d: %s", op.T, r.err(err))
			return
		}
		row, err := rows.Next(bg)
		rows.Close(bg)
		n := types.Int64Value(1)
		if err == nil && len(row) > 0 {
			if i, ok := row[0].(types.Int64Value); ok {
				n = i + 1
			}
		}
		r.res.stats[stWrite]++
		r.logf("incr %d: to %d %s", op.T, n, r.upsert(ti, tbl, key, op.Cols[0], n))

	case "copy": // the number of rows in a range, and the sum of a column
		ti, tbl := r.table(op)
		if tbl == nil || !fits(ti, op) || len(op.Cols) != 2 {
			return
		}
		rows, err := tbl.Rows(bg, []types.ColumnNum{types.ColumnNum(op.Cols[0])},
			toRow(op.Min, len(ti.colTypes)), nil, nil)
		if err != nil {
			r.logf("copy %d: %s", op.T, r.err(err))
			return
		}
		var sum types.Int64Value
		for {
			row, err := rows.Next(bg)
			if err != nil || len(row) != 1 {
				break
			}
			if i, ok := row[0].(types.Int64Value); ok {
				sum += i%1000 + 1000
			}
		}
		rows.Close(bg)
		ti2 := r.info(op.T2)
		if ti2 == nil {
			return
		}
		tbl2 := r.open(ti2, op.T2, false)
		if tbl2 == nil {
			return
		}
		if len(op.Rows) != 1 || !fits(ti2, &Op{Cols: op.Cols[1:], Min: op.Rows[0]}) {
			return
		}
		key := toRow(op.Rows[0], len(ti2.colTypes))
		r.res.stats[stWrite]++
		r.logf("copy %d to %d: %d %s", op.T, op.T2, sum, r.upsert(ti2, tbl2, key, op.Cols[1], sum%30000))

	case "create": // T is the definition, with its slot in the directory
		if !r.p.Dyn || op.T == 0 {
			return
		}
		if cur := r.info(op.T); cur != nil {
			r.logf("create %d: exists", op.T)
			return
		}
		ti := r.tis[op.T]
		d := r.open(r.tis[0], 0, false)
		if d == nil {
			return
		}
		r.res.stats[stDDL]++
		err := r.tx.CreateTable(bg, ti.tid, ti.tn, ti.colNames, ti.colTypes, ti.primary)
		r.logf("create %d: %s", op.T, r.err(err))
		if err == nil {
			r.logf("directory: %s", r.err(d.Insert(bg, []types.Row{{types.Int64Value(ti.def.Slot), types.Int64Value(op.T)}})))
		}
		r.drop(ti.def.Slot)

	case "drop":
		if !r.p.Dyn || op.T == 0 {
			return
		}
		ti := r.info(op.T)
		if ti == nil {
			r.logf("drop %d: no table", op.T)
			return
		}
		for slot := 0; slot < maxSlots; slot++ {
			if c := r.curs[slot]; c != nil && c.ti.def.Slot == ti.def.Slot {
				r.closeCursor(slot)
			}
		}
		d := r.open(r.tis[0], 0, false)
		if d == nil {
			return
		}
		r.res.stats[stDDL]++
		err := r.tx.DropTable(bg, ti.tid)
		r.logf("drop %d: %s", op.T, r.err(err))
		if err == nil {
			key := types.Row{types.Int64Value(ti.def.Slot), nil}
			rows, err := d.Rows(bg, nil, key, key, nil)
			if err == nil {
				if _, err = rows.Next(bg); err == nil {
					var rr storage.RowRef
					if rr, err = rows.Current(); err == nil {
						err = rr.Delete(bg)
					}
				}
				rows.Close(bg)
			}
			r.logf("directory: %s", r.err(err))
		}
		r.drop(ti.def.Slot)

	case "info":
		ti, tbl := r.table(op)
		if tbl == nil {
			return
		}
		_ = ti
		r.logf("info %d: tid %d name %s version %d columns %v types %v key %v", op.T, tbl.TID(), tbl.Name(),
			tbl.Version(), tbl.ColumnNames(), tbl.ColumnTypes(), tbl.Key())

	case "wrong":
		ti := r.info(op.T)
		if ti == nil {
			r.logf("wrong: no table")
			return
		}
		r.wrong(ti, op)

	case "valid": // every value of a table may be stored in its column
		ti, tbl := r.table(op)
		if tbl == nil {
			return
		}
		rows, err := tbl.Rows(bg, nil, nil, nil, nil)
		if err != nil {
			r.logf("valid %d: %s", op.T, r.err(err))
			return
		}
		for {
			row, err := rows.Next(bg)
			if err != nil {
				break
			}
			if len(row) != len(ti.colTypes) {
				r.logf("valid %d: row of %d columns", op.T, len(row))
			}
			for c, v := range row {
				// A column left out of an insert is NULL.
				if v != nil && !val.Valid(ti.colTypes[c], v) {
					r.logf("valid %d: column %d: %s is not a %v", op.T, c, val.Format(v), ti.colTypes[c])
				}
			}
		}
		rows.Close(bg)
	}
}

// drop what refers to the tables of a slot.
func (r *run) drop(slot int) {
	for t, ti := range r.tis {
		if ti.def.Slot == slot && t != 0 {
			delete(r.handles, t)
		}
	}
	for n := 0; n < maxSlots; n++ {
		if f := r.refs[n]; f != nil && f.ti.def.Slot == slot {
			delete(r.refs, n)
		}
	}
}

// refused says whether an operation failed with an error or a panic.
func refused(fn func() error) (is bool) {
	defer func() {
		if x := recover(); x != nil {
			is = true
		}
	}()
	return fn() != nil
}

var other = types.ID("other", true)

// wrong tries what has to be refused: tables opened with another definition,
// or which do not exist; created which do; dropped which do not.
func (r *run) wrong(ti *tableInfo, op *Op) {
	none := storage.TableId(0)
	for _, ti := range r.tis {
		none = max(none, ti.tid)
	}
	none += 1 + storage.TableId(op.Slot)
	x := *ti
	x.colNames = append([]types.Identifier(nil), x.colNames...)
	x.colTypes = append([]types.ColumnType(nil), x.colTypes...)
	x.primary = append([]types.ColumnKey(nil), x.primary...)
	c := op.Slot % len(x.colNames)
	k := op.Slot % len(x.primary)
	open := func() error {
		_, err := r.tx.OpenTable(bg, x.tid, x.tn, x.colNames, x.colTypes, x.primary)
		return err
	}
	create := func() error {
		return r.tx.CreateTable(bg, x.tid, x.tn, x.colNames, x.colTypes, x.primary)
	}
	what, fn := "", open
	switch op.N {
	case 0:
		what = "name"
		x.tn.Table = other
	case 1:
		what = "schema"
		x.tn.Schema = other
	case 2:
		what = "column name"
		x.colNames[c] = other
	case 3:
		what = "not null"
		x.colTypes[c].NotNull = !x.colTypes[c].NotNull
	case 4:
		what = "size"
		x.colTypes[c].Size++
	case 5:
		what = "direction"
		x.primary[k] = types.MakeColumnKey(x.primary[k].Column(), !x.primary[k].Reverse())
	case 6:
		what = "columns"
		x.colNames, x.colTypes = x.colNames[:c], x.colTypes[:c]
	case 7:
		what = "key"
		x.primary = x.primary[:k]
	case 8:
		what = "id"
		x.tid = none
	case 9:
		what, fn = "create existing", create
	case 10:
		what, fn = "drop unknown", func() error { return r.tx.DropTable(bg, none) }
	case 11:
		what, fn = "reserved column", create
		x.tid = none
		x.colNames = append(x.colNames, types.ROWID)
		x.colTypes = append(x.colTypes, types.Int64ColType)
	}
	if refused(fn) {
		r.res.stats[stWrong]++
		r.logf("wrong %s: refused", what)
	} else {
		r.logf("wrong %s: ok", what)
	}
}

// complete the transaction: an error, a panic, or ok.
func (r *run) complete(how string) (s string) {
	defer func() {
		if x := recover(); x != nil {
			s = "panic"
		}
	}()
	s = "error"
	var err error
	if how == "commit" {
		err = r.tx.Commit(bg)
	} else {
		err = r.tx.Rollback()
	}
	if err == nil {
		s = "ok"
	}
	return s
}

// use what is left of a transaction which has completed: whatever is tried may
// be refused in any way, and none of it has an effect on the store.
func (r *run) use(tx storage.Transaction) {
	if _, ok := tx.(*mtx); ok {
		return
	}
	try := func(fn func() error) {
		if refused(fn) {
			r.res.stats[stRefused]++
		}
	}
	var ns []int
	for n := range r.refs {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	for i, n := range ns {
		ref := r.refs[n]
		if i%2 == 0 {
			try(func() error { return ref.rr.Delete(bg) })
			continue
		}
		var cols []types.ColumnNum
		for c := range ref.ti.colTypes {
			cols = append(cols, types.ColumnNum(c))
		}
		try(func() error { return ref.rr.Update(bg, cols, staleRow(ref.ti)) })
	}
	for t, ti := range r.tis {
		tbl := r.handles[t]
		if tbl == nil {
			try(func() error { return tx.DropTable(bg, ti.tid) })
			continue
		}
		try(func() error { return tbl.Insert(bg, []types.Row{staleRow(ti)}) })
		try(func() error {
			rows, err := tbl.Rows(bg, nil, nil, nil, nil)
			if err != nil {
				return err
			}
			for {
				if _, err = rows.Next(bg); err != nil {
					return err
				}
				rr, err := rows.Current()
				if err == nil {
					err = rr.Delete(bg)
				}
				if err != nil {
					return err
				}
			}
		})
		try(func() error {
			_, err := tx.OpenTable(bg, ti.tid, ti.tn, ti.colNames, ti.colTypes, ti.primary)
			return err
		})
		try(func() error {
			return tx.CreateTable(bg, ti.tid+3000, ti.tn, ti.colNames, ti.colTypes, ti.primary)
		})
		try(func() error { return tx.DropTable(bg, ti.tid) })
	}
	try(func() error { tx.NextStmt(); return errModel })
}

func staleRow(ti *tableInfo) types.Row {
	row := make(types.Row, len(ti.colTypes))
	for c, ct := range ti.colTypes {
		switch ct.Type {
		case types.BoolType:
			row[c] = types.BoolValue(true)
		case types.StringType:
			row[c] = types.StringValue("z")
		case types.BytesType:
			row[c] = types.BytesValue("z")
		case types.Float64Type:
			row[c] = types.Float64Value(77.5)
		default:
			row[c] = types.Int64Value(77)
		}
	}
	return row
}

// transact interprets a transaction.
func transact(p *Plan, tis []*tableInfo, st storage.Store, txn *Txn, res *result) {
	res.call = sim.Seq()
	r := &run{p: p, tis: tis, st: st, res: res, handles: map[int]storage.Table{}, curs: map[int]*cursor{},
		refs: map[int]*ref{}}
	r.tx = st.Begin()
	tx := r.tx
	for i := range txn.Ops {
		r.op(&txn.Ops[i])
		if i%5 == 4 {
			r.tx.NextStmt()
		}
	}
	if len(r.curs) > 0 {
		for _, how := range txn.Early {
			s := r.complete(how)
			if s != "ok" {
				s = "refused"
			}
			r.logf("early %s: %s", how, s)
			if s == "refused" {
				res.stats[stRefused]++
			} else {
				res.ret = sim.Seq()
				return
			}
		}
	}
	r.closeAll(-1)
	for _, h := range r.held {
		if s := val.FormatRow(h.row); s != h.text {
			r.logf("a row which was read changed from %s to %s", h.text, s)
		}
	}
	for i, h := range r.held {
		if i%2 == 0 {
			reuse(h.row)
		}
	}
	r.logf("%s: %s", txn.End, r.complete(txn.End))
	res.ret = sim.Seq()
	for i, h := range r.held {
		if i%2 != 0 {
			reuse(h.row)
		}
	}
	for _, how := range txn.After {
		if how == "use" {
			r.use(tx)
			continue
		}
		s := r.complete(how)
		r.logf("after %s: %s", how, s)
		if s != "ok" {
			res.stats[stRefused]++
		}
	}
}

func equalLogs(a, b []string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) != len(b) {
		return min(len(a), len(b))
	}
	return -1
}

func at(log []string, i int) string {
	if i < len(log) {
		return log[i]
	}
	return "(nothing)"
}

// finalTxn reads everything.
func (p *Plan) finalTxn() *Txn {
	t := &Txn{End: "commit"}
	for i := range p.Defs {
		t.Ops = append(t.Ops, Op{K: "info", T: i}, Op{K: "scan", T: i}, Op{K: "valid", T: i})
	}
	return t
}

func (p *Plan) setup(st storage.Store, tis []*tableInfo) error {
	for n := 0; n < p.Virgin; n++ {
		tx := st.Begin()
		used := map[storage.TableId]bool{}
		for i, ti := range tis {
			if used[ti.tid] || (i+n)%3 == 2 {
				continue
			}
			used[ti.tid] = true
			if err := tx.CreateTable(bg, ti.tid, ti.tn, ti.colNames, ti.colTypes, ti.primary); err != nil {
				return err
			}
			if i < len(p.Init) && len(p.Init[i]) > 0 {
				tbl, err := tx.OpenTable(bg, ti.tid, ti.tn, ti.colNames, ti.colTypes, ti.primary)
				if err != nil {
					return err
				}
				tbl.Insert(bg, []types.Row{inRow(p.Init[i][0])})
			}
		}
		if err := tx.Rollback(); err != nil {
			return err
		}
	}
	tx := st.Begin()
	for i, ti := range tis {
		if p.Dyn && i > 0 {
			continue
		}
		if err := tx.CreateTable(bg, ti.tid, ti.tn, ti.colNames, ti.colTypes, ti.primary); err != nil {
			return err
		}
		if i < len(p.Init) && len(p.Init[i]) > 0 {
			tbl, err := tx.OpenTable(bg, ti.tid, ti.tn, ti.colNames, ti.colTypes, ti.primary)
			if err != nil {
				return err
			}
			for _, vs := range p.Init[i] {
				tbl.Insert(bg, []types.Row{inRow(vs)}) // duplicates are left out
			}
		}
	}
	return tx.Commit(bg)
}

// Simulate the plan with the real store.
func (p *Plan) simulate(e *core.Env) ([]*result, bool) {
	var st storage.Store
	var tis []*tableInfo
	per := make([][]*result, len(p.Clients)+1)
	var clients []core.Client
	for c := range p.Clients {
		c := c
		for i := range p.Clients[c] {
			per[c] = append(per[c], &result{client: c, txn: &p.Clients[c][i]})
		}
		clients = append(clients, core.Client{Name: fmt.Sprintf("client%d", c), Fn: func() {
			for _, res := range per[c] {
				transact(p, tis, st, res.txn, res)
			}
		}})
	}
	final := &result{client: len(p.Clients), txn: p.finalTxn()}
	per[len(p.Clients)] = []*result{final}
	var serr error
	ok := e.RunTasks(p, func() {
		st, _ = basic.NewStore("")
		tis = p.infos(st)
		serr = p.setup(st, tis)
	}, clients, func() {
		transact(p, tis, st, final.txn, final)
	})
	if serr != nil {
		e.Fail("setup", "setup: %v", serr)
		return nil, false
	}
	var all []*result
	for _, rs := range per {
		all = append(all, rs...)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].ret < all[j].ret })
	for _, res := range all {
		for i, n := range res.stats {
			if n > 0 {
				e.Count(statNames[i], int64(n))
			}
		}
		for _, l := range res.log {
			e.Mix(l)
		}
		if e.Verbose {
			e.Logf("client %d: transaction [%d, %d]", res.client, res.call, res.ret)
			for _, l := range res.log {
				e.Logf("    %s", l)
			}
		}
	}
	return all, ok
}

// judge compares what the transactions saw with the model: some serial order,
// which agrees with real time, explains all of them.
func (p *Plan) judge(e *core.Env, all []*result) {
	ms := &mstore{m: &model{tables: map[storage.TableId]*mtable{}}}
	tis := p.infos(ms)
	if err := p.setup(ms, tis); err != nil {
		panic("storecheck: setup of the model: " + err.Error())
	}
	init := ms.m

	apply := func(m *model, txn *Txn) (*model, []string) {
		ms := &mstore{m: m}
		var res result
		transact(p, tis, ms, txn, &res)
		return ms.m, res.log
	}

	m := init
	overlap := false
	var bad *result
	var badMsg string
	for _, res := range all {
		for _, o := range all {
			if o.client != res.client && o.call < res.ret && res.call < o.ret {
				overlap = true
			}
		}
		var log []string
		m, log = apply(m, res.txn)
		if i := equalLogs(res.log, log); i >= 0 {
			bad = res
			badMsg = fmt.Sprintf("client %d: got %q, expected %q", res.client, at(res.log, i), at(log, i))
			break
		}
	}
	if overlap {
		e.Count("runs with overlapping transactions", 1)
	}
	if bad == nil {
		return
	}
	if !overlap {
		e.Fail("model", "a transaction saw or did something else than the model: %s", badMsg)
		return
	}
	var ops []porcupine.Operation
	for _, res := range all {
		ops = append(ops, porcupine.Operation{ClientId: res.client, Input: res.txn, Call: res.call,
			Output: res.log, Return: res.ret})
	}
	pm := porcupine.Model{
		Init: func() any { return init },
		Step: func(state, input, output any) (bool, any) {
			m, log := apply(state.(*model), input.(*Txn))
			return equalLogs(log, output.([]string)) < 0, m
		},
		Equal: func(a, b any) bool { return a.(*model).Dump() == b.(*model).Dump() },
	}
	switch porcupine.CheckOperationsTimeout(pm, ops, 20*time.Second) {
	case porcupine.Illegal:
		e.Fail("model", "no serial order of the transactions explains what they saw; in the order of their ends: %s", badMsg)
	case porcupine.Unknown:
		e.Count("histories not decided in time", 1)
	}
}
