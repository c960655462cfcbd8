package enginecheck

import (
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
	"verif/harness/core"
	"verif/harness/fault"
	"verif/harness/lin"
	"verif/harness/val"
	"verifsim/sim"
)

// Field of a struct type made for a run.
type Field struct {
	K    string `json:"k"` // kind
	P    bool   `json:"p,omitempty"`
	N    bool   `json:"n,omitempty"` // notnull (bytes)
	Size int    `json:"size,omitempty"`
	Key  bool   `json:"key,omitempty"`
}

type TypedOp struct {
	K     string    `json:"k"` // insert, lookup, select, update, delete
	T     int       `json:"t"`
	Rows  [][]val.V `json:"rows,omitempty"`
	Min   []val.V   `json:"min,omitempty"`
	Max   []val.V   `json:"max,omitempty"`
	Cols  []int     `json:"cols,omitempty"` // updated
	Vals  [][]val.V `json:"vals,omitempty"` // of each visit
	Skip  []bool    `json:"skip,omitempty"`
	Stop  int       `json:"stop,omitempty"` // visit (from 1) at which the caller's function fails
	EOF   bool      `json:"eof,omitempty"`  // with io.EOF
	Nest  int       `json:"nest,omitempty"` // visit in which the table is read by another select
	Fault *fault.F  `json:"fault,omitempty"`
}

type TypedTxn struct {
	Ops []TypedOp `json:"ops"`
	End string    `json:"end"`
}

type TypedPlan struct {
	core.Common
	Tables  [][]Field    `json:"tables"`
	Clients [][]TypedTxn `json:"clients"`
}

type (
	myBool   bool
	myInt    int32
	myString string
	myBytes  []byte
	myFloat  float32
)

var kindTypes = map[string]reflect.Type{
	"bool": reflect.TypeOf(false), "int": reflect.TypeOf(0), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)),
	"int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)), "float32": reflect.TypeOf(float32(0)),
	"float64": reflect.TypeOf(float64(0)), "string": reflect.TypeOf(""), "bytes": reflect.TypeOf([]byte{}),
	"mybool": reflect.TypeOf(myBool(false)), "myint": reflect.TypeOf(myInt(0)), "mystring": reflect.TypeOf(myString("")),
	"mybytes": reflect.TypeOf(myBytes{}), "myfloat": reflect.TypeOf(myFloat(0)),
}

var fieldNames = []string{"Aaa", "BbbCcc", "ID", "XYZAbc", "Eee", "F5", "Ggg_h", "Hhh"}

func (f Field) base() types.ValueType {
	switch strings.TrimPrefix(f.K, "my") {
	case "bool":
		return types.BoolType
	case "string":
		return types.StringType
	case "bytes":
		return types.BytesType
	case "float32", "float64", "float":
		return types.Float64Type
	}
	return types.Int64Type
}

func (f Field) null() bool {
	if f.base() == types.BytesType {
		return !f.N
	}
	return f.P
}

func structType(fs []Field) reflect.Type {
	var sfs []reflect.StructField
	for i, f := range fs {
		t := kindTypes[f.K]
		if f.P {
			t = reflect.PointerTo(t)
		}
		var tags []string
		if f.Size > 0 {
			tags = append(tags, fmt.Sprintf("size=%d", f.Size))
		}
		if f.Key {
			tags = append(tags, "primary")
		}
		if f.N {
			tags = append(tags, "notnull")
		}
		name := fmt.Sprintf("Fld%d", i)
		if i < len(fieldNames) {
			name = fieldNames[i]
		}
		sf := reflect.StructField{Name: name, Type: t}
		if tags != nil {
			sf.Tag = reflect.StructTag(fmt.Sprintf("maho:%q", strings.Join(tags, ",")))
		}
		sfs = append(sfs, sf)
	}
	return reflect.StructOf(sfs)
}

func setField(fv reflect.Value, v val.V) {
	x := v.Value()
	if x == nil {
		fv.SetZero()
		return
	}
	if fv.Kind() == reflect.Pointer {
		fv.Set(reflect.New(fv.Type().Elem()))
		fv = fv.Elem()
	}
	switch x := x.(type) {
	case types.BoolValue:
		fv.SetBool(bool(x))
	case types.Int64Value:
		fv.SetInt(int64(x))
	case types.Float64Value:
		fv.SetFloat(float64(x))
	case types.StringValue:
		fv.SetString(string(x))
	case types.BytesValue:
		fv.SetBytes(append([]byte{}, x...))
	}
}

// makeStruct with the values; a pointer to it.
func makeStruct(t reflect.Type, vs []val.V) any {
	if vs == nil {
		return nil
	}
	pv := reflect.New(t)
	for i, v := range vs {
		setField(pv.Elem().Field(i), v)
	}
	return pv.Interface()
}

func getField(fv reflect.Value) types.Value {
	if fv.Kind() == reflect.Pointer {
		if fv.IsNil() {
			return nil
		}
		fv = fv.Elem()
	}
	switch fv.Kind() {
	case reflect.Bool:
		return types.BoolValue(fv.Bool())
	case reflect.String:
		return types.StringValue(fv.String())
	case reflect.Slice:
		if fv.IsNil() {
			return nil
		}
		return types.BytesValue(fv.Bytes())
	case reflect.Float32, reflect.Float64:
		return types.Float64Value(fv.Float())
	}
	return types.Int64Value(fv.Int())
}

func structText(st any, fs []Field) string {
	v := reflect.ValueOf(st).Elem()
	var row []types.Value
	for i, f := range fs {
		x := getField(v.Field(i))
		if x == nil && f.base() == types.BytesType && f.N {
			x = types.BytesValue("")
		}
		row = append(row, x)
	}
	return val.FormatRow(row)
}

func genField(r *sim.Rand) Field {
	f := Field{K: sim.Pick(r, "bool", "int", "int8", "int16", "int32", "int64", "float32", "float64", "string", "string", "bytes",
		"mybool", "myint", "mystring", "mybytes", "myfloat")}
	switch f.base() {
	case types.BytesType:
		f.N = r.Chance(1, 2)
		f.Size = sim.Pick(r, 0, 1, 8, 100)
	case types.StringType:
		f.P = r.Chance(1, 3)
		f.Size = sim.Pick(r, 0, 1, 8, 100)
	default:
		f.P = r.Chance(1, 3)
	}
	return f
}

func genV(r *sim.Rand, f Field, pool int) val.V {
	ct := types.ColumnType{Type: f.base(), Size: uint32(max(f.Size, 1)), NotNull: !f.null()}
	if f.base() == types.Int64Type {
		if f.null() && r.Chance(1, 6) {
			return "n"
		}
		t := kindTypes[f.K]
		bits := t.Bits()
		if r.Chance(1, 12) {
			return val.Int(sim.Pick(r, int64(-1)<<(bits-1), -(int64(-1)<<(bits-1) + 1)))
		}
		n := pool & 0xff
		if wide := pool >> 20; wide > 0 && r.Chance(9, 10) {
			n = min(wide, 1<<(bits-1)-1)
		}
		return val.Int(int64(r.Intn(n) - 1))
	}
	v := val.Gen(r, ct, pool)
	if f.base() == types.Float64Type && v != "n" && kindTypes[f.K].Bits() == 32 {
		v = val.Float(float64(float32(v.Value().(types.Float64Value))))
	}
	return v
}

func genTyped(r *sim.Rand, big bool) *TypedPlan {
	p := &TypedPlan{}
	var pools []int
	// Some runs are larger than the others in one way.
	scale := ""
	if r.Chance(1, 60) {
		scale = sim.Pick(r, "rows", "fields", "tables", "txns", "ops", "clients")
		p.Max = 50000000
	}
	size := func(lo, hi int, what string, times int) int {
		n := r.Range(lo, hi)
		if scale == what {
			n = n*times + r.Intn(times)
		}
		return n
	}
	for n := size(1, 2, "tables", 5); n > 0; n-- {
		var fs []Field
		nf := size(1, 6, "fields", 12)
		for i := 0; i < nf; i++ {
			fs = append(fs, genField(r))
		}
		fs[r.Intn(nf)].Key = true
		if r.Chance(1, 2) {
			fs[r.Intn(nf)].Key = true
		}
		for nf > 2 && r.Chance(1, 4) {
			fs[r.Intn(nf)].Key = true
		}
		p.Tables = append(p.Tables, fs)
		pool := r.Range(2, 14)
		if scale == "rows" || scale != "" && r.Chance(1, 2) {
			pool = val.Wide(pool, 3000)
		}
		pools = append(pools, pool)
	}
	row := func(t int) []val.V {
		var vs []val.V
		for _, f := range p.Tables[t] {
			vs = append(vs, genV(r, f, pools[t]))
		}
		return vs
	}
	faults := sim.Pick(r, 0, 0, 15)
	nc := size(1, 3, "clients", 3)
	for c := 0; c < nc; c++ {
		var txns []TypedTxn
		for n := size(1, 4, "txns", 4); n > 0; n-- {
			txn := TypedTxn{End: sim.Pick(r, "commit", "commit", "commit", "rollback")}
			for n := size(1, 7, "ops", 6); n > 0; n-- {
				t := r.Intn(len(p.Tables))
				fs := p.Tables[t]
				o := TypedOp{T: t, K: sim.Pick(r, "insert", "insert", "insert", "lookup", "select", "select", "update", "update", "delete")}
				switch o.K {
				case "insert":
					n := r.Range(1, 4)
					if r.Chance(1, 12) {
						n = r.Range(5, 20)
					}
					if scale == "rows" && r.Chance(1, 2) {
						n = r.Range(20, 300)
					}
					for ; n > 0; n-- {
						o.Rows = append(o.Rows, row(t))
					}
				case "lookup":
					o.Min = row(t)
				default:
					if r.Chance(1, 2) {
						o.Min = row(t)
					}
					if r.Chance(1, 2) {
						o.Max = row(t)
					} else if o.Min != nil && r.Chance(1, 4) {
						o.Max = o.Min
					}
					if r.Chance(1, 4) {
						o.Stop = r.Range(1, 4)
						if scale == "rows" {
							o.Stop = r.Range(1, 300)
						}
						o.EOF = r.Chance(1, 2)
					}
				}
				if o.K != "insert" && o.K != "lookup" && r.Chance(1, 6) {
					o.Nest = r.Range(1, 3)
				}
				if o.K == "update" || o.K == "delete" {
					for i := 0; i < 3; i++ {
						o.Skip = append(o.Skip, r.Chance(1, 4))
					}
				}
				if o.K == "update" {
					for i := range fs {
						if r.Chance(1, 2) {
							o.Cols = append(o.Cols, i)
						}
					}
					if len(o.Cols) == 0 {
						o.Cols = []int{r.Intn(len(fs))}
					}
					for i := 0; i < 3; i++ {
						var vs []val.V
						for _, c := range o.Cols {
							vs = append(vs, genV(r, fs[c], pools[t]))
						}
						o.Vals = append(o.Vals, vs)
					}
				}
				if r.Chance(faults, 100) {
					o.Fault = &fault.F{N: sim.Pick(r, r.Range(1, 4), r.Range(1, 16)), After: r.Chance(1, 4), Sticky: r.Chance(1, 3)}
				}
				txn.Ops = append(txn.Ops, o)
			}
			txns = append(txns, txn)
		}
		p.Clients = append(p.Clients, txns)
	}
	p.Sched = core.GenSched(r, nc+1, sim.Pick(r, 500, 2000, 10000))
	return p
}

var errCaller = errors.New("the caller's error")

// typedRes is what one operation did.
type typedRes struct {
	visits []string
	err    string // "", EOF, caller, storage, other
	fault  bool
	first  string
	note   string
	open   bool
}

type typedUnit struct {
	txn *TypedTxn
	res []typedRes
	end string // how it ended
	bad string
}

type typedRun struct {
	p     *TypedPlan
	st    *fault.Store
	infos []*engine.TypedInfo
	typs  []reflect.Type
}

func errText(err error) string {
	switch {
	case err == nil:
		return ""
	case err == io.EOF:
		return "EOF"
	case errors.Is(err, errCaller):
		return "caller"
	case errors.Is(err, fault.Err):
		return "storage"
	}
	return "other"
}

func (tr *typedRun) op(tx storage.Transaction, o *TypedOp) (res typedRes) {
	t := tr.st.Arm(o.Fault)
	ti := tr.infos[o.T]
	typ := tr.typs[o.T]
	fs := tr.p.Tables[o.T]
	n := 0
	// What was in the struct does not matter, and a copy made of it is not
	// changed by the next row.
	st := makeJunk(typ)
	var copies []any
	visit := func(row types.Row) error {
		ti.RowToStruct(row, st)
		res.visits = append(res.visits, structText(st, fs))
		cp := reflect.New(typ)
		cp.Elem().Set(reflect.ValueOf(st).Elem())
		copies = append(copies, cp.Interface())
		n++
		if n == o.Nest && o.Fault == nil {
			text := res.visits[n-1]
			seen := false
			st2 := makeJunk(typ)
			err := engine.TypedTableSelect(bg, tx, ti, makeStruct(typ, nil), makeStruct(typ, nil), func(row types.Row) error {
				ti.RowToStruct(row, st2)
				if structText(st2, fs) == text {
					seen = true
				}
				return nil
			})
			if err != nil {
				return err
			}
			if !seen {
				res.note = fmt.Sprintf("%s: a select inside of it does not see the row %s", o.K, text)
			}
			ti.RowToStruct(row, st2)
			if s := structText(st2, fs); s != text {
				res.note = fmt.Sprintf("%s: after a select inside of it the row %s is %s", o.K, text, s)
			}
		}
		if n == o.Stop {
			if o.EOF {
				return io.EOF
			}
			return errCaller
		}
		return nil
	}
	var err error
	switch o.K {
	case "insert":
		var sts []any
		for _, vs := range o.Rows {
			sts = append(sts, makeStruct(typ, vs))
		}
		err = engine.TypedTableInsert(bg, tx, ti, sts...)
		for _, st := range sts { // are the caller's again
			scribble(st)
		}
	case "lookup":
		st := makeStruct(typ, o.Min)
		was := reflect.New(typ)
		was.Elem().Set(reflect.ValueOf(st).Elem())
		text := structText(st, fs)
		err = engine.TypedTableLookup(bg, tx, ti, st)
		if err == nil {
			res.visits = append(res.visits, structText(st, fs))
			copies = append(copies, st)
		}
		if s := structText(was.Interface(), fs); s != text {
			res.note = fmt.Sprintf("lookup: what the key %s referred to is %s afterwards", text, s)
		}
	case "select":
		err = engine.TypedTableSelect(bg, tx, ti, makeStruct(typ, o.Min), makeStruct(typ, o.Max), visit)
	case "update":
		var sfs []reflect.StructField
		for _, c := range o.Cols {
			sf := typ.Field(c)
			sf.Tag, sf.Index, sf.Offset = "", nil, 0
			sfs = append(sfs, sf)
		}
		ut := reflect.StructOf(sfs)
		err = engine.TypedTableUpdate(bg, tx, ti, makeStruct(typ, o.Min), makeStruct(typ, o.Max), func(row types.Row) (any, error) {
			i := n
			if err := visit(row); err != nil {
				return nil, err
			}
			if o.Skip[i%len(o.Skip)] {
				return nil, nil
			}
			return makeStruct(ut, o.Vals[i%len(o.Vals)]), nil
		})
	case "delete":
		err = engine.TypedTableDelete(bg, tx, ti, makeStruct(typ, o.Min), makeStruct(typ, o.Max), func(row types.Row) (bool, error) {
			i := n
			if err := visit(row); err != nil {
				return false, err
			}
			return !o.Skip[i%len(o.Skip)], nil
		})
	}
	for i, cp := range copies {
		if s := structText(cp, fs); s != res.visits[i] {
			res.note = fmt.Sprintf("%s: a row read as %s is %s afterwards", o.K, res.visits[i], s)
		}
	}
	for _, cp := range copies { // they are the caller's
		scribble(cp)
	}
	res.err = errText(err)
	res.fault = tr.st.Disarm()
	res.first = t.First
	if t.Rows != 0 {
		res.open = true
		res.note = fmt.Sprintf("%s left %d rows open", o.K, t.Rows)
	}
	return res
}

// makeJunk fills a struct with something.
func makeJunk(typ reflect.Type) any {
	pv := reflect.New(typ)
	for i := 0; i < typ.NumField(); i++ {
		fv := pv.Elem().Field(i)
		if fv.Kind() == reflect.Pointer {
			fv.Set(reflect.New(fv.Type().Elem()))
			fv = fv.Elem()
		}
		switch fv.Kind() {
		case reflect.Bool:
			fv.SetBool(true)
		case reflect.String:
			fv.SetString("junk")
		case reflect.Slice:
			fv.SetBytes([]byte("junk"))
		case reflect.Float32, reflect.Float64:
			fv.SetFloat(77)
		default:
			fv.SetInt(77)
		}
	}
	return pv.Interface()
}

// scribble over the memory which a struct refers to.
func scribble(st any) {
	v := reflect.ValueOf(st).Elem()
	for i := 0; i < v.NumField(); i++ {
		fv := v.Field(i)
		if fv.Kind() == reflect.Slice {
			for j := range fv.Bytes() {
				fv.Bytes()[j] = 'J'
			}
		}
	}
}

func (tr *typedRun) txn(u *typedUnit) {
	tx := tr.st.Begin()
	u.end = u.txn.End
	for i := range u.txn.Ops {
		res := tr.op(tx, &u.txn.Ops[i])
		u.res = append(u.res, res)
		if res.note != "" {
			u.bad = res.note
			if !res.open {
				u.end = "rollback"
				break
			}
			return // the rows are open, the transaction can't be completed
		}
		if res.fault && res.err == "" && res.first != "Close" {
			u.bad = fmt.Sprintf("%s: an error of %s was not returned", u.txn.Ops[i].K, res.first)
		}
		if res.fault && res.err != "" {
			u.end = "rollback" // the operation may have been done in part
			break
		}
	}
	var err error
	if u.end == "commit" {
		err = tx.Commit(bg)
	} else {
		err = tx.Rollback()
	}
	if err != nil {
		u.bad = fmt.Sprintf("%s: %v", u.end, err)
	}
}

// The model.
type typedModel struct{ rows [][]types.Row }

func (p *TypedPlan) compare(t int, a, b types.Row) int {
	for c, f := range p.Tables[t] {
		if f.Key {
			if x := val.CompareKey(a[c], b[c], false); x != 0 {
				return x
			}
		}
	}
	return 0
}

func (p *TypedPlan) row(t int, vs []val.V) types.Row {
	var row types.Row
	for i, v := range vs {
		x := v.Value()
		if b, ok := x.(types.BytesValue); ok && b == nil {
			x = types.BytesValue("")
		}
		_ = i
		row = append(row, x)
	}
	return row
}

func (p *TypedPlan) find(t int, rows []types.Row, r types.Row) int {
	for i := range rows {
		if p.compare(t, rows[i], r) == 0 {
			return i
		}
	}
	return -1
}

func (p *TypedPlan) text(t int, r types.Row) string { return val.FormatRow(r) }

// apply an operation to the model, and compare what it did.
func (p *TypedPlan) apply(m *typedModel, o *TypedOp, res *typedRes) string {
	t := o.T
	rows := m.rows[t]
	bad := func(format string, args ...any) string {
		return fmt.Sprintf("%s of table %d: visited %v, error %q: ", o.K, t, res.visits, res.err) + fmt.Sprintf(format, args...)
	}
	wantErr := ""
	var want []string
	sel := func() []types.Row {
		var rs []types.Row
		for _, r := range rows {
			if o.Min != nil && p.compare(t, r, p.row(t, o.Min)) < 0 {
				continue
			}
			if o.Max != nil && p.compare(t, r, p.row(t, o.Max)) > 0 {
				continue
			}
			rs = append(rs, r)
		}
		return rs
	}
	switch o.K {
	case "insert":
		nr := append([]types.Row(nil), rows...)
		for _, vs := range o.Rows {
			r := p.row(t, vs)
			if p.find(t, nr, r) >= 0 {
				wantErr = "other"
				break
			}
			nr = append(nr, r)
		}
		if wantErr == "" {
			rows = nr
		}
	case "lookup":
		if i := p.find(t, rows, p.row(t, o.Min)); i >= 0 {
			want = append(want, p.text(t, rows[i]))
		} else {
			wantErr = "EOF"
		}
	default:
		rows = append([]types.Row(nil), rows...)
	loop:
		for i, r := range sel() {
			want = append(want, p.text(t, r))
			if i+1 == o.Stop {
				if !o.EOF {
					wantErr = "caller"
				}
				break
			}
			if o.K == "select" || o.Skip[i%len(o.Skip)] {
				continue
			}
			at := p.find(t, rows, r)
			rest := append(append([]types.Row(nil), rows[:at]...), rows[at+1:]...)
			if o.K == "delete" {
				rows = rest
				continue
			}
			n := append(types.Row(nil), r...)
			vs := p.row(t, o.Vals[i%len(o.Vals)])
			for j, c := range o.Cols {
				n[c] = vs[j]
			}
			if p.compare(t, n, r) != 0 && p.find(t, rows, n) >= 0 {
				wantErr = "other"
				break loop
			}
			rows = append(rest, n)
		}
	}
	sort.SliceStable(rows, func(i, j int) bool { return p.compare(t, rows[i], rows[j]) < 0 })
	if res.fault && (res.err == "storage" || res.err == "other") {
		// Rolled back; what was visited is right, up to where it failed.
		for i, s := range res.visits {
			if o.K != "lookup" && (i >= len(want) || want[i] != s) {
				return bad("expected to visit %v", want)
			}
		}
		return ""
	}
	if res.err != wantErr {
		return bad("expected to visit %v, error %q", want, wantErr)
	}
	if fmt.Sprint(res.visits) != fmt.Sprint(want) {
		return bad("expected to visit %v", want)
	}
	m.rows[t] = rows
	return ""
}

func (p *TypedPlan) run(e *core.Env) {
	st, _ := basic.NewStore("")
	tr := &typedRun{p: p, st: fault.New(st)}
	for i, fs := range p.Tables {
		tr.typs = append(tr.typs, structType(fs))
		_ = i
	}
	var serr error
	per := make([][]*lin.Unit, len(p.Clients)+1)
	do := func(c int, txn *TypedTxn) {
		u := &typedUnit{txn: txn}
		lu := &lin.Unit{Client: c, Call: sim.Seq(), Data: u}
		per[c] = append(per[c], lu)
		tr.txn(u)
		lu.Ret = sim.Seq()
	}
	var clients []core.Client
	for c := range p.Clients {
		c := c
		clients = append(clients, core.Client{Name: fmt.Sprintf("client%d", c), Fn: func() {
			for i := range p.Clients[c] {
				do(c, &p.Clients[c][i])
			}
		}})
	}
	final := &TypedTxn{End: "commit"}
	for t := range p.Tables {
		final.Ops = append(final.Ops, TypedOp{K: "select", T: t})
	}
	ok := e.RunTasks(p, func() {
		tx := tr.st.Begin()
		for i := range p.Tables {
			tn := types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: types.ID(fmt.Sprintf("typed%d", i), true)}
			ti := engine.MakeTypedInfo(storage.TableId(600+i), tn, reflect.New(tr.typs[i]).Elem().Interface())
			tr.infos = append(tr.infos, ti)
			if err := engine.CreateTypedTable(bg, tx, ti); err != nil {
				serr = err
			}
		}
		if err := tx.Commit(bg); err != nil {
			serr = err
		}
	}, clients, func() { do(len(p.Clients), final) })
	if serr != nil {
		e.Fail("setup", "%v", serr)
	}
	tr.st.Count(e.Count)
	var all []*lin.Unit
	visits := 0
	for _, us := range per {
		for _, lu := range us {
			u := lu.Data.(*typedUnit)
			for i, r := range u.res {
				s := fmt.Sprintf("%s: visited %v, error %q, storage failed %v", u.txn.Ops[i].K, r.visits, r.err, r.fault)
				e.Mix(s)
				e.Logf("client %d: %s", lu.Client, s)
				visits += len(r.visits)
				if r.err == "caller" {
					e.Count("fault error of the caller's function", 1)
				}
			}
			if u.end == "rollback" {
				e.Count("fault rollback", 1)
			}
			if u.bad != "" && ok {
				e.Fail("model", "client %d: %s", lu.Client, u.bad)
			}
			all = append(all, lu)
		}
	}
	if !ok || serr != nil || e.Viol != nil {
		return
	}
	if s := tr.st.Leaks(); s != "" {
		e.Fail("leak", "%s", s)
	}
	e.Count("rows visited", int64(visits))
	e.Nontriv = visits > 2
	lin.Judge(e, &lin.Model{
		Init: &typedModel{rows: make([][]types.Row, len(p.Tables))},
		Apply: func(state any, lu *lin.Unit) (any, string) {
			m := state.(*typedModel)
			n := &typedModel{rows: append([][]types.Row(nil), m.rows...)}
			u := lu.Data.(*typedUnit)
			for i := range u.res {
				if s := p.apply(n, &u.txn.Ops[i], &u.res[i]); s != "" {
					return m, fmt.Sprintf("client %d: %s", lu.Client, s)
				}
			}
			if u.end == "commit" {
				return n, ""
			}
			return m, ""
		},
		Dump: func(state any) string {
			var sb strings.Builder
			for _, rows := range state.(*typedModel).rows {
				for _, r := range rows {
					sb.WriteString(val.FormatRow(r))
				}
				sb.WriteByte('\n')
			}
			return sb.String()
		},
	}, all)
}

func init() {
	_ = math.NaN
	core.Register(&core.Check{
		ID:    "C15",
		Rule:  "structs of types made for the run are inserted, looked up, selected, updated, and deleted, by callers whose functions stop or fail, and with failing storage calls; non-trivial: at least three rows were visited",
		Real:  realParts,
		Stub:  stubParts,
		Quick: 100000,
		New:   func() core.Plan { return &TypedPlan{} },
		Gen:   func(r *sim.Rand, big bool) core.Plan { return genTyped(r, big) },
		Run:   func(cp core.Plan, e *core.Env) { cp.(*TypedPlan).run(e) },
		Shrink: func(cp core.Plan, emit func(core.Plan)) {
			p := cp.(*TypedPlan)
			clone := func() *TypedPlan { return core.Clone(p.Prop, p) }
			for c := range p.Clients {
				q := clone()
				q.Clients = append(q.Clients[:c], q.Clients[c+1:]...)
				emit(q)
			}
			for c := range p.Clients {
				for t := range p.Clients[c] {
					q := clone()
					q.Clients[c] = append(q.Clients[c][:t], q.Clients[c][t+1:]...)
					emit(q)
				}
			}
			for c := range p.Clients {
				for t := range p.Clients[c] {
					for i := range p.Clients[c][t].Ops {
						q := clone()
						ops := q.Clients[c][t].Ops
						q.Clients[c][t].Ops = append(ops[:i], ops[i+1:]...)
						emit(q)
						o := &p.Clients[c][t].Ops[i]
						if o.Fault != nil {
							q := clone()
							q.Clients[c][t].Ops[i].Fault = nil
							emit(q)
						}
						for j := range o.Rows {
							q := clone()
							qo := &q.Clients[c][t].Ops[i]
							qo.Rows = append(qo.Rows[:j], qo.Rows[j+1:]...)
							emit(q)
						}
					}
				}
			}
		},
		Assume: []string{"strings and bytes in structs are not longer than the declared size (a panic by design)"},
	})
}
