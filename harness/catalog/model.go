// Package catalog is a model of the catalog: a sequential one, in which some
// objects may or may not exist (what maho leaves open, and what an operation
// failing within a transaction leaves behind).
package catalog

import (
	"fmt"
	"sort"
	"strings"

	"github.com/leftmike/maho/types"
	"verif/harness/core"
	"verif/harness/fault"
	"verif/harness/lin"
)

// Name in a plan; Q: quoted.
type Name struct {
	S string `json:"s"`
	Q bool   `json:"q,omitempty"`
}

// Key is the name that the identifier has.
func (n Name) Key() string {
	s := n.S
	if !n.Q {
		s = strings.ToLower(s)
	}
	if len(s) > 128 {
		s = s[:128]
	}
	return s
}

func (n Name) ID() types.Identifier { return types.ID(n.S, n.Q) }

type Col struct {
	Name Name            `json:"name"`
	T    types.ValueType `json:"t"`
	S    uint32          `json:"s"`
	N    bool            `json:"n,omitempty"`
	F    bool            `json:"f,omitempty"`
}

// Def of a table; a key column is its number + 1, negative if descending.
type Def struct {
	Cols []Col `json:"cols"`
	Key  []int `json:"key,omitempty"`
	Huge bool  `json:"huge,omitempty"` // may be refused
}

func (d *Def) Make() (cns []types.Identifier, cts []types.ColumnType, key []types.ColumnKey) {
	for _, c := range d.Cols {
		cns = append(cns, c.Name.ID())
		cts = append(cts, types.ColumnType{Type: c.T, Size: c.S, NotNull: c.N, Fixed: c.F})
	}
	for _, k := range d.Key {
		if k < 0 {
			key = append(key, types.MakeColumnKey(types.ColumnNum(-k-1), true))
		} else {
			key = append(key, types.MakeColumnKey(types.ColumnNum(k-1), false))
		}
	}
	return
}

// Names of keywords which are not reserved, and which may name columns.
var keywords = map[string]bool{"PATH": true, "TEXT": true, "KEY": true, "STDIN": true, "VERBOSE": true, "INT": true,
	"BOOL": true, "BINARY": true, "DELIMITER": true}

func colName(n Name) string {
	if !n.Q && keywords[strings.ToUpper(n.S)] {
		return "keyword " + strings.ToUpper(n.S)
	}
	return n.Key()
}

// Text of a definition.
func (d *Def) Text() string {
	var sb strings.Builder
	for _, c := range d.Cols {
		fmt.Fprintf(&sb, "%q %d %d %v %v, ", colName(c.Name), c.T, c.S, c.N, c.F)
	}
	fmt.Fprintf(&sb, "key")
	for _, k := range d.Key {
		if k < 0 {
			fmt.Fprintf(&sb, " %d desc", -k-1)
		} else {
			fmt.Fprintf(&sb, " %d", k-1)
		}
	}
	return sb.String()
}

// Text of a definition which was read.
func Text(cns []types.Identifier, cts []types.ColumnType, key []types.ColumnKey) string {
	var sb strings.Builder
	if len(cns) != len(cts) {
		return fmt.Sprintf("%d names %d types", len(cns), len(cts))
	}
	for i, ct := range cts {
		s := cns[i].String()
		if cns[i] != types.ID(s, true) {
			s = "keyword " + s
		}
		fmt.Fprintf(&sb, "%q %d %d %v %v, ", s, ct.Type, ct.Size, ct.NotNull, ct.Fixed)
	}
	fmt.Fprintf(&sb, "key")
	for _, ck := range key {
		if ck.Reverse() {
			fmt.Fprintf(&sb, " %d desc", ck.Column())
		} else {
			fmt.Fprintf(&sb, " %d", ck.Column())
		}
	}
	return sb.String()
}

// Op of a plan, and of a history (with its names resolved).
type Op struct {
	K     string   `json:"k"`
	DB    *Name    `json:"db,omitempty"`
	SC    *Name    `json:"sc,omitempty"`
	TB    *Name    `json:"tb,omitempty"`
	If    bool     `json:"if,omitempty"` // IF EXISTS, IF NOT EXISTS
	Opt   bool     `json:"opt,omitempty"`
	Def   *Def     `json:"def,omitempty"`
	Col   string   `json:"col,omitempty"` // of an index
	More  []Op     `json:"more,omitempty"`
	Val   string   `json:"val,omitempty"`
	Text  string   `json:"text,omitempty"`
	Fault *fault.F `json:"fault,omitempty"`
}

// Res is what an operation did.
type Res struct {
	Err   bool
	Fault bool
	Must  bool // a storage call failed in a way which must be reported
	Names []string
	Def   string
	Tid   uint32
	Note  string
}

func (r Res) String() string {
	s := "ok"
	if r.Err {
		s = "error"
	}
	if r.Fault {
		s += " (storage failed)"
	}
	if r.Names != nil {
		s += fmt.Sprintf(" %q", r.Names)
	}
	if r.Tid != 0 {
		s += fmt.Sprintf(" table %d: %s", r.Tid, r.Def)
	}
	return s + r.Note
}

func key(n *Name) string {
	if n == nil {
		return "?"
	}
	return n.Key()
}

func (o Op) String() string {
	s := o.K
	if o.DB != nil {
		s += fmt.Sprintf(" %q", key(o.DB))
	}
	if o.SC != nil {
		s += fmt.Sprintf(" %q", key(o.SC))
	}
	if o.TB != nil {
		s += fmt.Sprintf(" %q", key(o.TB))
	}
	if o.If {
		s += " if"
	}
	return s
}

// Unit is a transaction which was run.
type Unit struct {
	Client int
	Ops    []Op
	Res    []Res
	End    string // auto, commit, rollback
	EndRes Res
	Call   int64
	Ret    int64
	Text   string
}

type cand struct {
	def string // *: any
	seq int
}

type tent struct {
	maybe bool
	cands []cand
}

type model struct {
	dbs     map[string]bool
	schemas map[[2]string]bool // true: certain, false: maybe
	tables  map[[3]string]tent
	seq     int
	ids     map[int]uint32
}

func initial() *model {
	m := &model{
		dbs:     map[string]bool{"system": true, "maho": true},
		schemas: map[[2]string]bool{{"system", "info"}: true, {"maho", "public"}: true},
		tables:  map[[3]string]tent{},
		ids:     map[int]uint32{},
		seq:     100,
	}
	for i, t := range []string{"sequences", "databases", "schemas", "tables"} {
		m.tables[[3]string{"system", "info", t}] = tent{cands: []cand{{"*", i}}}
	}
	return m
}

func (m *model) clone() *model {
	n := &model{
		dbs:     make(map[string]bool, len(m.dbs)),
		schemas: make(map[[2]string]bool, len(m.schemas)),
		tables:  make(map[[3]string]tent, len(m.tables)),
		ids:     make(map[int]uint32, len(m.ids)),
		seq:     m.seq,
	}
	for k, v := range m.dbs {
		n.dbs[k] = v
	}
	for k, v := range m.schemas {
		n.schemas[k] = v
	}
	for k, v := range m.tables {
		n.tables[k] = v
	}
	for k, v := range m.ids {
		n.ids[k] = v
	}
	return n
}

func (m *model) dump() string {
	var ss []string
	for k := range m.dbs {
		ss = append(ss, k)
	}
	for k, v := range m.schemas {
		ss = append(ss, fmt.Sprint(k, v))
	}
	for k, v := range m.tables {
		ss = append(ss, fmt.Sprint(k, v))
	}
	for k, v := range m.ids {
		ss = append(ss, fmt.Sprint(k, v))
	}
	sort.Strings(ss)
	return fmt.Sprint(m.seq, ss)
}

func (m *model) dropSchema(k [2]string, remove bool) {
	if remove {
		delete(m.schemas, k)
	} else {
		m.schemas[k] = false
	}
	for tk, t := range m.tables {
		if tk[0] == k[0] && tk[1] == k[1] {
			t.maybe = true
			m.tables[tk] = t
		}
	}
}

func (m *model) learn(seq int, tid uint32) string {
	if seq >= 100 && tid < 512 {
		return fmt.Sprintf("the table has id %d, below 512", tid)
	} else if seq < 100 && tid >= 512 {
		return fmt.Sprintf("a system table has id %d", tid)
	}
	for s, id := range m.ids {
		if s == seq && id != tid {
			return fmt.Sprintf("the id of the table changed from %d to %d", id, tid)
		} else if s != seq && id == tid {
			return fmt.Sprintf("two tables have id %d", tid)
		} else if seq >= 100 && s >= 100 && ((s < seq && id > tid) || (s > seq && id < tid)) {
			return fmt.Sprintf("the table created later has a smaller id: %d and %d", id, tid)
		}
	}
	m.ids[seq] = tid
	return ""
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func dup(ss []string) string {
	for i := range ss {
		if contains(ss[:i], ss[i]) {
			return ss[i]
		}
	}
	return ""
}

// step is one operation; in an auto transaction one which fails has no effect.
func (m *model) step(o *Op, r *Res, auto bool) string {
	db := key(o.DB)
	sk := [2]string{db, key(o.SC)}
	tk := [3]string{db, key(o.SC), key(o.TB)}
	bad := func(format string, args ...any) string {
		return fmt.Sprintf("%s: %s: ", o, r) + fmt.Sprintf(format, args...)
	}
	if r.Note != "" {
		return bad("unexpected")
	}
	if r.Must && !r.Err {
		return bad("the failure was not reported")
	}
	failed := r.Err && r.Fault // anything may fail then
	switch o.K {
	case "createdb":
		if failed {
			return ""
		}
		if r.Err {
			if !m.dbs[db] && !o.Opt {
				return bad("the database does not exist")
			}
			return ""
		}
		if m.dbs[db] {
			return bad("the database exists")
		} else if o.Opt {
			return bad("there are no options")
		}
		m.dbs[db] = true

	case "dropdb":
		if failed {
			return ""
		}
		if r.Err {
			if m.dbs[db] {
				return bad("the database exists")
			} else if o.If {
				return bad("IF EXISTS")
			}
			return ""
		}
		if !m.dbs[db] {
			if !o.If {
				return bad("the database does not exist")
			}
			return ""
		}
		delete(m.dbs, db)
		for k := range m.schemas {
			if k[0] == db {
				m.dropSchema(k, false)
			}
		}
		for k, t := range m.tables {
			if k[0] == db {
				t.maybe = true
				m.tables[k] = t
			}
		}

	case "listdbs":
		if failed {
			return ""
		}
		if r.Err {
			return bad("unexpected error")
		}
		if s := dup(r.Names); s != "" {
			return bad("%q twice", s)
		}
		for _, n := range r.Names {
			if !m.dbs[n] {
				return bad("%q does not exist", n)
			}
		}
		for n := range m.dbs {
			if !contains(r.Names, n) {
				return bad("%q is missing", n)
			}
		}

	case "createschema":
		sure, exists := m.schemas[sk]
		if failed {
			if !auto && !exists && m.dbs[db] {
				m.schemas[sk] = false
			}
			return ""
		}
		if r.Err {
			if m.dbs[db] && !exists {
				return bad("the database exists and the schema does not")
			}
			if m.dbs[db] && exists {
				m.schemas[sk] = true
			}
			return ""
		}
		if !m.dbs[db] {
			return bad("the database does not exist")
		} else if exists && sure {
			return bad("the schema exists")
		}
		m.schemas[sk] = true

	case "dropschema":
		sure, exists := m.schemas[sk]
		if failed {
			if !auto && exists {
				m.dropSchema(sk, false)
			}
			return ""
		}
		if r.Err {
			if exists && sure {
				return bad("the schema exists")
			} else if o.If {
				return bad("IF EXISTS")
			}
			delete(m.schemas, sk)
			return ""
		}
		if !exists && !o.If {
			return bad("the schema does not exist")
		}
		if exists {
			m.dropSchema(sk, true)
		}

	case "listschemas":
		if failed {
			return ""
		}
		if r.Err {
			if m.dbs[db] {
				return bad("the database exists")
			}
			return ""
		}
		if !m.dbs[db] {
			return bad("the database does not exist")
		}
		if s := dup(r.Names); s != "" {
			return bad("%q twice", s)
		}
		for _, n := range r.Names {
			if _, ok := m.schemas[[2]string{db, n}]; !ok {
				return bad("%q does not exist", n)
			}
			m.schemas[[2]string{db, n}] = true
		}
		for k, sure := range m.schemas {
			if k[0] == db && !contains(r.Names, k[1]) {
				if sure {
					return bad("%q is missing", k[1])
				}
				delete(m.schemas, k)
			}
		}

	case "opentable":
		if failed {
			return ""
		}
		t, exists := m.tables[tk]
		if r.Err {
			if exists && !t.maybe {
				return bad("the table exists")
			}
			delete(m.tables, tk)
			return ""
		}
		if !exists {
			return bad("the table does not exist")
		}
		var ok []cand
		for _, c := range t.cands {
			if c.def != "*" && c.def != r.Def {
				continue
			}
			if id, known := m.ids[c.seq]; known && id != r.Tid {
				continue
			}
			ok = append(ok, c)
		}
		if len(ok) == 0 {
			c := t.cands[len(t.cands)-1]
			return bad("the table is %d: %s", m.ids[c.seq], c.def)
		}
		m.tables[tk] = tent{cands: ok}
		if len(ok) == 1 {
			if s := m.learn(ok[0].seq, r.Tid); s != "" {
				return bad("%s", s)
			}
		}

	case "createtable":
		t, exists := m.tables[tk]
		ssure, sexists := m.schemas[sk]
		c := cand{def: o.Def.Text(), seq: m.seq}
		if failed {
			if !auto && sexists && (!exists || t.maybe) {
				m.seq++
				m.tables[tk] = tent{maybe: true, cands: append(append([]cand(nil), t.cands...), c)}
			}
			return ""
		}
		if r.Err {
			if ssure && !exists && !o.Def.Huge {
				return bad("the schema exists and the table does not")
			} else if o.If && exists && !t.maybe {
				return bad("IF NOT EXISTS")
			}
			if ssure && exists && !o.Def.Huge && !o.If {
				t.maybe = false
				m.tables[tk] = t
			}
			return ""
		}
		if o.If && exists {
			if t.maybe {
				m.seq++
				m.tables[tk] = tent{cands: append(append([]cand(nil), t.cands...), c)}
			}
			return ""
		}
		if !sexists {
			return bad("the schema does not exist")
		} else if exists && !t.maybe {
			return bad("the table exists")
		}
		m.schemas[sk] = true
		m.seq++
		m.tables[tk] = tent{cands: []cand{c}}

	case "droptable":
		if t, exists := m.tables[tk]; exists && (!r.Err || (failed && !auto)) {
			t.maybe = true
			m.tables[tk] = t
		}
		for _, o2 := range o.More {
			tk := [3]string{key(o2.DB), key(o2.SC), key(o2.TB)}
			if t, exists := m.tables[tk]; exists && (!r.Err || (failed && !auto)) {
				t.maybe = true
				m.tables[tk] = t
			}
		}

	case "listtables":
		if r.Err {
			return ""
		}
		if s := dup(r.Names); s != "" {
			return bad("%q twice", s)
		}
		for _, n := range r.Names {
			if _, ok := m.tables[[3]string{db, key(o.SC), n}]; !ok {
				return bad("%q does not exist", n)
			}
		}
		for k, t := range m.tables {
			if len(r.Names) > 0 && k[0] == db && k[1] == key(o.SC) && !t.maybe && !contains(r.Names, k[2]) {
				return bad("%q is missing", k[2])
			}
		}

	case "createindex":
		if failed {
			return ""
		}
		t, exists := m.tables[tk]
		if r.Err {
			if exists && !t.maybe && o.If && !o.Opt {
				return bad("IF NOT EXISTS")
			}
			return ""
		}
		if !exists {
			return bad("the table does not exist")
		} else if o.Opt {
			return bad("the column does not exist")
		}
		t.maybe = false
		m.tables[tk] = t

	case "other": // must fail
		if !r.Err {
			return bad("must fail")
		}

	case "nothing":

	default:
		panic("catalog: unexpected operation: " + o.K)
	}
	return ""
}

// apply a transaction; m is not changed.
func (m *model) apply(u *Unit) (*model, string) {
	n := m.clone()
	for i := range u.Ops {
		if i >= len(u.Res) {
			break
		}
		if s := n.step(&u.Ops[i], &u.Res[i], u.End == "auto"); s != "" {
			return nil, s
		}
	}
	if u.EndRes.Note != "" {
		return nil, u.End + ": " + u.EndRes.Note
	}
	if u.End == "auto" {
		return n, ""
	}
	if u.EndRes.Fault && !u.EndRes.Err {
		return nil, fmt.Sprintf("%s: the failure was not reported", u.End)
	}
	if u.EndRes.Err && !u.EndRes.Fault {
		return nil, fmt.Sprintf("%s failed", u.End)
	}
	if u.End == "rollback" || u.EndRes.Err {
		return m, ""
	}
	return n, ""
}

// Judge a history: some sequential order of the transactions, which agrees
// with real time, explains what they saw.
func Judge(e *core.Env, units []*Unit) {
	sort.SliceStable(units, func(i, j int) bool { return units[i].Ret < units[j].Ret })
	for _, u := range units {
		for i := range u.Ops {
			if i < len(u.Res) {
				e.Mix(u.Ops[i].K + u.Res[i].String())
			}
		}
		e.Mix(u.End + u.EndRes.String())
		if e.Verbose {
			e.Logf("client %d: transaction [%d, %d] %s", u.Client, u.Call, u.Ret, u.Text)
			for i := range u.Ops {
				if i < len(u.Res) {
					e.Logf("    %s: %s", u.Ops[i], u.Res[i])
				}
			}
			e.Logf("    %s: %s", u.End, u.EndRes)
		}
	}
	var us []*lin.Unit
	for _, u := range units {
		us = append(us, &lin.Unit{Client: u.Client, Call: u.Call, Ret: u.Ret, Data: u})
	}
	lin.Judge(e, &lin.Model{
		Init: initial(),
		Apply: func(state any, u *lin.Unit) (any, string) {
			n, bad := state.(*model).apply(u.Data.(*Unit))
			if bad != "" {
				return nil, fmt.Sprintf("client %d: %s", u.Client, bad)
			}
			return n, ""
		},
		Dump: func(state any) string { return state.(*model).dump() },
	}, us)
}
