// Package enginecheck checks the engine: the catalog, initialisation, and
// typed tables.
package enginecheck

import (
	"context"
	"fmt"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
	"verif/harness/catalog"
	"verif/harness/core"
	"verif/harness/fault"
	"verifsim/sim"
)

var bg = context.Background()

type Unit struct {
	Ops      []catalog.Op `json:"ops"`
	End      string       `json:"end"` // auto, commit, rollback
	EndFault *fault.F     `json:"endFault,omitempty"`
	After    []string     `json:"after,omitempty"`
}

type Plan struct {
	core.Common
	Clients [][]Unit `json:"clients"`
	Restart [][]Unit `json:"restart,omitempty"` // each of which starts with a new engine
}

type world struct {
	st  *fault.Store
	eng engine.Engine
}

func names(ids []types.Identifier) ([]string, string) {
	ns := []string{}
	note := ""
	for _, id := range ids {
		s := id.String()
		if id != types.ID(s, true) {
			note = fmt.Sprintf(" %q is listed under another identifier", s)
		}
		ns = append(ns, s)
	}
	for i := range ids { // the slice is the caller's
		ids[i] = types.ROWID
	}
	return ns, note
}

// leaks which the operation must not leave behind.
func (w *world) after(t *fault.Task, txs int, res *catalog.Res) {
	if t.Rows != 0 {
		res.Note += fmt.Sprintf(" left %d rows open", t.Rows)
	}
	if t.Txs != txs {
		res.Note += fmt.Sprintf(" left %d transactions open, %d expected", t.Txs, txs)
	}
}

func optName(n *catalog.Name) types.Identifier {
	if n == nil {
		return 0
	}
	return n.ID()
}

// auto runs an operation which is a transaction by itself.
func (w *world) auto(o *catalog.Op) (res catalog.Res) {
	t := w.st.Arm(o.Fault)
	var err error
	switch o.K {
	case "createdb":
		var opts map[types.Identifier]string
		if o.Opt {
			opts = map[types.Identifier]string{types.PATH: "xyz"}
		}
		err = w.eng.CreateDatabase(o.DB.ID(), opts)
		clear(opts)
	case "dropdb":
		err = w.eng.DropDatabase(o.DB.ID(), o.If)
	case "listdbs":
		var ids []types.Identifier
		ids, err = w.eng.ListDatabases()
		if err == nil {
			res.Names, res.Note = names(ids)
		}
	}
	res.Err = err != nil
	res.Fault = w.st.Disarm()
	res.Must = t.Must > 0
	w.after(t, 0, &res)
	return res
}

// definition which a client goes on to use.
type definition struct {
	tt   *engine.TableType
	text string
}

func (w *world) op(tx engine.Transaction, o *catalog.Op, held *[]definition) (res catalog.Res) {
	t := w.st.Arm(o.Fault)
	sn := types.SchemaName{Database: optName(o.DB), Schema: optName(o.SC)}
	tn := types.TableName{Database: sn.Database, Schema: sn.Schema, Table: optName(o.TB)}
	var err error
	switch o.K {
	case "createschema":
		err = tx.CreateSchema(bg, sn)
	case "dropschema":
		err = tx.DropSchema(bg, sn, o.If)
	case "listschemas":
		var ids []types.Identifier
		ids, err = tx.ListSchemas(bg, sn.Database)
		if err == nil {
			res.Names, res.Note = names(ids)
		}
	case "createtable":
		cns, cts, key := o.Def.Make()
		err = tx.CreateTable(bg, tn, cns, cts, key)
		// The slices are the caller's again.
		for i := range cns {
			cns[i] = types.ROWID
			cts[i] = types.ColumnType{}
		}
		for i := range key {
			key[i] = types.MakeColumnKey(77, true)
		}
	case "opentable":
		var tbl engine.Table
		tbl, err = tx.OpenTable(bg, tn)
		if err == nil {
			tt := tbl.Type()
			res.Def = catalog.Text(tt.ColumnNames, tt.ColumnTypes, tt.Key)
			res.Tid = uint32(tbl.TableId())
			*held = append(*held, definition{tt, res.Def})
			if tbl.Name() != tn {
				res.Note = fmt.Sprintf(" named %s", tbl.Name())
			}
		}
	case "droptable":
		err = tx.DropTable(bg, tn)
	case "listtables":
		var ids []types.Identifier
		ids, err = tx.ListTables(bg, sn)
		if err == nil {
			res.Names, res.Note = names(ids)
		}
	}
	res.Err = err != nil
	res.Fault = w.st.Disarm()
	res.Must = t.Must > 0
	w.after(t, 1, &res)
	return res
}

func isAuto(o *catalog.Op) bool {
	return o.K == "createdb" || o.K == "dropdb" || o.K == "listdbs"
}

func (w *world) unit(c int, p *Unit) *catalog.Unit {
	u := &catalog.Unit{Client: c, Ops: p.Ops, End: p.End, Call: sim.Seq()}
	if p.End == "auto" {
		u.Ops = p.Ops[:1]
		u.Res = append(u.Res, w.auto(&p.Ops[0]))
		u.Ret = sim.Seq()
		return u
	}
	var held []definition
	tx := w.eng.Begin()
	for i := range p.Ops {
		u.Res = append(u.Res, w.op(tx, &p.Ops[i], &held))
	}
	complete := func(how string) error {
		if how == "commit" {
			return tx.Commit(bg)
		}
		return tx.Rollback()
	}
	t := w.st.Arm(p.EndFault)
	u.EndRes.Err = complete(p.End) != nil
	u.EndRes.Fault = w.st.Disarm()
	w.after(t, 0, &u.EndRes)
	u.Ret = sim.Seq()
	for _, d := range held {
		if s := catalog.Text(d.tt.ColumnNames, d.tt.ColumnTypes, d.tt.Key); s != d.text {
			u.EndRes.Note += fmt.Sprintf(" a definition changed from %s to %s", d.text, s)
		}
	}
	for _, how := range p.After {
		if complete(how) == nil {
			u.EndRes.Note += " completed again"
		}
	}
	return u
}

// audit lists and opens everything which was named in a plan.
func (p *Plan) audit() []Unit {
	us := []Unit{{Ops: []catalog.Op{{K: "listdbs"}}, End: "auto"}}
	u := Unit{End: "commit"}
	seen := map[string]bool{}
	add := func(o catalog.Op) {
		if s := o.String(); !seen[s] {
			seen[s] = true
			u.Ops = append(u.Ops, o)
		}
	}
	sys := []string{"system", "info", "sequences", "databases", "schemas", "tables", "maho", "public"}
	nm := func(i int) *catalog.Name { return &catalog.Name{S: sys[i]} }
	add(catalog.Op{K: "listschemas", DB: nm(0)})
	add(catalog.Op{K: "listschemas", DB: nm(6)})
	for i := 2; i < 6; i++ {
		add(catalog.Op{K: "opentable", DB: nm(0), SC: nm(1), TB: nm(i)})
	}
	for _, us := range append(append([][]Unit(nil), p.Clients...), p.Restart...) {
		for _, pu := range us {
			for _, o := range pu.Ops {
				if o.DB != nil {
					add(catalog.Op{K: "listschemas", DB: o.DB})
				}
				if o.TB != nil {
					add(catalog.Op{K: "opentable", DB: o.DB, SC: o.SC, TB: o.TB})
					add(catalog.Op{K: "listtables", DB: o.DB, SC: o.SC})
				}
			}
		}
	}
	return append(us, u)
}

func (p *Plan) run(e *core.Env) []*catalog.Unit {
	w := &world{}
	per := make([][]*catalog.Unit, len(p.Clients)+1)
	var clients []core.Client
	for c := range p.Clients {
		c := c
		clients = append(clients, core.Client{Name: fmt.Sprintf("client%d", c), Fn: func() {
			for i := range p.Clients[c] {
				per[c] = append(per[c], w.unit(c, &p.Clients[c][i]))
			}
		}})
	}
	audit := p.audit()
	var ierr error
	ok := e.RunTasks(p, func() {
		for _, us := range append(append([][]Unit(nil), p.Clients...), p.Restart...) {
			for _, u := range us {
				catalog.Intern(u.Ops)
			}
		}
		st, _ := basic.NewStore("")
		w.st = fault.New(st)
		ierr = engine.Init(w.st)
		w.eng = engine.NewEngine(w.st)
	}, clients, func() {
		last := len(p.Clients)
		run := func(us []Unit) {
			for i := range us {
				per[last] = append(per[last], w.unit(last, &us[i]))
			}
		}
		run(audit)
		for _, us := range p.Restart {
			w.eng = engine.NewEngine(w.st)
			run(audit)
			run(us)
			run(audit)
			e.Count("fault restart of the engine", 1)
		}
	})
	if ierr != nil {
		e.Fail("setup", "init: %v", ierr)
	}
	if !ok || ierr != nil {
		return nil
	}
	w.st.Count(e.Count)
	if s := w.st.Leaks(); s != "" {
		e.Fail("leak", "%s", s)
	}
	var all []*catalog.Unit
	for _, us := range per {
		all = append(all, us...)
	}
	return all
}
