// Package sessioncheck checks sessions: SQL text which is parsed and evaluated
// by concurrent sessions on one catalog.
package sessioncheck

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
	"verif/harness/catalog"
	"verif/harness/core"
	"verif/harness/fault"
	"verifsim/sim"
)

var bg = context.Background()

// Script of one session.
type Script struct {
	DB    catalog.Name `json:"db"`
	SC    catalog.Name `json:"sc"`
	Ahead bool         `json:"ahead,omitempty"` // parse everything before evaluating anything
	Stmts []catalog.Op `json:"stmts"`
	End   string       `json:"end"` // how to complete an open transaction
}

func (s *Script) text() string {
	var sb strings.Builder
	for i := range s.Stmts {
		sb.WriteString(s.Stmts[i].Text)
		sb.WriteString(";\n")
	}
	return sb.String()
}

type Plan struct {
	core.Common
	Scripts []Script `json:"scripts"`
}

type world struct {
	st  *fault.Store
	eng engine.Engine
	e   *core.Env
}

// client is the model of a session.
type client struct {
	w      *world
	id     int
	ses    *evaluate.Session
	db, sc catalog.Name
	tx     *catalog.Unit
	units  []*catalog.Unit
	calls  []call // of the catalog, by the current statement
	failed string // what went wrong
}

func (c *client) bad(format string, args ...any) {
	if c.failed == "" {
		c.failed = fmt.Sprintf("session %d: ", c.id) + fmt.Sprintf(format, args...)
	}
}

// resolve the names of a statement.
func (c *client) resolve(o catalog.Op) catalog.Op {
	db, sc := c.db, c.sc
	switch o.K {
	case "createschema", "dropschema":
		if o.DB == nil {
			o.DB = &db
		}
	case "createtable", "droptable", "createindex", "dropindex", "dml":
		if o.SC == nil {
			o.SC = &sc
		}
		if o.DB == nil {
			o.DB = &db
		}
		if o.More != nil {
			more := make([]catalog.Op, len(o.More))
			for i, o2 := range o.More {
				o2.K = "droptable"
				more[i] = c.resolve(o2)
			}
			o.More = more
		}
	}
	return o
}

func (c *client) step(o *catalog.Op, stmt sql.Stmt) {
	ro := c.resolve(*o)
	c.checkResolve(&ro)
	c.calls = nil
	t := c.w.st.Arm(o.Fault)
	call := sim.Seq()
	err := c.ses.Evaluate(bg, stmt)
	fault := c.w.st.Disarm()
	ret := sim.Seq()
	res := catalog.Res{Err: err != nil, Fault: fault, Must: t.Must > 0}
	if o.K == "createtable" {
		// That the table exists may be found out by looking for it first, and
		// a failure of that does not matter.
		res.Must = t.Writes > 0
	}
	if t.Rows != 0 {
		res.Note += fmt.Sprintf(" left %d rows open", t.Rows)
	}

	c.checkCalls(&ro, err == nil)
	inTx := c.tx != nil
	complete := func(how string) {
		c.tx.End = how
		c.tx.EndRes = res
		c.tx.Ret = ret
		c.units = append(c.units, c.tx)
		c.tx = nil
	}
	add := func() {
		if inTx {
			c.tx.Ops = append(c.tx.Ops, ro)
			c.tx.Res = append(c.tx.Res, res)
		} else {
			c.units = append(c.units, &catalog.Unit{Client: c.id, Ops: []catalog.Op{ro}, Res: []catalog.Res{res}, End: "auto",
				Call: call, Ret: ret, Text: o.Text})
		}
	}

	switch o.K {
	case "begin":
		if inTx {
			ro.K = "other"
			add()
			break
		}
		if err != nil {
			c.bad("BEGIN failed: %v", err)
			break
		}
		c.tx = &catalog.Unit{Client: c.id, Call: call, Text: o.Text}
	case "commit", "rollback":
		if !inTx {
			ro.K = "other"
			add()
			break
		}
		if err != nil && !fault {
			c.bad("%s failed: %v", o.K, err)
		}
		complete(o.K)
	case "setdb":
		if err != nil {
			c.bad("%.300s failed: %v", o.Text, err)
			break
		}
		c.db = catalog.Name{S: o.Val}
	case "setschema":
		if err != nil {
			c.bad("%.300s failed: %v", o.Text, err)
			break
		}
		c.sc = catalog.Name{S: o.Val}
	case "empty":
		if err != nil {
			c.bad("an empty statement failed: %v", err)
		}
	case "createdb", "dropdb":
		if inTx {
			ro.K = "other"
		}
		add()
	case "setbad", "dml":
		ro.K = "other"
		add()
	case "dropindex":
		ro.K = "nothing"
		add()
	default:
		add()
	}

	txs := 0
	if c.tx != nil {
		txs = 1
	}
	if t.Txs != txs {
		c.bad("%.300s: left %d transactions open, %d expected", o.Text, t.Txs, txs)
	}
}

func (c *client) run(s *Script) {
	c.ses = evaluate.NewSession(&recEngine{c.w.eng, c}, s.DB.ID(), s.SC.ID())
	c.db, c.sc = s.DB, s.SC
	ps := parser.NewParser(bufio.NewReader(strings.NewReader(s.text())), fmt.Sprintf("session%d", c.id))
	type parsed struct {
		stmt sql.Stmt
		err  error
	}
	var ahead []parsed
	next := func() parsed {
		stmt, err := ps.Parse()
		return parsed{stmt, err}
	}
	if s.Ahead {
		for range s.Stmts {
			ahead = append(ahead, next())
		}
	}
	for i := range s.Stmts {
		o := &s.Stmts[i]
		var p parsed
		if s.Ahead {
			p = ahead[i]
		} else {
			p = next()
		}
		if o.K == "syntax" {
			if p.err == nil || p.err == io.EOF {
				c.bad("%.300q: expected a parse error, got %v", o.Text, p.err)
			}
			continue
		}
		if p.err != nil {
			c.bad("%.300q: parse failed: %v", o.Text, p.err)
			break
		}
		c.step(o, p.stmt)
		if c.failed != "" {
			break
		}
	}
	if c.failed == "" {
		if p := next(); p.err != io.EOF {
			c.bad("the input does not end: %v, %v", p.stmt, p.err)
		}
	}
	if c.tx != nil {
		o := &catalog.Op{K: s.End, Text: s.End}
		if s.End == "commit" {
			c.step(o, &sql.Commit{})
		} else {
			c.step(o, &sql.Rollback{})
		}
	}
}

// audit lists and opens everything that the sessions may have named.
func (w *world) audit(id int, all []*catalog.Unit) []*catalog.Unit {
	call := sim.Seq()
	list := &catalog.Unit{Client: id, End: "auto", Call: call, Text: "audit"}
	lo := catalog.Op{K: "listdbs"}
	ids, err := w.eng.ListDatabases()
	res := catalog.Res{Err: err != nil}
	res.Names, res.Note = names(ids)
	list.Ops, list.Res = []catalog.Op{lo}, []catalog.Res{res}
	list.Ret = sim.Seq()

	u := &catalog.Unit{Client: id, End: "commit", Call: sim.Seq(), Text: "audit"}
	tx := w.eng.Begin()
	seen := map[string]bool{}
	add := func(o catalog.Op) {
		if s := o.String(); seen[s] {
			return
		} else {
			seen[s] = true
		}
		var res catalog.Res
		switch o.K {
		case "listschemas":
			ids, err := tx.ListSchemas(bg, o.DB.ID())
			res.Err = err != nil
			if err == nil {
				res.Names, res.Note = names(ids)
			}
		case "opentable":
			tn := types.TableName{Database: o.DB.ID(), Schema: o.SC.ID(), Table: o.TB.ID()}
			tbl, err := tx.OpenTable(bg, tn)
			res.Err = err != nil
			if err == nil {
				tt := tbl.Type()
				res.Def = catalog.Text(tt.ColumnNames, tt.ColumnTypes, tt.Key)
				res.Tid = uint32(tbl.TableId())
			}
		}
		u.Ops = append(u.Ops, o)
		u.Res = append(u.Res, res)
	}
	var dbs, scs []*catalog.Name
	var rec func(o *catalog.Op)
	rec = func(o *catalog.Op) {
		if o.DB != nil {
			dbs = append(dbs, o.DB)
		}
		if o.SC != nil {
			scs = append(scs, o.SC)
		}
		for i := range o.More {
			rec(&o.More[i])
		}
	}
	for _, au := range all {
		for i := range au.Ops {
			rec(&au.Ops[i])
		}
	}
	dbs = append(dbs, &catalog.Name{S: "system"}, &catalog.Name{S: "maho"})
	for _, db := range dbs {
		add(catalog.Op{K: "listschemas", DB: db})
	}
	var tbs func(o *catalog.Op)
	tbs = func(o *catalog.Op) {
		if o.TB != nil {
			add(catalog.Op{K: "opentable", DB: o.DB, SC: o.SC, TB: o.TB})
		}
		for i := range o.More {
			tbs(&o.More[i])
		}
	}
	for _, au := range all {
		for i := range au.Ops {
			if au.Ops[i].DB != nil && au.Ops[i].SC != nil {
				tbs(&au.Ops[i])
			}
		}
	}
	// What was created under a name must not be found under another.
	n := 0
	for _, au := range all {
		for i := range au.Ops {
			o := &au.Ops[i]
			if o.K != "createtable" {
				continue
			}
			for j := 0; j < len(dbs) && n < 40; j++ {
				for k := 0; k < len(scs) && n < 40; k++ {
					add(catalog.Op{K: "opentable", DB: dbs[j], SC: scs[k], TB: o.TB})
					n++
				}
			}
		}
	}
	u.EndRes.Err = tx.Commit(bg) != nil
	u.Ret = sim.Seq()
	return []*catalog.Unit{list, u}
}

func names(ids []types.Identifier) ([]string, string) {
	ns := []string{}
	note := ""
	for _, id := range ids {
		s := id.String()
		if id != types.ID(s, true) {
			note = fmt.Sprintf(" %q is listed under another identifier", s)
		}
		ns = append(ns, s)
	}
	return ns, note
}

func (p *Plan) run(e *core.Env) []*catalog.Unit {
	w := &world{e: e}
	var cs []*client
	var clients []core.Client
	for i := range p.Scripts {
		i := i
		c := &client{w: w, id: i}
		cs = append(cs, c)
		clients = append(clients, core.Client{Name: fmt.Sprintf("session%d", i), Fn: func() { c.run(&p.Scripts[i]) }})
	}
	var ierr error
	var all []*catalog.Unit
	ok := e.RunTasks(p, func() {
		for i := range p.Scripts {
			s := &p.Scripts[i]
			s.DB.ID()
			s.SC.ID()
			catalog.Intern(s.Stmts)
			for j := range s.Stmts {
				if v := s.Stmts[j].Val; v != "" {
					types.ID(v, false)
				}
			}
			ps := parser.NewParser(strings.NewReader(s.text()), "intern")
			for range s.Stmts {
				ps.Parse()
			}
		}
		st, _ := basic.NewStore("")
		w.st = fault.New(st)
		ierr = engine.Init(w.st)
		w.eng = engine.NewEngine(w.st)
	}, clients, func() {
		for _, c := range cs {
			all = append(all, c.units...)
		}
		all = append(all, w.audit(len(cs), all)...)
	})
	if ierr != nil {
		e.Fail("setup", "init: %v", ierr)
	}
	for _, c := range cs {
		if c.failed != "" {
			e.Fail("session", "%s", c.failed)
		}
	}
	if !ok || ierr != nil || e.Viol != nil {
		return nil
	}
	w.st.Count(e.Count)
	if s := w.st.Leaks(); s != "" {
		e.Fail("leak", "%s", s)
	}
	return all
}
