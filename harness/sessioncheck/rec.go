package sessioncheck

import (
	"context"
	"fmt"
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
	"verif/harness/catalog"
)

// call of the engine by a session, with the names it was given.
type call struct {
	what  string
	tn    types.TableName
	index types.Identifier
}

// recEngine is the catalog as one session uses it: the names which the session
// passes on are noted.
type recEngine struct {
	engine.Engine
	c *client
}

type recTx struct {
	engine.Transaction
	c *client
}

func (c *client) note(what string, tn types.TableName, index types.Identifier) {
	c.calls = append(c.calls, call{what, tn, index})
}

func (e *recEngine) CreateDatabase(dn types.Identifier, opts storage.OptionsMap) error {
	e.c.note("CreateDatabase", types.TableName{Database: dn}, 0)
	return e.Engine.CreateDatabase(dn, opts)
}

func (e *recEngine) DropDatabase(dn types.Identifier, ifExists bool) error {
	e.c.note("DropDatabase", types.TableName{Database: dn}, 0)
	return e.Engine.DropDatabase(dn, ifExists)
}

func (e *recEngine) Begin() engine.Transaction {
	return &recTx{e.Engine.Begin(), e.c}
}

func (t *recTx) CreateSchema(ctx context.Context, sn types.SchemaName) error {
	t.c.note("CreateSchema", types.TableName{Database: sn.Database, Schema: sn.Schema}, 0)
	return t.Transaction.CreateSchema(ctx, sn)
}

func (t *recTx) DropSchema(ctx context.Context, sn types.SchemaName, ifExists bool) error {
	t.c.note("DropSchema", types.TableName{Database: sn.Database, Schema: sn.Schema}, 0)
	return t.Transaction.DropSchema(ctx, sn, ifExists)
}

func (t *recTx) CreateTable(ctx context.Context, tn types.TableName, colNames []types.Identifier, colTypes []types.ColumnType,
	primary []types.ColumnKey) error {

	t.c.note("CreateTable", tn, 0)
	return t.Transaction.CreateTable(ctx, tn, colNames, colTypes, primary)
}

func (t *recTx) DropTable(ctx context.Context, tn types.TableName) error {
	t.c.note("DropTable", tn, 0)
	return t.Transaction.DropTable(ctx, tn)
}

func (t *recTx) CreateIndex(ctx context.Context, tn types.TableName, in types.Identifier, key []types.ColumnKey) error {
	t.c.note("CreateIndex", tn, in)
	return t.Transaction.CreateIndex(ctx, tn, in, key)
}

func (t *recTx) DropIndex(ctx context.Context, tn types.TableName, in types.Identifier) error {
	t.c.note("DropIndex", tn, in)
	return t.Transaction.DropIndex(ctx, tn, in)
}

func fullName(o *catalog.Op) types.TableName {
	var tn types.TableName
	if o.DB != nil {
		tn.Database = o.DB.ID()
	}
	if o.SC != nil {
		tn.Schema = o.SC.ID()
	}
	if o.TB != nil {
		tn.Table = o.TB.ID()
	}
	return tn
}

// checkCalls compares the names which the session passed to the catalog with
// what the statement names.
func (c *client) checkCalls(ro *catalog.Op, ok bool) {
	var want []types.TableName
	switch ro.K {
	case "createdb", "dropdb", "createschema", "dropschema", "createtable", "createindex", "dropindex":
		want = []types.TableName{fullName(ro)}
	case "droptable":
		want = []types.TableName{fullName(ro)}
		for i := range ro.More {
			want = append(want, fullName(&ro.More[i]))
		}
	}
	for _, cl := range c.calls {
		found := false
		for _, tn := range want {
			found = found || cl.tn == tn
		}
		if !found {
			c.bad("%.300s: %s was called with %s; the statement names %v", ro.Text, cl.what, cl.tn, want)
		}
		if cl.index != 0 && cl.index != types.ID("idx", false) {
			c.bad("%.300s: %s was called with index %s", ro.Text, cl.what, cl.index)
		}
	}
	if ro.K == "droptable" && ok && !ro.If {
		for _, tn := range want {
			found := false
			for _, cl := range c.calls {
				found = found || cl.what == "DropTable" && cl.tn == tn
			}
			if !found {
				c.bad("%.300s: succeeded, and %s was not dropped", ro.Text, tn)
			}
		}
	}
}

// tables named by a statement.
func tables(stmt sql.Stmt) []types.TableName {
	switch stmt := stmt.(type) {
	case *sql.CreateTable:
		return []types.TableName{stmt.Table}
	case *sql.CreateIndex:
		return []types.TableName{stmt.Table}
	case *sql.CreateSchema:
		return []types.TableName{{Database: stmt.Schema.Database, Schema: stmt.Schema.Schema}}
	case *sql.DropSchema:
		return []types.TableName{{Database: stmt.Schema.Database, Schema: stmt.Schema.Schema}}
	case *sql.DropIndex:
		return []types.TableName{stmt.Table}
	case *sql.DropTable:
		return stmt.Tables
	case *sql.AlterTable:
		return []types.TableName{stmt.Table}
	case *sql.InsertValues:
		return []types.TableName{stmt.Table}
	case *sql.Update:
		return []types.TableName{stmt.Table}
	case *sql.Delete:
		return []types.TableName{stmt.Table}
	case *sql.Copy:
		return []types.TableName{stmt.Table}
	case *sql.Explain:
		return tables(stmt.Stmt)
	}
	return nil
}

// checkResolve compares the names of the statement, resolved by the session,
// with what they mean.
func (c *client) checkResolve(ro *catalog.Op) {
	switch ro.K {
	case "createschema", "dropschema", "createtable", "droptable", "createindex", "dropindex", "dml":
	default:
		return
	}
	stmt, err := parser.NewParser(strings.NewReader(ro.Text+";\n"), "again").Parse()
	if err != nil {
		c.bad("%.300q: parsed again: %v", ro.Text, err)
		return
	}
	if stmt == nil {
		return
	}
	stmt.Resolve(c.ses)
	want := []types.TableName{fullName(ro)}
	for i := range ro.More {
		want = append(want, fullName(&ro.More[i]))
	}
	if got := tables(stmt); fmt.Sprint(got) != fmt.Sprint(want) {
		c.bad("%.300q: the names in it are resolved to %v; they mean %v", ro.Text, got, want)
	}
}
