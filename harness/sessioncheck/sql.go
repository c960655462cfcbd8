package sessioncheck

import (
	"fmt"
	"strings"

	"github.com/leftmike/maho/types"
	"verif/harness/catalog"
	"verifsim/sim"
)

func kw(r *sim.Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if b[i] >= 'A' && b[i] <= 'Z' && r.Chance(1, 2) {
				b[i] += 'a' - 'A'
			}
		}
		return string(b)
	}
	return s
}

func quoted(r *sim.Rand, s string) string {
	for {
		switch r.Intn(3) {
		case 0:
			if !strings.Contains(s, `"`) {
				return `"` + s + `"`
			}
		case 1:
			if !strings.Contains(s, "`") {
				return "`" + s + "`"
			}
		case 2:
			if !strings.Contains(s, "]") {
				return "[" + s + "]"
			}
		}
	}
}

var keywords = map[string]bool{"PATH": true, "TEXT": true, "INT": true, "STDIN": true}

func ident(r *sim.Rand, n catalog.Name) string {
	if n.Q {
		return quoted(r, n.S)
	}
	if !keywords[strings.ToUpper(n.S)] && r.Chance(1, 6) {
		return quoted(r, strings.ToLower(n.S))
	}
	return kw(r, n.S)
}

// white space and comments
func ws(r *sim.Rand) string {
	switch r.Intn(16) {
	case 0:
		return "\n"
	case 1:
		return " \t "
	case 2:
		return " /* ; ' */ "
	case 3:
		return " -- it's; a comment\n"
	}
	return " "
}

func tableName(r *sim.Rand, o *catalog.Op) string {
	s := ident(r, *o.TB)
	if o.SC != nil {
		s = ident(r, *o.SC) + "." + s
		if o.DB != nil {
			s = ident(r, *o.DB) + "." + s
		}
	}
	return s
}

func schemaName(r *sim.Rand, o *catalog.Op) string {
	s := ident(r, *o.SC)
	if o.DB != nil {
		s = ident(r, *o.DB) + "." + s
	}
	return s
}

func typeName(r *sim.Rand, c catalog.Col) string {
	size := ""
	if c.S > 1 || r.Chance(1, 3) {
		size = fmt.Sprintf("(%d)", c.S)
	}
	switch c.T {
	case types.BoolType:
		return kw(r, sim.Pick(r, "BOOL", "BOOLEAN"))
	case types.Float64Type:
		if c.S == 4 {
			return kw(r, "REAL")
		}
		return kw(r, sim.Pick(r, "DOUBLE", "DOUBLE PRECISION"))
	case types.Int64Type:
		switch c.S {
		case 2:
			return kw(r, sim.Pick(r, "SMALLINT", "INT2"))
		case 4:
			return kw(r, sim.Pick(r, "INT", "INTEGER", "INT4"))
		}
		return kw(r, sim.Pick(r, "INT8", "BIGINT"))
	case types.StringType:
		if c.F {
			return kw(r, sim.Pick(r, "CHAR", "CHARACTER")) + size
		}
		if c.S == types.MaxColumnSize && r.Chance(2, 3) {
			return kw(r, "TEXT")
		}
		if size == "" {
			return kw(r, "VARCHAR")
		}
		return kw(r, sim.Pick(r, "VARCHAR", "TEXT")) + size
	case types.BytesType:
		if c.F {
			return kw(r, "BINARY") + size
		}
		if c.S == types.MaxColumnSize && r.Chance(2, 3) {
			return kw(r, sim.Pick(r, "BLOB", "BYTEA", "BYTES"))
		}
		if size == "" {
			return kw(r, "VARBINARY")
		}
		return kw(r, sim.Pick(r, "VARBINARY", "BYTES", "BLOB", "BYTEA")) + size
	}
	panic("type")
}

func details(r *sim.Rand, d *catalog.Def) string {
	var items []string
	inline := len(d.Key) == 1 && d.Key[0] > 0 && r.Chance(1, 2)
	for i, c := range d.Cols {
		s := ident(r, c.Name) + ws(r) + typeName(r, c)
		var cons []string
		if c.N {
			cons = append(cons, kw(r, "NOT NULL"))
		}
		if inline && d.Key[0] == i+1 {
			cons = append(cons, kw(r, "PRIMARY KEY"))
		}
		if r.Chance(1, 12) {
			cons = append(cons, kw(r, "DEFAULT ")+sim.Pick(r, "1", "'a;b'", "1 + 2", "NULL", "b'\\x01'"))
		}
		if r.Chance(1, 12) {
			cons = append(cons, kw(r, "CHECK")+" ("+ident(r, c.Name)+sim.Pick(r, " > 0", " = 'x'", " != 1.5")+")")
		}
		for len(cons) > 0 {
			i := r.Intn(len(cons))
			s += ws(r) + cons[i]
			cons = append(cons[:i], cons[i+1:]...)
		}
		items = append(items, s)
	}
	if len(d.Key) > 0 && !inline {
		var ks []string
		for _, k := range d.Key {
			if k < 0 {
				ks = append(ks, ident(r, d.Cols[-k-1].Name)+kw(r, " DESC"))
			} else {
				ks = append(ks, ident(r, d.Cols[k-1].Name)+sim.Pick(r, "", kw(r, " ASC")))
			}
		}
		s := kw(r, "PRIMARY KEY") + " (" + strings.Join(ks, ","+ws(r)) + ")"
		if r.Chance(1, 4) {
			s = kw(r, "CONSTRAINT ") + "con_pk " + s
		}
		// It may come anywhere.
		i := len(items)
		if r.Chance(1, 4) {
			i = r.Intn(len(items) + 1)
		}
		items = append(items[:i], append([]string{s}, items[i:]...)...)
	}
	if r.Chance(1, 8) {
		// Is not kept; not of the columns of the primary key, in whichever
		// order, as the same key twice is an error.
		key := map[int]bool{}
		for _, k := range d.Key {
			key[max(k, -k)] = true
		}
		for i, c := range d.Cols {
			if !key[i+1] && r.Chance(1, 2) {
				s := kw(r, "CONSTRAINT ") + "con_uq "
				if r.Chance(1, 2) {
					s += kw(r, "UNIQUE") + " (" + ident(r, c.Name) + sim.Pick(r, "", kw(r, " DESC")) + ")"
				} else {
					s += kw(r, "FOREIGN KEY") + " (" + ident(r, c.Name) + ") " + kw(r, "REFERENCES") + " other_table (c)"
				}
				i := r.Intn(len(items) + 1)
				items = append(items[:i], append([]string{s}, items[i:]...)...)
				break
			}
		}
	}
	if r.Chance(1, 12) {
		items = append(items, kw(r, "CONSTRAINT ")+"con_ck "+kw(r, "CHECK")+" (1 < 2)")
	}
	return "(" + strings.Join(items, ","+ws(r)) + ")"
}

// render a statement without its semicolon.
func render(r *sim.Rand, o *catalog.Op) string {
	opt := func(b bool, s string) string {
		if b {
			return kw(r, s) + ws(r)
		}
		return ""
	}
	switch o.K {
	case "begin":
		return kw(r, sim.Pick(r, "BEGIN", "START TRANSACTION"))
	case "commit":
		return kw(r, "COMMIT")
	case "rollback":
		return kw(r, "ROLLBACK")
	case "empty":
		return ""
	case "setdb":
		v := "'" + o.Val + "'"
		return sim.Pick(r, kw(r, "USE")+ws(r)+v, kw(r, "SET DATABASE TO ")+v, kw(r, "SET DATABASE")+" = "+v)
	case "setschema":
		v := "'" + o.Val + "'"
		return sim.Pick(r, kw(r, "SET SCHEMA TO ")+v, kw(r, "SET SCHEMA")+" = "+v)
	case "setbad":
		return kw(r, "SET ") + "nosuch" + sim.Pick(r, " = ", " TO ") + "'" + o.Val + "'"
	case "createdb":
		s := kw(r, "CREATE DATABASE") + ws(r) + ident(r, *o.DB)
		if o.Opt {
			s += ws(r) + kw(r, "WITH PATH") + sim.Pick(r, " = ", " ") + "'xyz'"
		}
		return s
	case "dropdb":
		return kw(r, "DROP DATABASE") + ws(r) + opt(o.If, "IF EXISTS") + ident(r, *o.DB)
	case "createschema":
		return kw(r, "CREATE SCHEMA") + ws(r) + schemaName(r, o)
	case "dropschema":
		return kw(r, "DROP SCHEMA") + ws(r) + opt(o.If, "IF EXISTS") + schemaName(r, o)
	case "createtable":
		return kw(r, "CREATE TABLE") + ws(r) + opt(o.If, "IF NOT EXISTS") + tableName(r, o) + sim.Pick(r, "", ws(r)) + details(r, o.Def)
	case "droptable":
		s := kw(r, "DROP TABLE") + ws(r) + opt(o.If, "IF EXISTS") + tableName(r, o)
		for i := range o.More {
			s += "," + ws(r) + tableName(r, &o.More[i])
		}
		return s + sim.Pick(r, "", "", kw(r, " CASCADE"), kw(r, " RESTRICT"))
	case "createindex":
		return kw(r, sim.Pick(r, "CREATE INDEX", "CREATE UNIQUE INDEX")) + ws(r) + opt(o.If, "IF NOT EXISTS") + "idx" + ws(r) +
			kw(r, "ON") + ws(r) + tableName(r, o) + " (" + o.Col + sim.Pick(r, "", " DESC") + ")"
	case "dropindex":
		return kw(r, "DROP INDEX") + ws(r) + opt(o.If, "IF EXISTS") + "idx " + kw(r, "ON") + ws(r) + tableName(r, o)
	case "dml":
		tn := tableName(r, o)
		switch r.Intn(8) {
		case 0:
			return kw(r, "INSERT INTO") + ws(r) + tn + kw(r, " VALUES") + " (1, 'a;b'), (2, NULL)"
		case 1:
			return kw(r, "UPDATE") + ws(r) + tn + kw(r, " SET") + " c = 1" + kw(r, " WHERE") + " d = 2"
		case 2:
			return kw(r, "DELETE FROM") + ws(r) + tn
		case 3:
			return kw(r, "DELETE FROM") + ws(r) + tn + kw(r, " WHERE ") + "c IN (SELECT d FROM other.tbl)"
		case 4:
			return kw(r, "INSERT INTO") + ws(r) + tn + " (c, d)" + kw(r, " VALUES") + " (DEFAULT, 1.5)"
		case 5:
			return kw(r, "ALTER TABLE ") + tn + kw(r, " DROP CONSTRAINT") + " con"
		case 6:
			return kw(r, "ALTER TABLE ") + tn + kw(r, " ADD FOREIGN KEY") + " (c) " + kw(r, "REFERENCES") + " other.tbl"
		}
		return kw(r, "INSERT INTO") + ws(r) + tn + " (c)" + kw(r, " VALUES") + " (1)"
	case "other", "syntax":
		return o.Text
	}
	panic("sessioncheck: can't render " + o.K)
}

// statements which can be parsed, and can't be evaluated
var unsupported = []string{
	"SELECT * FROM t", "SELECT 1", "INSERT INTO t VALUES (1, 'a;b')", "UPDATE t SET c = 1", "DELETE FROM t",
	"VALUES (1, 2), (3, 4)", "SHOW DATABASES", "SHOW SCHEMA", "SHOW TABLES FROM s", "EXPLAIN SELECT * FROM t WHERE c = 1",
	"ALTER TABLE t DROP CONSTRAINT x", "SHOW CONFIG", "SELECT a, count(*) FROM t GROUP BY a ORDER BY a DESC",
	"INSERT INTO t (a) VALUES (DEFAULT), (NULL)", "DELETE FROM s.t WHERE x IN (SELECT y FROM u)",
}

// statements which can't be parsed
var malformed = []string{
	"CREATE", "CREATE TABLE t", "SELECT FROM", "DROP", "DROP TABLE t CASCADE RESTRICT x", "CREATE SCHEMA a.b.c", "USE db1",
	"SET database = a", "BEGIN BEGIN", "COMMIT t", "TABLE t (c INT)", "CREATE TABLE t (c INT, c INT)", "CREATE DATABASE", "1 2 3",
	"ROLLBACK WORK 'x;y'", "CREATE TABLE t (c INT PRIMARY KEY, d INT PRIMARY KEY)", "$ ", "CREATE TABLE t (c NOSUCH)", "USE NULL",
}
