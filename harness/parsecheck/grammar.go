// Package parsecheck decides the properties of the parser (C19 to C25) and of
// the console (C29): parsers read simulated streams.
package parsecheck

import (
	"fmt"
	"strings"

	"verifsim/sim"
)

// Stmt is a statement as its atoms (tokens) and the separators before each of
// them and before the semicolon.
type Stmt struct {
	T    []string `json:"t,omitempty"`
	W    []string `json:"w,omitempty"`
	Must string   `json:"must,omitempty"` // ok, error, or unknown
}

func (s *Stmt) sep(i int) string {
	if i < len(s.W) {
		return s.W[i]
	}
	if i == 0 || i == len(s.T) {
		return ""
	}
	return " "
}

// Text without the semicolon.
func (s *Stmt) Text() string {
	var b strings.Builder
	for i, t := range s.T {
		b.WriteString(s.sep(i))
		b.WriteString(t)
	}
	b.WriteString(s.sep(len(s.T)))
	return b.String()
}

// Lead is the length of what is before the first atom (and semicolon).
func (s *Stmt) Lead() int { return len(s.sep(0)) }

// Inside returns true if the offset is inside of a literal, a quoted
// identifier, or a comment, such that what follows can't be told from them.
func (s *Stmt) Inside(off int) bool {
	at := 0
	for i := 0; i <= len(s.T); i++ {
		w := s.sep(i)
		if off >= at && off < at+len(w) {
			return strings.ContainsAny(w, "-/") && off > at
		}
		at += len(w)
		if i == len(s.T) {
			break
		}
		t := s.T[i]
		if off > at && off < at+len(t) {
			return strings.ContainsAny(t, "'\"`[]")
		}
		at += len(t)
	}
	return false
}

type gen struct {
	r     *sim.Rand
	names []string // simple
	wild  int      // percent of names which are unusual
	depth int
	opts  int    // of a database, which are printed in any order
	only  int    // the kind of most statements, if not negative
	left  int    // of it in this statement
	large string // what there is much of, in a few runs
}

func newGen(r *sim.Rand) *gen {
	g := &gen{r: r, wild: sim.Pick(r, 0, 10, 40), depth: sim.Pick(r, 1, 2, 3), opts: 3, only: -1}
	if r.Chance(1, 4) {
		g.only = r.Intn(24)
	}
	if r.Chance(1, 50) {
		g.large = sim.Pick(r, "statements", "literals", "lines", "columns", "lists", "operators", "names")
	}
	for n := r.Range(2, 6); n > 0; n-- {
		g.names = append(g.names, sim.Pick(r, "a", "e", "b", "x", "X", "t", "_", "é", "表")+fmt.Sprint(r.Intn(4)))
	}
	if r.Chance(1, 4) {
		// Names which were not used before.
		for n := r.Range(1, 3); n > 0; n-- {
			g.names = append(g.names, fmt.Sprintf("n%x", r.Uint64()))
		}
	}
	return g
}

func (g *gen) kw(ws ...string) []string {
	var ts []string
	for _, w := range ws {
		for _, f := range strings.Fields(w) {
			switch g.r.Intn(6) {
			case 0:
				f = strings.ToLower(f)
			case 1:
				b := []byte(f)
				for i := range b {
					if g.r.Chance(1, 2) {
						b[i] |= ' ' & -boolByte(b[i] >= 'A' && b[i] <= 'Z')
					}
				}
				f = string(b)
			}
			ts = append(ts, f)
		}
	}
	return ts
}

func boolByte(b bool) byte {
	if b {
		return 1
	}
	return 0
}

func cat(ls ...[]string) []string {
	var ts []string
	for _, l := range ls {
		ts = append(ts, l...)
	}
	return ts
}

func one(s string) []string { return []string{s} }

var inner = []string{"a", "b", " ", ";", ";;", "--", "/*", "*/", "\n", "é", "日本", "\U0001f600", "0", "$1", "select", "\"", "`", "[",
	"end;", "\t", "\r\n", ","}

func (g *gen) inner(without string) string {
	var b strings.Builder
	for n := g.r.Intn(5); n > 0; n-- {
		s := inner[g.r.Intn(len(inner))]
		if !strings.ContainsAny(s, without) {
			b.WriteString(s)
		}
	}
	if g.r.Chance(1, 40) {
		b.WriteString(strings.Repeat("long;", g.r.Range(10, 200)))
	}
	return b.String()
}

// up is how much there is of something.
func (g *gen) up(what string, n int) int {
	if g.large == what && n > 0 && g.left > 0 && g.r.Chance(1, 3) {
		n *= g.r.Range(2, sim.Pick(g.r, 10, 40))
		n = min(n, g.left)
		g.left -= n
	}
	return n
}

func (g *gen) name() string {
	r := g.r
	if g.large == "names" && r.Chance(1, 3) {
		return "z" + strings.Repeat(g.names[0], r.Range(1, 80)) + fmt.Sprint(r.Intn(300))
	}
	if !r.Chance(g.wild, 100) {
		return g.names[r.Intn(len(g.names))]
	}
	switch r.Intn(6) {
	case 0:
		return `"` + g.inner(`"`) + g.names[0] + `"`
	case 1:
		return "`" + g.inner("`") + "k`"
	case 2:
		return "[" + g.inner("]") + "q]"
	case 3:
		return strings.ToUpper(g.names[r.Intn(len(g.names))])
	case 4:
		return g.names[0] + strings.Repeat(sim.Pick(r, "y", "é", "Y"), r.Range(100, 140))
	default:
		return g.names[r.Intn(len(g.names))] + "$" + fmt.Sprint(r.Intn(3))
	}
}

func (g *gen) id() []string { return one(g.name()) }

func (g *gen) table() []string {
	ts := g.id()
	for n := sim.Pick(g.r, 0, 0, 0, 1, 2); n > 0; n-- {
		ts = append(append(ts, "."), g.name())
	}
	return ts
}

func (g *gen) schema() []string {
	if g.r.Chance(1, 2) {
		return cat(g.id(), one("."), g.id())
	}
	return g.id()
}

func (g *gen) str() string {
	r := g.r
	body := func() string { return strings.ReplaceAll(g.inner("'"), "\\", "") }
	switch r.Intn(6) {
	case 0:
		var b strings.Builder
		b.WriteString(sim.Pick(r, "e'", "E'"))
		for n := r.Intn(5); n > 0; n-- {
			b.WriteString(sim.Pick(r, "\\n", "\\t", "\\\\", "\\'", "\\x3b", "\\u00e9", "\\U0001F600", "\\073", "\\a", "\\b", "\\q", "x;", "''", body()))
		}
		return b.String() + "'"
	case 1:
		return "'" + body() + "''" + body() + "'"
	case 2:
		return "'" + body() + "'" + sim.Pick(r, "\n", " \n\t", "\r\n ") + "'" + body() + "'"
	default:
		return "'" + body() + "'"
	}
}

func (g *gen) lit() string {
	r := g.r
	if g.large == "literals" && r.Chance(1, 3) {
		n := r.Range(8, sim.Pick(r, 40, 300))
		switch r.Intn(6) {
		case 0, 1:
			var b strings.Builder
			for ; n > 0; n-- {
				fmt.Fprintf(&b, "%02x", r.Intn(256))
			}
			return sim.Pick(r, "x", "X") + "'" + b.String() + "'"
		case 2:
			return "b'" + strings.Repeat(sim.Pick(r, "a;b", "\x00", "\377z", "é"), n) + "'"
		case 3:
			return "e'" + strings.Repeat(sim.Pick(r, "\n", "\u00e9;", "''", "x"), n) + "'"
		case 4:
			return sim.Pick(r, "1.", "0.000", "-7.25") + strings.Repeat(fmt.Sprint(r.Intn(10)), n)
		default:
			return "'" + strings.Repeat(sim.Pick(r, "it''s; ", "--é", "\n", "日本"), n) + fmt.Sprint(n) + "'"
		}
	}
	switch r.Intn(9) {
	case 0, 1:
		return g.str()
	case 2:
		return sim.Pick(r, "b''", "b'abc;'", "b'\\x00\\377'", "x''", "X'00fF3b'", "x'41'", "b'é\\''")
	case 3:
		return sim.Pick(r, "1.5", "0.25", "10.", "-2.5", "+3.75", "123456789.125")
	case 4:
		return sim.Pick(r, "true", "FALSE", "True")
	case 5:
		return sim.Pick(r, "-1", "+7", "9223372036854775807", "-9223372036854775807")
	default:
		return fmt.Sprint(r.Intn(1000))
	}
}

func (g *gen) args(n int) []string {
	var ts []string
	for i := 0; i < n; i++ {
		if i > 0 {
			ts = append(ts, ",")
		}
		ts = append(ts, g.expr(0)...)
	}
	return ts
}

// operand of an expression.
func (g *gen) operand(d int) []string {
	r := g.r
	if d > 0 {
		switch r.Intn(9) {
		case 0:
			return cat(one("("), g.expr(d-1), one(")"))
		case 1:
			return cat(one("-"), g.operand(d-1))
		case 2:
			return cat(g.kw("NOT"), g.operand(d-1))
		case 3:
			return cat(one(sim.Pick(r, "f", "abs", g.names[0])), one("("), g.args(r.Intn(3)), one(")"))
		case 4:
			return cat(g.kw("COUNT"), one("("), one("*"), one(")"))
		case 5:
			if r.Chance(1, 2) {
				return cat(g.kw("EXISTS"), g.sub(d-1))
			}
			return g.sub(d - 1)
		}
	}
	switch r.Intn(5) {
	case 0, 1:
		ts := g.id()
		if r.Chance(1, 4) {
			ts = append(ts, ".", g.name())
		}
		return ts
	case 2:
		return g.kw("NULL")
	default:
		return one(g.lit())
	}
}

var ops = []string{"+", "-", "*", "/", "%", "=", "==", "!=", "<>", "<", "<=", ">", ">=", "<<", ">>", "&", "|", "||", "AND", "OR", "and"}
var boolOps = []string{"=", "==", "!=", "<>", "<", "<=", ">", ">="}

func (g *gen) expr(d int) []string {
	r := g.r
	ts := g.operand(d)
	for n := g.up("operators", sim.Pick(r, 0, 0, 0, 1, 1, 2, 3)); n > 0; n-- {
		ts = cat(ts, one(ops[r.Intn(len(ops))]), g.operand(d))
	}
	if d > 0 && r.Chance(1, 5) {
		switch r.Intn(4) {
		case 0:
			ts = cat(ts, g.kw(sim.Pick(r, "IS NULL", "IS NOT NULL")))
		case 1:
			ts = cat(ts, g.kw(sim.Pick(r, "IN", "NOT IN")), g.sub(d-1))
		default:
			ts = cat(ts, one(boolOps[r.Intn(len(boolOps))]), g.kw(sim.Pick(r, "ANY", "SOME", "ALL")), g.sub(d-1))
		}
	}
	return ts
}

// sub is a subquery.
func (g *gen) sub(d int) []string {
	r := g.r
	var ts []string
	switch r.Intn(5) {
	case 0:
		ts = g.values(d)
	case 1:
		ts = g.show()
	case 2:
		ts = cat(g.kw("TABLE"), g.table())
	default:
		ts = g.sel(d)
	}
	return cat(one("("), ts, one(")"))
}

func (g *gen) list(n int, fn func() []string) []string {
	n = g.up("lists", n)
	var ts []string
	for i := 0; i < n; i++ {
		if i > 0 {
			ts = append(ts, ",")
		}
		ts = append(ts, fn()...)
	}
	return ts
}

func (g *gen) paren(n int, fn func() []string) []string {
	var ls [][]string
	for ; n > 0; n-- {
		ls = append(ls, fn())
	}
	return cat(one("("), g.join(ls), one(")"))
}

// cols are different columns.
func (g *gen) cols(n int) [][]string {
	var cs [][]string
	for i := 0; i < n; i++ {
		cs = append(cs, one(fmt.Sprintf("%s%d", sim.Pick(g.r, "c", "C", "e", "b", "x"), i)))
	}
	return cs
}

func (g *gen) colList(n int) []string {
	return cat(one("("), g.join(g.cols(g.up("lists", n))), one(")"))
}

func (g *gen) join(ls [][]string) []string {
	var ts []string
	for i, l := range ls {
		if i > 0 {
			ts = append(ts, ",")
		}
		ts = append(ts, l...)
	}
	return ts
}

func (g *gen) values(d int) []string {
	n := g.up("lists", g.r.Range(1, 3))
	return cat(g.kw("VALUES"), g.list(g.r.Range(1, 3), func() []string {
		return g.paren(n, func() []string { return g.expr(d) })
	}))
}

func (g *gen) alias(req bool) []string {
	switch {
	case g.r.Chance(1, 3):
		return cat(g.kw("AS"), g.id())
	case req || g.r.Chance(1, 3):
		return g.id()
	}
	return nil
}

func (g *gen) fromItem(d int, join bool) []string {
	r := g.r
	var ts []string
	switch {
	case d > 0 && r.Chance(1, 5):
		ts = cat(g.sub(d-1), g.alias(true))
		if r.Chance(1, 3) {
			ts = cat(ts, g.paren(r.Range(1, 2), g.id))
		}
	case d > 0 && r.Chance(1, 8):
		ts = cat(one("("), g.fromList(d-1), one(")"))
	default:
		ts = g.table()
		if r.Chance(1, 6) {
			ts = cat(ts, one("@"), g.id())
		}
		ts = cat(ts, g.alias(false))
	}
	if !join || !r.Chance(1, 3) {
		return ts
	}
	if r.Chance(1, 4) {
		return cat(ts, g.kw("CROSS JOIN"), g.fromItem(0, false))
	}
	ts = cat(ts, g.kw(sim.Pick(r, "JOIN", "INNER JOIN", "LEFT JOIN", "LEFT OUTER JOIN", "RIGHT JOIN", "FULL OUTER JOIN")), g.fromItem(0, false))
	if r.Chance(1, 2) {
		return cat(ts, g.kw("ON"), g.expr(d))
	}
	return cat(ts, g.kw("USING"), g.colList(r.Range(1, 2)))
}

func (g *gen) fromList(d int) []string {
	return g.list(sim.Pick(g.r, 1, 1, 2), func() []string { return g.fromItem(d, true) })
}

func (g *gen) sel(d int) []string {
	r := g.r
	ts := g.kw("SELECT")
	if r.Chance(1, 4) {
		ts = append(ts, "*")
	} else {
		ts = cat(ts, g.list(r.Range(1, 3), func() []string {
			if r.Chance(1, 8) {
				return cat(g.id(), one("."), one("*"))
			}
			return cat(g.expr(d), g.alias(false))
		}))
	}
	if r.Chance(3, 4) {
		ts = cat(ts, g.kw("FROM"), g.fromList(d))
	}
	if r.Chance(1, 3) {
		ts = cat(ts, g.kw("WHERE"), g.expr(d))
	}
	if r.Chance(1, 8) {
		ts = cat(ts, g.kw("GROUP BY"), g.args(r.Range(1, 2)))
	}
	if r.Chance(1, 8) {
		ts = cat(ts, g.kw("HAVING"), g.expr(d))
	}
	if r.Chance(1, 6) {
		ts = cat(ts, g.kw("ORDER BY"), g.list(r.Range(1, 2), func() []string {
			return cat(g.id(), g.kw(sim.Pick(r, "", "", "ASC", "DESC")))
		}))
	}
	return ts
}

func (g *gen) show() []string {
	r := g.r
	switch r.Intn(9) {
	case 0:
		return cat(g.kw("SHOW", sim.Pick(r, "COLUMNS", "CONSTRAINTS"), "FROM"), g.table())
	case 1:
		return g.kw("SHOW CONFIG")
	case 2:
		return g.kw("SHOW DATABASES")
	case 3:
		return cat(g.kw("SHOW SCHEMAS FROM"), g.id())
	case 4:
		return g.kw("SHOW SCHEMAS")
	case 5:
		return cat(g.kw("SHOW TABLES FROM"), g.schema())
	case 6:
		return g.kw("SHOW TABLES")
	case 7:
		return g.kw(sim.Pick(r, "SHOW DATABASE", "SHOW SCHEMA"))
	default:
		return cat(g.kw("SHOW"), one(g.names[0]))
	}
}

func (g *gen) actions() []string {
	r := g.r
	act := func() []string {
		return g.kw(sim.Pick(r, "NO ACTION", "RESTRICT", "CASCADE", "SET NULL", "SET DEFAULT"))
	}
	var ts []string
	if r.Chance(1, 3) {
		ts = cat(ts, g.kw("ON DELETE"), act())
	}
	if r.Chance(1, 3) {
		ts = cat(ts, g.kw("ON UPDATE"), act())
	}
	return ts
}

func (g *gen) foreignKey() []string {
	n := g.r.Range(1, 2)
	ts := cat(g.kw("FOREIGN KEY"), g.colList(n), g.kw("REFERENCES"), g.table())
	if g.r.Chance(2, 3) {
		ts = cat(ts, g.colList(n))
	}
	return cat(ts, g.actions())
}

func (g *gen) dir() []string { return g.kw(sim.Pick(g.r, "", "", "ASC", "DESC")) }

func (g *gen) createTable() []string {
	r := g.r
	ts := g.kw("CREATE TABLE")
	if r.Chance(1, 4) {
		ts = cat(ts, g.kw("IF NOT EXISTS"))
	}
	ts = cat(ts, g.table(), one("("))
	cols := g.cols(g.up("lists", r.Range(1, 5)))
	con := 0
	named := func() []string {
		if !r.Chance(1, 3) {
			return nil
		}
		con++
		return cat(g.kw("CONSTRAINT"), one(fmt.Sprintf("k%d", con)))
	}
	primary := false
	var items [][]string
	for i, c := range cols {
		it := cat(c, g.kw(sim.Pick(r, "INT", "INTEGER", "BIGINT", "SMALLINT", "INT2", "INT4", "INT8", "BOOL", "BOOLEAN", "DOUBLE", "DOUBLE PRECISION",
			"REAL", "TEXT", "VARCHAR", "CHAR", "CHARACTER", "BINARY", "VARBINARY", "BLOB", "BYTEA", "BYTES")))
		last := strings.ToUpper(it[len(it)-1])
		switch last {
		case "TEXT", "VARCHAR", "CHAR", "BINARY", "VARBINARY", "BLOB", "BYTEA", "BYTES":
			if r.Chance(1, 2) {
				it = cat(it, one("("), one(fmt.Sprint(r.Range(1, 4000))), one(")"))
			}
		}
		if r.Chance(1, 4) {
			it = cat(it, named(), g.kw("DEFAULT"), g.operand(g.depth-1))
		}
		if r.Chance(1, 4) {
			it = cat(it, named(), g.kw("NOT NULL"))
		}
		if r.Chance(1, 6) && !primary {
			primary = true
			it = cat(it, named(), g.kw("PRIMARY KEY"))
		} else if r.Chance(1, 8) {
			it = cat(it, named(), g.kw("UNIQUE"))
		}
		if r.Chance(1, 8) {
			it = cat(it, named(), g.kw("CHECK"), one("("), g.expr(1), one(")"))
		}
		if r.Chance(1, 8) {
			it = cat(it, named(), g.kw("REFERENCES"), g.table())
			if r.Chance(1, 2) {
				it = cat(it, one("("), g.id(), one(")"))
			}
			it = cat(it, g.actions())
		}
		items = append(items, it)
		_ = i
	}
	if len(cols) >= 2 && !primary && r.Chance(1, 2) {
		items = append(items, cat(named(), g.kw("PRIMARY KEY"), one("("), cols[0], g.dir(), one(","), cols[1], g.dir(), one(")")))
	}
	if len(cols) >= 3 && r.Chance(1, 4) {
		items = append(items, cat(named(), g.kw("UNIQUE"), one("("), cols[1], g.dir(), one(","), cols[2], g.dir(), one(")")))
	}
	if r.Chance(1, 6) {
		items = append(items, cat(named(), g.kw("CHECK"), one("("), g.expr(1), one(")")))
	}
	if r.Chance(1, 5) {
		items = append(items, cat(named(), g.foreignKey()))
	}
	for i, it := range items {
		if i > 0 {
			ts = append(ts, ",")
		}
		ts = cat(ts, it)
	}
	return append(ts, ")")
}

func (g *gen) value() []string {
	if g.r.Chance(1, 6) {
		return g.kw("DEFAULT")
	}
	return g.expr(g.depth - 1)
}

// stmt is a valid statement.
func (g *gen) stmt() []string {
	r := g.r
	d := g.depth
	k := r.Intn(24)
	if g.only >= 0 && r.Chance(3, 4) {
		k = g.only
	}
	switch k {
	case 0:
		return g.kw(sim.Pick(r, "BEGIN", "COMMIT", "ROLLBACK", "START TRANSACTION"))
	case 1, 2, 3:
		return g.createTable()
	case 4:
		ts := g.kw(sim.Pick(r, "CREATE INDEX", "CREATE UNIQUE INDEX", "CREATE INDEX IF NOT EXISTS"))
		ts = cat(ts, g.id(), g.kw("ON"), g.table())
		if r.Chance(1, 3) {
			ts = cat(ts, g.kw("USING BTREE"))
		}
		n := r.Range(1, 3)
		cs := g.cols(n)
		i := 0
		return cat(ts, g.paren(n, func() []string { i++; return cat(cs[i-1], g.dir()) }))
	case 5:
		ts := cat(g.kw("CREATE DATABASE"), g.id())
		if r.Chance(1, 2) {
			ts = cat(ts, g.kw("WITH"))
			for n := r.Range(1, g.opts); n > 0; n-- {
				ts = cat(ts, one(g.names[r.Intn(len(g.names))]))
				if r.Chance(1, 2) {
					ts = append(ts, "=")
				}
				ts = append(ts, sim.Pick(r, "'p;'", "17", "1.5", "b'x'", g.name()))
			}
		}
		return ts
	case 6:
		return cat(g.kw("CREATE SCHEMA"), g.schema())
	case 7:
		ts := g.kw("DROP " + sim.Pick(r, "DATABASE", "SCHEMA") + sim.Pick(r, "", " IF EXISTS"))
		if strings.EqualFold(ts[1], "schema") {
			return cat(ts, g.schema())
		}
		return cat(ts, g.id())
	case 8:
		return cat(g.kw("DROP TABLE"+sim.Pick(r, "", " IF EXISTS")), g.list(r.Range(1, 3), g.table), g.kw(sim.Pick(r, "", "CASCADE", "RESTRICT")))
	case 9:
		return cat(g.kw("DROP INDEX"+sim.Pick(r, "", " IF EXISTS")), g.id(), g.kw("ON"), g.table())
	case 10, 11:
		ts := cat(g.kw("INSERT INTO"), g.table())
		if r.Chance(1, 2) {
			ts = cat(ts, g.colList(r.Range(1, 3)))
		}
		return cat(ts, g.kw("VALUES"), g.list(r.Range(1, 3), func() []string { return g.paren(g.up("lists", r.Range(1, 3)), g.value) }))
	case 12, 13:
		ts := cat(g.kw("UPDATE"), g.table(), g.kw("SET"), g.list(r.Range(1, 2), func() []string { return cat(g.id(), one("="), g.value()) }))
		if r.Chance(1, 2) {
			ts = cat(ts, g.kw("WHERE"), g.expr(d))
		}
		return ts
	case 14:
		ts := cat(g.kw("DELETE FROM"), g.table())
		if r.Chance(1, 2) {
			ts = cat(ts, g.kw("WHERE"), g.expr(d))
		}
		return ts
	case 15:
		v := []string{sim.Pick(r, "DATABASE", "schema", g.names[0])}
		return cat(g.kw("SET"), v, sim.Pick(r, one("="), g.kw("TO")), one(g.lit()))
	case 16:
		return cat(g.kw("USE"), one(g.str()))
	case 17:
		return g.show()
	case 18:
		return cat(g.kw("EXPLAIN"+sim.Pick(r, "", " VERBOSE")), g.sel(d))
	case 19:
		return g.values(d)
	case 20:
		ts := cat(g.kw("ALTER TABLE"), g.table())
		return cat(ts, g.list(r.Range(1, 2), func() []string {
			switch r.Intn(3) {
			case 0:
				ts := g.kw("ADD")
				if r.Chance(1, 2) {
					ts = cat(ts, g.kw("CONSTRAINT"), g.id())
				}
				return cat(ts, g.foreignKey())
			case 1:
				return cat(g.kw("DROP CONSTRAINT"+sim.Pick(r, "", " IF EXISTS")), g.id())
			default:
				return cat(g.kw("ALTER"+sim.Pick(r, "", " COLUMN")), g.id(), g.kw("DROP "+sim.Pick(r, "DEFAULT", "NOT NULL")))
			}
		}))
	default:
		return g.sel(d)
	}
}

// Atoms which are always an error.
var bads = []string{"?", "#", "{", "}", "~x", "\\", "$0", "$", "$x", "=<", "<<<", "!!", "99999999999999999999", "x'4'", "x'4g;'", "e'\\x4'",
	"e'\\u12;'", "e'\\U00110000 ;'", "b'\\x;'", "e'\\9\\08'", "$99999999999999999999", "x'é;'", "\u00a7", "٣", "e'\\xzz\\'; '"}

var soup = []string{"SELECT", "FROM", "WHERE", "(", ")", ",", ".", "*", "NULL", "NOT", "IN", "=", "1", "'s;'", "\"q;\"", "a1", "+", "-", "@",
	"VALUES", "SET", "DEFAULT", "AS", "ON", "JOIN", "[z]", "0.5", "x'00'", "TABLE", "CREATE", "IF", "EXISTS", "IS", "ANY", "$1", "||", "<=", "BEGIN",
	"EXECUTE", "PREPARE", "DETACH", "INDEX", "PRIMARY", "KEY", "CONSTRAINT", "COUNT", "PATH"}

func (g *gen) damage(s *Stmt) {
	r := g.r
	for n := sim.Pick(r, 1, 1, 1, 2, 3); n > 0; n-- {
		i := 0
		if len(s.T) > 0 {
			i = r.Intn(len(s.T))
		}
		insert := func(t string) {
			if r.Chance(1, 4) {
				i = len(s.T)
			}
			s.T = append(s.T[:i:i], append([]string{t}, s.T[i:]...)...)
		}
		if s.Must == "ok" {
			s.Must = ""
		}
		switch k := r.Intn(8); {
		case k == 0 && len(s.T) > 0:
			s.T = append(s.T[:i:i], s.T[i+1:]...)
		case k == 1 && len(s.T) > 0:
			insert(s.T[i])
		case k == 2 && len(s.T) > 1:
			j := r.Intn(len(s.T))
			s.T[i], s.T[j] = s.T[j], s.T[i]
		case k == 3 && len(s.T) > 0:
			s.T = s.T[:i]
		case k == 4 || k == 5:
			s.Must = "error"
			insert(bads[r.Intn(len(bads))])
		default:
			insert(soup[r.Intn(len(soup))])
		}
	}
	// Deleting or cutting may have removed the bad atom.
	if s.Must == "error" {
		s.Must = ""
		for _, t := range s.T {
			for _, b := range bads {
				if t == b {
					s.Must = "error"
				}
			}
		}
	}
}

func (g *gen) space(first bool) string {
	r := g.r
	if g.large == "lines" && r.Chance(1, 4) {
		return " " + strings.Repeat(sim.Pick(r, "\n", "\r\n", " -- ;\n", "/*\n*/"), r.Range(1, sim.Pick(r, 10, 150)))
	}
	if g.large == "columns" && r.Chance(1, 4) {
		return " " + strings.Repeat(sim.Pick(r, " ", "\t", "/* ;é */"), r.Range(1, sim.Pick(r, 40, 400)))
	}
	switch r.Intn(12) {
	case 0:
		return sim.Pick(r, "\n", "\r\n", "\t", "  ", "\n\n ", "\u00a0", "\u3000\n")
	case 1:
		return " -- c; '\"\n"
	case 2:
		return " /* ; ' \" -- \n * / é */ "
	case 3:
		return sim.Pick(r, "\n--\n", " /**/ ", " /***/\n", "\t--;--;\r\n", " /* /* */ ", " /*/;*/ ", " /*;*;/;**/",
			" /* - /-*; '**/ ", " --/*\n", " /*--*/", " --\r;\n", " /*\n*/")
	}
	if first && r.Chance(1, 2) {
		return ""
	}
	return " "
}

// Gen makes a statement; bad is the percentage of those with errors.
func (g *gen) Gen(bad int) Stmt {
	r := g.r
	s := Stmt{Must: "ok"}
	g.left = 200
	if !r.Chance(1, 14) {
		s.T = g.stmt()
	}
	if r.Chance(bad, 100) {
		g.damage(&s)
	}
	plain := r.Chance(1, 3)
	for i := 0; i <= len(s.T); i++ {
		first := i == 0 || i == len(s.T)
		switch {
		case !plain:
			s.W = append(s.W, g.space(first))
		case first:
			s.W = append(s.W, sim.Pick(r, "", "\n", " "))
		default:
			s.W = append(s.W, " ")
		}
	}
	return s
}

// Deep makes a statement which is nested deeply; with an error it stops there.
func (g *gen) Deep(bad bool) Stmt {
	r := g.r
	n := sim.Pick(r, 500, 2500, 5500, 9000)
	l, m, rt := "(", "1", ")"
	switch r.Intn(4) {
	case 0:
		l, m, rt = "NOT ", "TRUE", ""
	case 1:
		l, m, rt = "f(", "a", ")"
	}
	s := Stmt{Must: "ok", T: []string{"VALUES (", strings.Repeat(l, n), m, strings.Repeat(rt, n), ")"}}
	if bad {
		s.Must = "error"
		s.T[2] = sim.Pick(r, "FROM", "?", ",", "= 1", "$0")
	}
	for range s.T {
		s.W = append(s.W, " ")
	}
	s.W = append(s.W, "")
	return s
}
