From e001f23375d1feb0d59bad20f82d420d88387a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 01/32] fix: lock the identifier table while looking up a name

Identifier.String read the names map without holding the mutex while another
goroutine could be adding a name to it.
---
 types/identifier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/identifier.go b/types/identifier.go
index 9f2c95a..b41e84b 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -320,6 +320,9 @@ func ID(s string, quoted bool) Identifier {
 }
 
 func (id Identifier) String() string {
+	mutex.RLock()
+	defer mutex.RUnlock()
+
 	return names[id]
 }
 
-- 
2.43.0


From f7f26914b5489f1f1ef75934c66b1031ce112cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 02/32] fix: don't let bytes literals share the scanner's
 buffer

The bytes of a literal in an already parsed statement were overwritten when
the scanner went on to the next token.
---
 parser/scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 36fb80c..33e10c7 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -468,7 +468,7 @@ func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
 	if r == token.Error {
 		return token.Error
 	}
-	sctx.Bytes = s.buffer.Bytes()
+	sctx.Bytes = append(make([]byte, 0, s.buffer.Len()), s.buffer.Bytes()...)
 	return token.Bytes
 }
 
@@ -570,6 +570,6 @@ func (s *Scanner) scanHexBytes(sctx *ScanCtx) rune {
 		s.buffer.WriteByte(byte(d1*16 + d2))
 	}
 
-	sctx.Bytes = s.buffer.Bytes()
+	sctx.Bytes = append(make([]byte, 0, s.buffer.Len()), s.buffer.Bytes()...)
 	return token.Bytes
 }
-- 
2.43.0


From b666b6d02904f18678f88deee01b5ae6826dd828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 03/32] fix: report the reader's error when it is looked at
 more than once

A read error met while looking one rune ahead was lost: the next token was
made from rune 0 and reported as an unexpected character.
---
 parser/scanner/scanner.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 33e10c7..8cafe93 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -40,6 +40,7 @@ type Scanner struct {
 	rr          io.RuneReader
 	unread      bool
 	read        rune
+	err         error
 	filename    string
 	line        int
 	column      int
@@ -240,7 +241,9 @@ SkipWhitespace:
 		return r
 	} else if r == '$' {
 		r = s.readRune(sctx)
-		if !unicode.IsDigit(r) {
+		if r == token.Error {
+			return token.Error
+		} else if !unicode.IsDigit(r) {
 			sctx.Error = fmt.Errorf("scanner: expected parameter %s", s.buffer.String())
 			return token.Error
 		}
@@ -254,6 +257,9 @@ SkipWhitespace:
 func (s *Scanner) readRune(sctx *ScanCtx) rune {
 	if s.unread {
 		s.unread = false
+		if s.read == token.Error {
+			sctx.Error = s.err
+		}
 		return s.read
 	}
 
@@ -263,6 +269,8 @@ func (s *Scanner) readRune(sctx *ScanCtx) rune {
 		s.read = token.EOF
 		return token.EOF
 	} else if err != nil {
+		s.read = token.Error
+		s.err = err
 		sctx.Error = err
 		return token.Error
 	}
-- 
2.43.0


From a8f9832a44dff4a32640aa145b0d8e0a28a91662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 04/32] fix: don't lose a read error while skipping to the COPY
 data

The rest of the COPY line was handed out as data if the reader failed before
the end of the line.
---
 parser/scanner/scanner.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 8cafe93..bec3aba 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -74,12 +74,15 @@ func (s *Scanner) Scan(sctx *ScanCtx) {
 }
 
 type runeReader struct {
-	s *Scanner
+	s   *Scanner
+	err error
 }
 
 func (s *Scanner) RuneReader() (io.RuneReader, int) {
+	var err error
 	for {
-		r, _, err := s.rr.ReadRune()
+		var r rune
+		r, _, err = s.rr.ReadRune()
 		if err != nil {
 			break
 		}
@@ -91,11 +94,16 @@ func (s *Scanner) RuneReader() (io.RuneReader, int) {
 	}
 
 	return runeReader{
-		s: s,
+		s:   s,
+		err: err,
 	}, s.line
 }
 
 func (rr runeReader) ReadRune() (rune, int, error) {
+	if rr.err != nil {
+		return 0, 0, rr.err
+	}
+
 	r, size, err := rr.s.rr.ReadRune()
 	if err != nil {
 		return 0, 0, err
-- 
2.43.0


From d8018a68ef1753809267cc06303da8359aa84cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 05/32] fix: an empty statement ends at its semicolon

The statement following an empty one was swallowed and reported as an error.
---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index d65da6f..6c8a7c8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -245,6 +245,7 @@ func (p *Parser) expectEndOfStatement() {
 
 func (p *Parser) parseStmt() sql.Stmt {
 	if p.maybeToken(token.EndOfStatement) {
+		p.unscan()
 		return nil
 	}
 
-- 
2.43.0


From f067c1afeb2fd3ec7e60d1514d2a87630128f0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 06/32] fix: SET and USE with NULL is an error, not a nil
 dereference

---
 parser/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6c8a7c8..f6c8846 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1674,8 +1674,10 @@ func (p *Parser) parseSet() sql.Stmt {
 	}
 	if sv, ok := l.Value.(types.StringValue); ok {
 		s.Value = string(sv)
-	} else {
+	} else if l.Value != nil {
 		s.Value = l.Value.String()
+	} else {
+		p.error("expected a literal value, got NULL")
 	}
 
 	return &s
@@ -1852,8 +1854,10 @@ func (p *Parser) parseUse() sql.Stmt {
 	}
 	if sv, ok := l.Value.(types.StringValue); ok {
 		s.Value = string(sv)
-	} else {
+	} else if l.Value != nil {
 		s.Value = l.Value.String()
+	} else {
+		p.error("expected a literal value, got NULL")
 	}
 
 	return &s
-- 
2.43.0


From f0c6a890688a0282e34862c4ceb58ad819b9c14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 07/32] fix: reject unicode escapes beyond the largest rune

They were confused with the scanner's own (negative) tokens.
---
 parser/scanner/scanner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index bec3aba..94520c4 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -442,6 +442,10 @@ func (s *Scanner) scanUnicode(sctx *ScanCtx, digits int) rune {
 		u = u*16 + d
 		digits -= 1
 	}
+	if u > unicode.MaxRune {
+		sctx.Error = fmt.Errorf("scanner: invalid unicode escape: %X", u)
+		return token.Error
+	}
 	return rune(u)
 }
 
-- 
2.43.0


From 678e56aa1ace6913beeb70ddf514f4e904f5be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 08/32] fix: keep a trailing '-' or '/' at the end of the input

---
 parser/scanner/scanner.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 94520c4..b8a7425 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -151,8 +151,6 @@ SkipWhitespace:
 			}
 
 			goto SkipWhitespace
-		} else if r2 < 0 {
-			return r2
 		} else {
 			s.unreadRune()
 		}
@@ -173,8 +171,6 @@ SkipWhitespace:
 			}
 
 			goto SkipWhitespace
-		} else if r2 < 0 {
-			return r2
 		} else {
 			s.unreadRune()
 		}
-- 
2.43.0


From d2ff99df81e1aea819de7880781b5f221462cdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 09/32] fix: skip the rest of a statement whose first token is
 an error

The remainder of the statement was parsed as if it was a new statement.
---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index f6c8846..aa022e1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -33,6 +33,7 @@ func NewParser(rr io.RuneReader, fn string) *Parser {
 func (p *Parser) Parse() (stmt sql.Stmt, err error) {
 	t, err := p.scanRune()
 	if err != nil {
+		p.failed = true
 		return nil, err
 	} else if t == token.EOF {
 		return nil, io.EOF
-- 
2.43.0


From 6fddab2dc3d879a391d3e6fabc0933e05fe543f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 10/32] fix: don't swallow the rune following a lone '$'

If it was a semicolon, the following statement was lost.
---
 parser/scanner/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index b8a7425..b10d42b 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -248,6 +248,7 @@ SkipWhitespace:
 		if r == token.Error {
 			return token.Error
 		} else if !unicode.IsDigit(r) {
+			s.unreadRune()
 			sctx.Error = fmt.Errorf("scanner: expected parameter %s", s.buffer.String())
 			return token.Error
 		}
-- 
2.43.0


From 18711d3eebdb797ff5b89f77858d30178141df3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 11/32] fix: DETACH, EXECUTE, and PREPARE are errors, not empty
 statements

---
 parser/parser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index aa022e1..9a4cc89 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -257,12 +257,9 @@ func (p *Parser) parseStmt() sql.Stmt {
 		types.COPY,
 		types.CREATE,
 		types.DELETE,
-		types.DETACH,
 		types.DROP,
-		types.EXECUTE,
 		types.EXPLAIN,
 		types.INSERT,
-		types.PREPARE,
 		types.ROLLBACK,
 		types.SELECT,
 		types.SET,
-- 
2.43.0


From b3fdd18e912583d8bcb699adbeff6096d37299cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 12/32] fix: an insert which fails inserts nothing

The rows preceding the one with an invalid value or a duplicate key were kept.
---
 storage/basic/basic.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 0380e21..b6c4421 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -365,7 +365,8 @@ func (tbl *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxR
 }
 
 func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
-	tbl.tx.forWrite()
+	// Insert into a copy so that nothing is inserted unless all of the rows are.
+	tree := tbl.tx.tree.Clone()
 
 	rel := toRelationId(tbl.tid, primaryIndexId)
 	for _, row := range rows {
@@ -375,14 +376,15 @@ func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 		}
 
 		it := rowToItem(rel, tbl.tt.Key, row)
-		if tbl.tx.tree.Has(it) {
+		if tree.Has(it) {
 			return fmt.Errorf("basic: %s: primary index: existing row with duplicate key: %s",
 				tbl.tt.Name, row)
 		}
 
-		tbl.tx.tree.ReplaceOrInsert(it)
+		tree.ReplaceOrInsert(it)
 	}
 
+	tbl.tx.tree = tree
 	return nil
 }
 
-- 
2.43.0


From c2e3a6abb2c7d570afed15d1e8211702fe5ef008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 13/32] fix: check an update before making any change

A key update which failed because of a duplicate or an invalid value lost the
row, and updates to other columns were not checked against the column types.
---
 storage/basic/basic.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index b6c4421..fd274dc 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -442,25 +442,27 @@ func (rr rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []type
 	}
 	row := append(make([]types.Value, 0, len(it.row)), it.row...)
 	for idx, col := range cols {
-		row[col] = vals[idx]
+		val, err := types.ConvertValue(rr.tbl.tt.ColumnTypes[col], vals[idx])
+		if err != nil {
+			return err
+		}
+		row[col] = val
 	}
-
-	rr.tbl.tx.forWrite()
+	it = rowToItem(toRelationId(rr.tbl.tid, primaryIndexId), rr.tbl.tt.Key, row)
 
 	if types.ColumnKeyUpdated(rr.tbl.tt.Key, cols) {
-		err := rr.Delete(ctx)
-		if err != nil {
-			return err
+		if !bytes.Equal(it.key, rr.key) && rr.tbl.tx.tree.Has(it) {
+			return fmt.Errorf("basic: %s: primary index: existing row with duplicate key: %s",
+				rr.tbl.tt.Name, row)
 		}
-		err = rr.tbl.Insert(ctx, []types.Row{row})
+		err := rr.Delete(ctx)
 		if err != nil {
 			return err
 		}
-	} else {
-		rr.tbl.tx.tree.ReplaceOrInsert(
-			rowToItem(toRelationId(rr.tbl.tid, primaryIndexId), rr.tbl.tt.Key, row))
 	}
 
+	rr.tbl.tx.forWrite()
+	rr.tbl.tx.tree.ReplaceOrInsert(it)
 	return nil
 }
 
-- 
2.43.0


From 5fb7547f96e68013922f7ec75d79f161553e6b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 14/32] fix: dropping a table drops its rows

They were back when a table with the same id was created again.
---
 storage/basic/basic.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index fd274dc..293ae08 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -220,7 +220,18 @@ func (tx *transaction) DropTable(ctx context.Context, tid storage.TableId) error
 		panic(fmt.Sprintf("basic: unable to delete table type: %d", tid))
 	}
 
-	// XXX: delete all rows in the table
+	var items []item
+	tx.tree.AscendGreaterOrEqual(keyToItem(toRelationId(tid, 0), nil),
+		func(it item) bool {
+			if it.rel>>32 != relationId(tid) {
+				return false
+			}
+			items = append(items, it)
+			return true
+		})
+	for _, it := range items {
+		tx.tree.Delete(it)
+	}
 	return nil
 }
 
-- 
2.43.0


From e59827a2a7f7ab58e33c4c5b8155a4771a77c668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 15/32] fix: a predicate is not satisfied by NULL

Rows with a predicate on a nullable column panicked at the first NULL.
---
 storage/basic/basic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 293ae08..8128c76 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -359,7 +359,7 @@ func (tbl *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxR
 				return false
 			}
 
-			if predFn != nil && !predFn(it.row[predCol]) {
+			if predFn != nil && (it.row[predCol] == nil || !predFn(it.row[predCol])) {
 				return true
 			}
 
-- 
2.43.0


From f319b87b201ea6b53cb050840cee17c0f65239bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 16/32] fix: return an error if a table definition is too large
 to store

---
 engine/engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/engine.go b/engine/engine.go
index 188d1f2..cec6472 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -86,6 +86,8 @@ const (
 
 	maxReservedTableId  storage.TableId = 511
 	nextTableIdSequence                 = "next_table_id"
+
+	maxTableTypeSize = 8192 // size of tablesRow.Type
 )
 
 func NewEngine(store storage.Store) Engine {
@@ -399,6 +401,9 @@ func (tx *transaction) CreateTable(ctx context.Context, tn types.TableName,
 	if err != nil {
 		return err
 	}
+	if len(buf) > maxTableTypeSize {
+		return fmt.Errorf("engine: table %s: definition too large: %d bytes", tn, len(buf))
+	}
 	tid, err := tx.nextTableId(ctx)
 	if err != nil {
 		return err
-- 
2.43.0


From 9cfc741ab43e8455cc0fe7107ae663f3c2c385d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 17/32] fix: limit the length of an identifier after converting
 it to lower case

The lower case of a rune may need more bytes; such a name was longer than the
catalog can store.
---
 types/identifier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/identifier.go b/types/identifier.go
index b41e84b..b00e548 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -282,6 +282,9 @@ func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 		}
 
 		s = strings.ToLower(s)
+		if len(s) > MaxIdentifier {
+			s = s[:MaxIdentifier]
+		}
 	}
 
 	if id, ok := identifiers[s]; ok {
-- 
2.43.0


From 99b8d9be21f4b21221e4664bb10ff7b1d046cacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 18/32] fix: decode keywords which aren't reserved to the same
 identifier

---
 types/identifier.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/types/identifier.go b/types/identifier.go
index b00e548..a9e1c57 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -349,10 +349,11 @@ func (id *Identifier) GobDecode(val []byte) error {
 }
 
 func (id Identifier) GobEncode() ([]byte, error) {
-	if id.IsReserved() {
-		return append([]byte{1}, []byte(id.String())...), nil
+	s := id.String()
+	if kw, ok := keywords[s]; ok && kw == id {
+		return append([]byte{1}, []byte(s)...), nil
 	}
-	return append([]byte{0}, []byte(id.String())...), nil
+	return append([]byte{0}, []byte(s)...), nil
 }
 
 func init() {
-- 
2.43.0


From f2f18f9a2f2c3e1406e1dcd01015709b341e61b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 19/32] fix: format DEFAULT values and selects without a FROM

---
 parser/sql/query.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/parser/sql/query.go b/parser/sql/query.go
index ca2eb8b..278ef86 100644
--- a/parser/sql/query.go
+++ b/parser/sql/query.go
@@ -138,7 +138,11 @@ func (stmt *InsertValues) String() string {
 			if j > 0 {
 				buf.WriteString(", ")
 			}
-			buf.WriteString(v.String())
+			if v == nil {
+				buf.WriteString("DEFAULT")
+			} else {
+				buf.WriteString(v.String())
+			}
 		}
 
 		buf.WriteRune(')')
@@ -169,7 +173,11 @@ func (stmt *Update) String() string {
 		if i > 0 {
 			buf.WriteString(", ")
 		}
-		fmt.Fprintf(&buf, "%s = %s", cu.Column, cu.Expr)
+		if cu.Expr == nil {
+			fmt.Fprintf(&buf, "%s = DEFAULT", cu.Column)
+		} else {
+			fmt.Fprintf(&buf, "%s = %s", cu.Column, cu.Expr)
+		}
 	}
 	if stmt.Where != nil {
 		fmt.Fprintf(&buf, " WHERE %s", stmt.Where)
@@ -260,7 +268,9 @@ func (stmt *Select) String() string {
 			buf.WriteString(sr.String())
 		}
 	}
-	fmt.Fprintf(&buf, " FROM %s", stmt.From)
+	if stmt.From != nil {
+		fmt.Fprintf(&buf, " FROM %s", stmt.From)
+	}
 	if stmt.Where != nil {
 		fmt.Fprintf(&buf, " WHERE %s", stmt.Where)
 	}
-- 
2.43.0


From b61413c8fb71f8c5d64856dabfa5ce731e6cde4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 20/32] fix: a statement which can't be evaluated is an error

The panic left the transaction of the statement open, blocking every other
session; and an empty statement was dereferenced.
---
 evaluate/evaluate.go | 2 +-
 evaluate/session.go  | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/evaluate/evaluate.go b/evaluate/evaluate.go
index 7934c1b..5fe8c29 100644
--- a/evaluate/evaluate.go
+++ b/evaluate/evaluate.go
@@ -38,7 +38,7 @@ func Evaluate(ctx context.Context, tx engine.Transaction, stmt sql.Stmt) error {
 		panic("evaluate: set unexpected")
 	}
 
-	panic(fmt.Sprintf("evaluate: unexpected stmt: %#v", stmt))
+	return fmt.Errorf("evaluate: unexpected stmt: %s", stmt)
 }
 
 func columnNumber(nam types.Identifier, colNames []types.Identifier) (types.ColumnNum, bool) {
diff --git a/evaluate/session.go b/evaluate/session.go
index 100ca78..d1c9c97 100644
--- a/evaluate/session.go
+++ b/evaluate/session.go
@@ -49,6 +49,10 @@ func (ses *Session) ResolveSchema(sn types.SchemaName) types.SchemaName {
 }
 
 func (ses *Session) Evaluate(ctx context.Context, stmt sql.Stmt) error {
+	if stmt == nil {
+		// Empty statement.
+		return nil
+	}
 	stmt.Resolve(ses)
 
 	switch stmt := stmt.(type) {
-- 
2.43.0


From e0043e79c37b0b46ae2bc84e919fb4b0335df73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 21/32] fix: stop when the console can't be read

The console printed the same error over and over.
---
 main.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 09140cc..5e4307f 100644
--- a/main.go
+++ b/main.go
@@ -26,8 +26,22 @@ import (
 -- physical: storage
 */
 
+type console struct {
+	*bufio.Reader
+	err error
+}
+
+func (c *console) ReadRune() (rune, int, error) {
+	r, size, err := c.Reader.ReadRune()
+	if err != nil {
+		c.err = err
+	}
+	return r, size, err
+}
+
 func main() {
-	p := parser.NewParser(bufio.NewReader(os.Stdin), "console")
+	c := &console{Reader: bufio.NewReader(os.Stdin)}
+	p := parser.NewParser(c, "console")
 	for {
 		fmt.Print("maho: ")
 		stmt, err := p.Parse()
@@ -35,6 +49,9 @@ func main() {
 			break
 		} else if err != nil {
 			fmt.Printf("maho: %s\n", err)
+			if c.err != nil && c.err != io.EOF {
+				break
+			}
 			continue
 		}
 
-- 
2.43.0


From b6a466d6212abe02dd90f52643b03b6942278581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 22/32] fix: a column length of zero is an error

Formatting such a column type panicked.
---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9a4cc89..1190e7f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -677,7 +677,7 @@ func (p *Parser) parseColumnType() types.ColumnType {
 
 	if ct.Type == types.StringType || ct.Type == types.BytesType {
 		if p.maybeToken(token.LParen) {
-			ct.Size = uint32(p.expectInteger(0, types.MaxColumnSize))
+			ct.Size = uint32(p.expectInteger(1, types.MaxColumnSize))
 			p.expectTokens(token.RParen)
 		}
 	}
-- 
2.43.0


From 3cc970937ffa43eccb7f364e137137f9c2416916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 23/32] fix: read nullable fields of any size from a typed
 table

---
 engine/typedtable.go | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/engine/typedtable.go b/engine/typedtable.go
index e1a429a..19bf11f 100644
--- a/engine/typedtable.go
+++ b/engine/typedtable.go
@@ -88,6 +88,10 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 				fval.SetZero()
 				continue
 			}
+			if ct.Type != types.BytesType {
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval = fval.Elem()
+			}
 		}
 
 		switch ct.Type {
@@ -96,23 +100,13 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if !ok {
 				panic(fmt.Sprintf("typed tabled: expected boolean value: %#v", row[cdx]))
 			}
-			if ct.NotNull {
-				fval.SetBool(bool(b))
-			} else {
-				b := bool(b)
-				fval.Set(reflect.ValueOf(&b))
-			}
+			fval.SetBool(bool(b))
 		case types.StringType:
 			s, ok := row[cdx].(types.StringValue)
 			if !ok {
 				panic(fmt.Sprintf("typed tabled: expected string value: %#v", row[cdx]))
 			}
-			if ct.NotNull {
-				fval.SetString(string(s))
-			} else {
-				s := string(s)
-				fval.Set(reflect.ValueOf(&s))
-			}
+			fval.SetString(string(s))
 		case types.BytesType:
 			b, ok := row[cdx].(types.BytesValue)
 			if !ok {
@@ -124,23 +118,13 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if !ok {
 				panic(fmt.Sprintf("typed tabled: expected float64 value: %#v", row[cdx]))
 			}
-			if ct.NotNull {
-				fval.SetFloat(float64(f))
-			} else {
-				f := float64(f)
-				fval.Set(reflect.ValueOf(&f))
-			}
+			fval.SetFloat(float64(f))
 		case types.Int64Type:
 			i, ok := row[cdx].(types.Int64Value)
 			if !ok {
 				panic(fmt.Sprintf("typed tabled: expected int64 value: %#v", row[cdx]))
 			}
-			if ct.NotNull {
-				fval.SetInt(int64(i))
-			} else {
-				i := int64(i)
-				fval.Set(reflect.ValueOf(&i))
-			}
+			fval.SetInt(int64(i))
 		default:
 			panic(fmt.Sprintf("typed table: unexpected column type: %#v %d", ct, ct.Type))
 		}
-- 
2.43.0


From 5f3ba7d4f58fdd2a5e3c2b6c8485b08986473a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 24/32] fix: the end of the input after a statement with an
 error is not an error

---
 parser/parser.go | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1190e7f..46ad8cb 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -31,6 +31,14 @@ func NewParser(rr io.RuneReader, fn string) *Parser {
 }
 
 func (p *Parser) Parse() (stmt sql.Stmt, err error) {
+	if p.failed {
+		err = p.skipStmt()
+		if err != nil {
+			return nil, err
+		}
+		p.failed = false
+	}
+
 	t, err := p.scanRune()
 	if err != nil {
 		p.failed = true
@@ -40,20 +48,6 @@ func (p *Parser) Parse() (stmt sql.Stmt, err error) {
 	}
 	p.unscan()
 
-	if p.failed {
-		for {
-			t, err = p.scanRune()
-			if err != nil {
-				return nil, err
-			} else if t == token.EOF {
-				return nil, io.EOF
-			} else if t == token.EndOfStatement {
-				break
-			}
-		}
-		p.failed = false
-	}
-
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(runtime.Error); ok {
@@ -70,6 +64,20 @@ func (p *Parser) Parse() (stmt sql.Stmt, err error) {
 	return
 }
 
+// skipStmt skips the rest of a statement which had an error.
+func (p *Parser) skipStmt() error {
+	for {
+		t, err := p.scanRune()
+		if err != nil {
+			return err
+		} else if t == token.EOF {
+			return io.EOF
+		} else if t == token.EndOfStatement {
+			return nil
+		}
+	}
+}
+
 func (p *Parser) error(msg string) {
 	panic(fmt.Errorf("parser: %s: %s", p.sctx.Position, msg))
 }
-- 
2.43.0


From 8005777421526b655a5db3a3453ccf82810bcc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 25/32] fix: report only the first error of a statement

---
 parser/parser.go          | 4 ++++
 parser/scanner/scanner.go | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 46ad8cb..bb0d870 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -69,6 +69,10 @@ func (p *Parser) skipStmt() error {
 	for {
 		t, err := p.scanRune()
 		if err != nil {
+			if !p.scanner.ReadFailed() {
+				// Only one error per statement.
+				continue
+			}
 			return err
 		} else if t == token.EOF {
 			return io.EOF
diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index b10d42b..f1691bc 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -73,6 +73,12 @@ func (s *Scanner) Scan(sctx *ScanCtx) {
 	sctx.Token = s.scan(sctx)
 }
 
+// ReadFailed returns true if the reader failed; any other error is one of the text which was
+// scanned.
+func (s *Scanner) ReadFailed() bool {
+	return s.read == token.Error && !s.unread
+}
+
 type runeReader struct {
 	s   *Scanner
 	err error
-- 
2.43.0


From 6bad8854e4f792c86cd6345ad23acc6f86a74302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:00 +0000
Subject: [PATCH 26/32] fix: a bad escape does not end its constant before the
 closing quote

---
 parser/scanner/scanner.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index f1691bc..1dd7936 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -418,6 +418,7 @@ func (s *Scanner) scanHexDigit(sctx *ScanCtx) (uint, bool) {
 		return uint(r - 'a' + 10), true
 	}
 	if r != token.Error {
+		s.unreadRune()
 		sctx.Error = fmt.Errorf("scanner: expected hex digit")
 	}
 	return 0, false
@@ -458,6 +459,7 @@ func (s *Scanner) scanOctalDigit(sctx *ScanCtx) (byte, bool) {
 		return byte(r - '0'), true
 	}
 	if r != token.Error {
+		s.unreadRune()
 		sctx.Error = fmt.Errorf("scanner: expected octal digit")
 	}
 	return 0, false
@@ -496,6 +498,7 @@ func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
 }
 
 func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc bool) rune {
+	var escErr error
 	for {
 		r := s.readRune(sctx)
 		if r == token.EOF {
@@ -560,16 +563,28 @@ func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc bool) rune {
 				sctx.Error = errIncompleteEscape
 				return token.Error
 			} else if r == token.Error {
-				return token.Error
+				if s.ReadFailed() {
+					return token.Error
+				}
+				// The constant ends at its closing quote nonetheless.
+				if escErr == nil {
+					escErr = sctx.Error
+				}
+				continue
 			}
 		}
 		s.buffer.WriteRune(r)
 	}
 
+	if escErr != nil {
+		sctx.Error = escErr
+		return token.Error
+	}
 	return token.String
 }
 
 func (s *Scanner) scanHexBytes(sctx *ScanCtx) rune {
+	var hexErr error
 	for {
 		r := s.readRune(sctx)
 		if r == token.EOF {
@@ -579,20 +594,31 @@ func (s *Scanner) scanHexBytes(sctx *ScanCtx) rune {
 			return token.Error
 		} else if r == '\'' {
 			break
+		} else if hexErr != nil {
+			continue
 		}
 
 		s.unreadRune()
 		d1, ok := s.scanHexDigit(sctx)
-		if !ok {
-			return token.Error
+		var d2 uint
+		if ok {
+			d2, ok = s.scanHexDigit(sctx)
 		}
-		d2, ok := s.scanHexDigit(sctx)
 		if !ok {
-			return token.Error
+			if s.ReadFailed() {
+				return token.Error
+			}
+			// The constant ends at its closing quote nonetheless.
+			hexErr = sctx.Error
+			continue
 		}
 		s.buffer.WriteByte(byte(d1*16 + d2))
 	}
 
+	if hexErr != nil {
+		sctx.Error = hexErr
+		return token.Error
+	}
 	sctx.Bytes = append(make([]byte, 0, s.buffer.Len()), s.buffer.Bytes()...)
 	return token.Bytes
 }
-- 
2.43.0


From c8fbbd4dd75cf555c2e519a2784fbea073dd781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 27/32] fix: report where a statement ends when its end is
 unexpected

The position of an error at a semicolon or at the end of the input was that of
some earlier token, or none.
---
 parser/scanner/scanner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 1dd7936..6584084 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -129,6 +129,9 @@ SkipWhitespace:
 	r := s.readRune(sctx)
 
 	for {
+		sctx.Column = s.column
+		sctx.Line = s.line
+
 		if r < 0 {
 			return r
 		}
@@ -182,9 +185,6 @@ SkipWhitespace:
 		}
 	}
 
-	sctx.Column = s.column
-	sctx.Line = s.line
-
 	if r == 'e' || r == 'E' {
 		if s.readRune(sctx) == '\'' {
 			return s.scanString(sctx, true)
-- 
2.43.0


From 57d0244bff572a37697baec2926cde25b1886115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 28/32] fix: show the bytes which were not expected

The message had the string which was scanned before them.
---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index bb0d870..3929597 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -137,7 +137,7 @@ func (p *Parser) got() string {
 	case token.String:
 		return fmt.Sprintf("string %q", p.sctx.String)
 	case token.Bytes:
-		return fmt.Sprintf("bytes %v", p.sctx.String)
+		return fmt.Sprintf("bytes %v", p.sctx.Bytes)
 	case token.Integer:
 		return fmt.Sprintf("integer %d", p.sctx.Integer)
 	case token.Float:
-- 
2.43.0


From 3a8669de24320361baf995ad7d61e5028ed7ea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 29/32] fix: nesting too deep is an error

It overflowed the stack, which ends the process.
---
 parser/parser.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3929597..c55c941 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -12,7 +12,10 @@ import (
 	"github.com/leftmike/maho/types"
 )
 
-const lookBackAmount = 3
+const (
+	lookBackAmount = 3
+	maxNesting     = 10000
+)
 
 type Parser struct {
 	scanner   scanner.Scanner
@@ -22,6 +25,7 @@ type Parser struct {
 	unscanned uint
 	scanned   rune
 	failed    bool
+	nesting   int
 }
 
 func NewParser(rr io.RuneReader, fn string) *Parser {
@@ -47,6 +51,7 @@ func (p *Parser) Parse() (stmt sql.Stmt, err error) {
 		return nil, io.EOF
 	}
 	p.unscan()
+	p.nesting = 0
 
 	defer func() {
 		if r := recover(); r != nil {
@@ -1037,6 +1042,7 @@ func (p *Parser) ParseExpr() (e sql.Expr, err error) {
 		}
 	}()
 
+	p.nesting = 0
 	e = p.parseExpr()
 	return
 }
@@ -1177,7 +1183,23 @@ func (p *Parser) optionalBinaryOp() (sql.Op, bool, bool) {
 	return 0, false, false
 }
 
+// nest limits how deep expressions and from items are nested: there is no recovering from
+// running out of stack.
+func (p *Parser) nest() {
+	p.nesting += 1
+	if p.nesting > maxNesting {
+		p.error("nested too deep")
+	}
+}
+
+func (p *Parser) unnest() {
+	p.nesting -= 1
+}
+
 func (p *Parser) parseSubExpr() sql.Expr {
+	p.nest()
+	defer p.unnest()
+
 	var e sql.Expr
 	r := p.scan()
 	if r == token.Reserved {
@@ -1545,6 +1567,9 @@ join-type = [INNER] JOIN
 */
 
 func (p *Parser) parseFromItem() sql.FromItem {
+	p.nest()
+	defer p.unnest()
+
 	var fi sql.FromItem
 	if p.maybeToken(token.LParen) {
 		if s, ok := p.optionalSubquery(); ok {
-- 
2.43.0


From fd0484e9540080eb9767e32f39f78fef422d6ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 30/32] fix: a comment may follow the delimiter of COPY

The scanner had read only its first character when the rest of the line was
skipped, so the data was parsed as the rest of the statement.
---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index c55c941..e8a3237 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1423,6 +1423,10 @@ func (p *Parser) parseCopy() sql.Stmt {
 		s.Delimiter = rune(p.sctx.String[0])
 	}
 
+	// The rest of the line is skipped only after the statement has ended.
+	p.expectEndOfStatement()
+	p.unscan()
+
 	// Must be last because the scanner will skip to the end of the line before returning
 	// the reader.
 	s.From, s.FromLine = p.scanner.RuneReader()
-- 
2.43.0


From 048c1f488b4e557e39c33852ad87a25a02ea88d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 31/32] fix: refuse to convert a float to an integer which is
 out of range

---
 types/value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/value.go b/types/value.go
index 9ebb7fe..58162f2 100644
--- a/types/value.go
+++ b/types/value.go
@@ -284,6 +284,10 @@ func CastValue(vt ValueType, val Value) (Value, error) {
 		}
 	case Int64Type:
 		if f, ok := val.(Float64Value); ok {
+			// math.MaxInt64 is not a float64; the one after it is.
+			if math.IsNaN(float64(f)) || f < math.MinInt64 || f >= -math.MinInt64 {
+				return nil, fmt.Errorf("expected an integer value: %v", val)
+			}
 			return Int64Value(f), nil
 		} else if s, ok := val.(StringValue); ok {
 			i, err := strconv.ParseInt(strings.Trim(string(s), " \t\n"), 10, 64)
-- 
2.43.0


From fc40fa784749db2e980105a67ea701d7534a0fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:36 +0000
Subject: [PATCH 32/32] fix: don't share memory between the store and its
 callers

---
 storage/basic/basic.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 8128c76..26a2b09 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -375,6 +375,14 @@ func (tbl *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxR
 	}, nil
 }
 
+// copyValue so that no memory is shared between the store and its callers.
+func copyValue(val types.Value) types.Value {
+	if b, ok := val.(types.BytesValue); ok {
+		return append(make(types.BytesValue, 0, len(b)), b...)
+	}
+	return val
+}
+
 func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 	// Insert into a copy so that nothing is inserted unless all of the rows are.
 	tree := tbl.tx.tree.Clone()
@@ -386,6 +394,10 @@ func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 			return err
 		}
 
+		for idx := range row {
+			row[idx] = copyValue(row[idx])
+		}
+
 		it := rowToItem(rel, tbl.tt.Key, row)
 		if tree.Has(it) {
 			return fmt.Errorf("basic: %s: primary index: existing row with duplicate key: %s",
@@ -409,15 +421,20 @@ func (rs *rows) Next(ctx context.Context) (types.Row, error) {
 	}
 
 	rs.next += 1
+	it := rs.items[rs.next-1]
 	if rs.cols != nil {
 		row := make([]types.Value, len(rs.cols))
 		for idx, col := range rs.cols {
-			row[idx] = rs.items[rs.next-1].row[col]
+			row[idx] = copyValue(it.row[col])
 		}
 		return row, nil
 	}
 
-	return rs.items[rs.next-1].row, nil
+	row := make([]types.Value, len(it.row))
+	for idx, val := range it.row {
+		row[idx] = copyValue(val)
+	}
+	return row, nil
 }
 
 func (rs *rows) Current() (storage.RowRef, error) {
@@ -457,7 +474,7 @@ func (rr rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []type
 		if err != nil {
 			return err
 		}
-		row[col] = val
+		row[col] = copyValue(val)
 	}
 	it = rowToItem(toRelationId(rr.tbl.tid, primaryIndexId), rr.tbl.tt.Key, row)
 
-- 
2.43.0

