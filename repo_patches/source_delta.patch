From f751a504b0f279f47c8aec762cd4ac94abe2e579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 01/40] fix: Identifier.String must lock the identifier table

---
 types/identifier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/identifier.go b/types/identifier.go
index 9f2c95a..b41e84b 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -320,6 +320,9 @@ func ID(s string, quoted bool) Identifier {
 }
 
 func (id Identifier) String() string {
+	mutex.RLock()
+	defer mutex.RUnlock()
+
 	return names[id]
 }
 
-- 
2.43.0


From 6312dba06f39d377dd89657a121db7ff0f95ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 02/40] fix: encode all keyword identifiers so that they decode
 to themselves

---
 types/identifier.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/types/identifier.go b/types/identifier.go
index b41e84b..b30e4b3 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -346,10 +346,11 @@ func (id *Identifier) GobDecode(val []byte) error {
 }
 
 func (id Identifier) GobEncode() ([]byte, error) {
-	if id.IsReserved() {
-		return append([]byte{1}, []byte(id.String())...), nil
+	s := id.String()
+	if kw, ok := keywords[s]; ok && kw == id {
+		return append([]byte{1}, []byte(s)...), nil
 	}
-	return append([]byte{0}, []byte(id.String())...), nil
+	return append([]byte{0}, []byte(s)...), nil
 }
 
 func init() {
-- 
2.43.0


From df071a127da6ed30d457f53153816123c9ee8f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 03/40] fix: limit the length of identifiers after converting
 to lower case

---
 types/identifier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/identifier.go b/types/identifier.go
index b30e4b3..1fed5c2 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -282,6 +282,10 @@ func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 		}
 
 		s = strings.ToLower(s)
+		if len(s) > MaxIdentifier {
+			// Lower case can be longer than upper case.
+			s = s[:MaxIdentifier]
+		}
 	}
 
 	if id, ok := identifiers[s]; ok {
-- 
2.43.0


From 311d0b72ff2fb624aa59fcd8f094ca394c96a51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 04/40] fix: insert must not leave a missing NOT NULL column
 NULL

---
 storage/basic/basic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 0380e21..b34620f 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -369,6 +369,12 @@ func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 
 	rel := toRelationId(tbl.tid, primaryIndexId)
 	for _, row := range rows {
+		if len(row) < len(tbl.tt.ColumnTypes) {
+			// Missing columns are NULL, which needs to be checked against the column type.
+			row = append(make(types.Row, 0, len(tbl.tt.ColumnTypes)), row...)
+			row = append(row, make(types.Row, len(tbl.tt.ColumnTypes)-len(row))...)
+		}
+
 		row, err := types.ConvertRow(tbl.tt.ColumnTypes, row)
 		if err != nil {
 			return err
-- 
2.43.0


From 864a1f02b1e244c6e1f83673281c4f166b86623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 05/40] fix: update must convert values to the column types

---
 storage/basic/basic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index b34620f..a993286 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -448,6 +448,10 @@ func (rr rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []type
 	for idx, col := range cols {
 		row[col] = vals[idx]
 	}
+	row, err := types.ConvertRow(rr.tbl.tt.ColumnTypes, row)
+	if err != nil {
+		return err
+	}
 
 	rr.tbl.tx.forWrite()
 
-- 
2.43.0


From 8037397b86ce462137a5d3a433a63fef70064180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 06/40] fix: a failed update of the primary key must keep the
 existing row

---
 storage/basic/basic.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index a993286..0cdf65b 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -456,12 +456,14 @@ func (rr rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []type
 	rr.tbl.tx.forWrite()
 
 	if types.ColumnKeyUpdated(rr.tbl.tt.Key, cols) {
+		tree := rr.tbl.tx.tree.Clone()
 		err := rr.Delete(ctx)
-		if err != nil {
-			return err
+		if err == nil {
+			err = rr.tbl.Insert(ctx, []types.Row{row})
 		}
-		err = rr.tbl.Insert(ctx, []types.Row{row})
 		if err != nil {
+			// Keep the existing row.
+			rr.tbl.tx.tree = tree
 			return err
 		}
 	} else {
-- 
2.43.0


From ca38a374cfdfc271ffbb9a07babe048e1618957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 07/40] fix: a failed insert must not insert any of the rows

---
 storage/basic/basic.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 0cdf65b..f8c3d56 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -367,6 +367,9 @@ func (tbl *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxR
 func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 	tbl.tx.forWrite()
 
+	// Insert all of the rows or none of them.
+	tree := tbl.tx.tree.Clone()
+
 	rel := toRelationId(tbl.tid, primaryIndexId)
 	for _, row := range rows {
 		if len(row) < len(tbl.tt.ColumnTypes) {
@@ -381,14 +384,15 @@ func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 		}
 
 		it := rowToItem(rel, tbl.tt.Key, row)
-		if tbl.tx.tree.Has(it) {
+		if tree.Has(it) {
 			return fmt.Errorf("basic: %s: primary index: existing row with duplicate key: %s",
 				tbl.tt.Name, row)
 		}
 
-		tbl.tx.tree.ReplaceOrInsert(it)
+		tree.ReplaceOrInsert(it)
 	}
 
+	tbl.tx.tree = tree
 	return nil
 }
 
-- 
2.43.0


From 4a442c7fe43f1610f358ddcfde6af45cc5b1edc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 08/40] fix: drop table must delete all rows in the table

---
 storage/basic/basic.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index f8c3d56..d01eb50 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -220,7 +220,20 @@ func (tx *transaction) DropTable(ctx context.Context, tid storage.TableId) error
 		panic(fmt.Sprintf("basic: unable to delete table type: %d", tid))
 	}
 
-	// XXX: delete all rows in the table
+	rel := toRelationId(tid, primaryIndexId)
+	var items []item
+	tx.tree.AscendGreaterOrEqual(rowToItem(rel, nil, nil),
+		func(it item) bool {
+			if it.rel != rel {
+				return false
+			}
+			items = append(items, it)
+			return true
+		})
+	for _, it := range items {
+		tx.tree.Delete(it)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 1fdd57c04b929c27e479e23b13f696c7bf7f620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 09/40] fix: stored rows must not share memory with the rows of
 callers

---
 storage/basic/basic.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index d01eb50..056d30f 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -396,7 +396,7 @@ func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 			return err
 		}
 
-		it := rowToItem(rel, tbl.tt.Key, row)
+		it := rowToItem(rel, tbl.tt.Key, copyRow(row))
 		if tree.Has(it) {
 			return fmt.Errorf("basic: %s: primary index: existing row with duplicate key: %s",
 				tbl.tt.Name, row)
@@ -409,6 +409,18 @@ func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 	return nil
 }
 
+// copyRow makes a copy of row which does not share memory with it.
+func copyRow(row types.Row) types.Row {
+	nrow := make(types.Row, len(row))
+	for idx, val := range row {
+		if b, ok := val.(types.BytesValue); ok {
+			val = slices.Clone(b)
+		}
+		nrow[idx] = val
+	}
+	return nrow
+}
+
 func (rs *rows) Next(ctx context.Context) (types.Row, error) {
 	if rs.next < 0 {
 		panic(fmt.Sprintf("basic: next on closed rows for table %d", rs.tbl.tid))
@@ -424,10 +436,10 @@ func (rs *rows) Next(ctx context.Context) (types.Row, error) {
 		for idx, col := range rs.cols {
 			row[idx] = rs.items[rs.next-1].row[col]
 		}
-		return row, nil
+		return copyRow(row), nil
 	}
 
-	return rs.items[rs.next-1].row, nil
+	return copyRow(rs.items[rs.next-1].row), nil
 }
 
 func (rs *rows) Current() (storage.RowRef, error) {
@@ -485,7 +497,7 @@ func (rr rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []type
 		}
 	} else {
 		rr.tbl.tx.tree.ReplaceOrInsert(
-			rowToItem(toRelationId(rr.tbl.tid, primaryIndexId), rr.tbl.tt.Key, row))
+			rowToItem(toRelationId(rr.tbl.tid, primaryIndexId), rr.tbl.tt.Key, copyRow(row)))
 	}
 
 	return nil
-- 
2.43.0


From f802e3e63cf15013e3905ef13de99d35098c142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 10/40] fix: complete the transaction of a statement which
 panics

---
 evaluate/session.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/evaluate/session.go b/evaluate/session.go
index 100ca78..7195ea2 100644
--- a/evaluate/session.go
+++ b/evaluate/session.go
@@ -94,7 +94,15 @@ func (ses *Session) Evaluate(ctx context.Context, stmt sql.Stmt) error {
 
 	if ses.tx == nil {
 		tx := ses.eng.Begin()
+		evaluated := false
+		defer func() {
+			if !evaluated {
+				// Evaluate panicked; the transaction must not be left active.
+				tx.Rollback()
+			}
+		}()
 		err := Evaluate(ctx, tx, stmt)
+		evaluated = true
 		if err != nil {
 			tx.Rollback()
 			return err
-- 
2.43.0


From f5e27bb2bf9b1d042ff40eb367268c41c79b0568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 11/40] fix: complete the transaction of a database operation
 which panics

---
 engine/engine.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/engine/engine.go b/engine/engine.go
index 188d1f2..bc7af19 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -132,7 +132,17 @@ func (eng *engine) withTransaction(
 
 	tx := eng.store.Begin()
 	ctx := context.Background()
+
+	evaluated := false
+	defer func() {
+		if !evaluated {
+			// fn panicked; the transaction must not be left active.
+			tx.Rollback()
+		}
+	}()
+
 	err := fn(tx, ctx)
+	evaluated = true
 	if err != nil {
 		tx.Rollback()
 		return err
-- 
2.43.0


From fe39a7ded2b2cc2df72ce280a00cf9baf68833d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 12/40] fix: creating a table with a type which is too large
 must be an error

---
 engine/engine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/engine.go b/engine/engine.go
index bc7af19..cb46663 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -86,6 +86,8 @@ const (
 
 	maxReservedTableId  storage.TableId = 511
 	nextTableIdSequence                 = "next_table_id"
+
+	maxTableTypeSize = 8192 // Must be the same as the size of tablesRow.Type
 )
 
 func NewEngine(store storage.Store) Engine {
@@ -408,6 +410,8 @@ func (tx *transaction) CreateTable(ctx context.Context, tn types.TableName,
 	buf, err := tt.Encode()
 	if err != nil {
 		return err
+	} else if len(buf) > maxTableTypeSize {
+		return fmt.Errorf("engine: table type too large: %s: %d", tn, len(buf))
 	}
 	tid, err := tx.nextTableId(ctx)
 	if err != nil {
-- 
2.43.0


From 9dcadbeab2bb7912039fc7b0d3102a9573ba4eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 13/40] fix: bytes tokens must not share the scan buffer

---
 parser/scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 36fb80c..47480bb 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -468,7 +468,7 @@ func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
 	if r == token.Error {
 		return token.Error
 	}
-	sctx.Bytes = s.buffer.Bytes()
+	sctx.Bytes = bytes.Clone(s.buffer.Bytes())
 	return token.Bytes
 }
 
@@ -570,6 +570,6 @@ func (s *Scanner) scanHexBytes(sctx *ScanCtx) rune {
 		s.buffer.WriteByte(byte(d1*16 + d2))
 	}
 
-	sctx.Bytes = s.buffer.Bytes()
+	sctx.Bytes = bytes.Clone(s.buffer.Bytes())
 	return token.Bytes
 }
-- 
2.43.0


From 691b71ebd986f4b2b3813884c3c02d6b21bfa458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 14/40] fix: a unicode escape which is not a code point must be
 an error

---
 parser/scanner/scanner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 47480bb..a96a007 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -426,6 +426,10 @@ func (s *Scanner) scanUnicode(sctx *ScanCtx, digits int) rune {
 		u = u*16 + d
 		digits -= 1
 	}
+	if u > unicode.MaxRune {
+		sctx.Error = fmt.Errorf("scanner: invalid unicode code point")
+		return token.Error
+	}
 	return rune(u)
 }
 
-- 
2.43.0


From 67cc857840e569166fd2dcca19f28440e53abe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 15/40] fix: scan a minus or slash which is the last character

---
 parser/scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index a96a007..2efeffa 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -142,7 +142,7 @@ SkipWhitespace:
 			}
 
 			goto SkipWhitespace
-		} else if r2 < 0 {
+		} else if r2 == token.Error {
 			return r2
 		} else {
 			s.unreadRune()
@@ -164,7 +164,7 @@ SkipWhitespace:
 			}
 
 			goto SkipWhitespace
-		} else if r2 < 0 {
+		} else if r2 == token.Error {
 			return r2
 		} else {
 			s.unreadRune()
-- 
2.43.0


From 46830d08588f186b507b1e0ed1165696e1e0fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 16/40] fix: an empty quoted identifier must be an error

---
 parser/scanner/scanner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 2efeffa..c56c4bd 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -16,6 +16,7 @@ var (
 	errMissingQuote     = errors.New(`scanner: missing terminating "'"`)
 	errIncompleteEscape = errors.New("scanner: incomplete escape")
 	errZeroParameter    = errors.New("scanner: zero parameter")
+	errEmptyIdentifier  = errors.New("scanner: empty quoted identifier")
 )
 
 type Position struct {
@@ -384,6 +385,10 @@ func (s *Scanner) scanQuotedIdentifier(sctx *ScanCtx, delim rune) rune {
 		}
 		s.buffer.WriteRune(r)
 	}
+	if s.buffer.Len() == 0 {
+		sctx.Error = errEmptyIdentifier
+		return token.Error
+	}
 
 	sctx.Identifier = types.ID(s.buffer.String(), true)
 	return token.Identifier
-- 
2.43.0


From 23523b5d780603a5c8586600d08e11ae48bff98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 17/40] fix: hex and octal escapes in bytes must be a single
 byte

---
 parser/scanner/scanner.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index c56c4bd..60df910 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -464,7 +464,7 @@ func (s *Scanner) scanOctal(sctx *ScanCtx, r rune) rune {
 }
 
 func (s *Scanner) scanString(sctx *ScanCtx, esc bool) rune {
-	r := s.scanQuotedConstant(sctx, esc)
+	r := s.scanQuotedConstant(sctx, esc, false)
 	if r == token.Error {
 		return token.Error
 	}
@@ -473,7 +473,7 @@ func (s *Scanner) scanString(sctx *ScanCtx, esc bool) rune {
 }
 
 func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
-	r := s.scanQuotedConstant(sctx, esc)
+	r := s.scanQuotedConstant(sctx, esc, true)
 	if r == token.Error {
 		return token.Error
 	}
@@ -481,8 +481,9 @@ func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
 	return token.Bytes
 }
 
-func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc bool) rune {
+func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc, byteEsc bool) rune {
 	for {
+		isByte := false
 		r := s.readRune(sctx)
 		if r == token.EOF {
 			sctx.Error = errMissingQuote
@@ -534,12 +535,14 @@ func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc bool) rune {
 				r = 13 // carriage return
 			case 'x':
 				r = s.scanHex(sctx)
+				isByte = byteEsc
 			case 'u':
 				r = s.scanUnicode(sctx, 4)
 			case 'U':
 				r = s.scanUnicode(sctx, 8)
 			case '0', '1', '2', '3', '4', '5', '6', '7':
 				r = s.scanOctal(sctx, r)
+				isByte = byteEsc
 			}
 
 			if r == token.EOF {
@@ -549,7 +552,11 @@ func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc bool) rune {
 				return token.Error
 			}
 		}
-		s.buffer.WriteRune(r)
+		if isByte {
+			s.buffer.WriteByte(byte(r))
+		} else {
+			s.buffer.WriteRune(r)
+		}
 	}
 
 	return token.String
-- 
2.43.0


From e7988c6122d0561fb95bf4a8dee6f1890640b0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 18/40] fix: an empty statement must not consume the next
 statement

---
 parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index d65da6f..3c30e73 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -245,6 +245,8 @@ func (p *Parser) expectEndOfStatement() {
 
 func (p *Parser) parseStmt() sql.Stmt {
 	if p.maybeToken(token.EndOfStatement) {
+		// Empty statement: leave the token for expectEndOfStatement.
+		p.unscan()
 		return nil
 	}
 
-- 
2.43.0


From 642a652876460a7f7488d1aff9140b4adbf253bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 19/40] fix: skip the rest of a statement which starts with a
 scan error

---
 parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3c30e73..2b19100 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -33,6 +33,8 @@ func NewParser(rr io.RuneReader, fn string) *Parser {
 func (p *Parser) Parse() (stmt sql.Stmt, err error) {
 	t, err := p.scanRune()
 	if err != nil {
+		// Skip the rest of the statement.
+		p.failed = true
 		return nil, err
 	} else if t == token.EOF {
 		return nil, io.EOF
-- 
2.43.0


From d3cb24d9ab5dedc874115204f209251a406626cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 20/40] fix: set and use with a NULL value must be an error

---
 parser/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2b19100..cea3224 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1675,7 +1675,9 @@ func (p *Parser) parseSet() sql.Stmt {
 	if !ok {
 		p.error(fmt.Sprintf("expected a literal value, got %s", e.String()))
 	}
-	if sv, ok := l.Value.(types.StringValue); ok {
+	if l.Value == nil {
+		p.error("expected a literal value, got NULL")
+	} else if sv, ok := l.Value.(types.StringValue); ok {
 		s.Value = string(sv)
 	} else {
 		s.Value = l.Value.String()
@@ -1853,7 +1855,9 @@ func (p *Parser) parseUse() sql.Stmt {
 	if !ok {
 		p.error(fmt.Sprintf("expected a literal value, got %s", e.String()))
 	}
-	if sv, ok := l.Value.(types.StringValue); ok {
+	if l.Value == nil {
+		p.error("expected a literal value, got NULL")
+	} else if sv, ok := l.Value.(types.StringValue); ok {
 		s.Value = string(sv)
 	} else {
 		s.Value = l.Value.String()
-- 
2.43.0


From af56a2066850b7f44ff2e789f5c8278a2b17eb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 21/40] fix: check for the end of file after skipping a failed
 statement

---
 parser/parser.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index cea3224..017c76d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -31,6 +31,17 @@ func NewParser(rr io.RuneReader, fn string) *Parser {
 }
 
 func (p *Parser) Parse() (stmt sql.Stmt, err error) {
+	for p.failed {
+		t, err := p.scanRune()
+		if err != nil {
+			return nil, err
+		} else if t == token.EOF {
+			return nil, io.EOF
+		} else if t == token.EndOfStatement {
+			p.failed = false
+		}
+	}
+
 	t, err := p.scanRune()
 	if err != nil {
 		// Skip the rest of the statement.
@@ -41,20 +52,6 @@ func (p *Parser) Parse() (stmt sql.Stmt, err error) {
 	}
 	p.unscan()
 
-	if p.failed {
-		for {
-			t, err = p.scanRune()
-			if err != nil {
-				return nil, err
-			} else if t == token.EOF {
-				return nil, io.EOF
-			} else if t == token.EndOfStatement {
-				break
-			}
-		}
-		p.failed = false
-	}
-
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(runtime.Error); ok {
-- 
2.43.0


From 1bfc2800859f871e2e63a45490cf415119ee3d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 22/40] fix: allow operators after IS NULL, IN, ANY, SOME, and
 ALL

---
 parser/parser.go | 52 ++++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 017c76d..0119063 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1241,19 +1241,24 @@ func (p *Parser) parseSubExpr() sql.Expr {
 		p.error(fmt.Sprintf("expected an expression, got %s", p.got()))
 	}
 
-	op, ok, bop := p.optionalBinaryOp()
-	if !ok {
-		if p.optionalReserved(types.IN, types.NOT, types.IS) {
+	for {
+		op, ok, bop := p.optionalBinaryOp()
+		if !ok {
+			if !p.optionalReserved(types.IN, types.NOT, types.IS) {
+				return e
+			}
+
 			switch p.sctx.Identifier {
 			case types.IN:
-				return &sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: e,
+				e = &sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: e,
 					Stmt: p.parseSubquery()}
 			case types.NOT:
-				if p.optionalReserved(types.IN) {
-					return &sql.Subquery{Op: sql.All, ExprOp: sql.NotEqualOp, Expr: e,
-						Stmt: p.parseSubquery()}
+				if !p.optionalReserved(types.IN) {
+					p.unscan()
+					return e
 				}
-				p.unscan()
+				e = &sql.Subquery{Op: sql.All, ExprOp: sql.NotEqualOp, Expr: e,
+					Stmt: p.parseSubquery()}
 			case types.IS:
 				var not bool
 				if p.optionalReserved(types.NOT) {
@@ -1263,29 +1268,24 @@ func (p *Parser) parseSubExpr() sql.Expr {
 
 				e = &sql.SExpr{Name: types.ID("is_null", false), Args: []sql.Expr{e}}
 				if not {
-					return &sql.UnaryExpr{Op: sql.NotOp, Expr: e}
+					e = &sql.UnaryExpr{Op: sql.NotOp, Expr: e}
 				}
-				return e
 			}
-		}
-
-		return e
-	}
-
-	if p.optionalReserved(types.ANY, types.SOME, types.ALL) {
-		if !bop {
-			p.error("expected boolean binary operator")
-		}
-		var subqueryOp sql.SubqueryOp
-		if p.sctx.Identifier == types.ALL {
-			subqueryOp = sql.All
+		} else if p.optionalReserved(types.ANY, types.SOME, types.ALL) {
+			if !bop {
+				p.error("expected boolean binary operator")
+			}
+			var subqueryOp sql.SubqueryOp
+			if p.sctx.Identifier == types.ALL {
+				subqueryOp = sql.All
+			} else {
+				subqueryOp = sql.Any
+			}
+			e = &sql.Subquery{Op: subqueryOp, ExprOp: op, Expr: e, Stmt: p.parseSubquery()}
 		} else {
-			subqueryOp = sql.Any
+			return &sql.BinaryExpr{Op: op, Left: e, Right: p.parseSubExpr()}
 		}
-		return &sql.Subquery{Op: subqueryOp, ExprOp: op, Expr: e, Stmt: p.parseSubquery()}
 	}
-
-	return &sql.BinaryExpr{Op: op, Left: e, Right: p.parseSubExpr()}
 }
 
 func (p *Parser) parseSubquery() sql.Stmt {
-- 
2.43.0


From 1fd69f57edc1ec0ec03d3fb83cc8dd73870990ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 23/40] fix: adjust the precedence of the operand of IN, ANY,
 SOME, and ALL

---
 parser/parser.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 0119063..da514ef 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1095,6 +1095,15 @@ func adjustPrecedence(e sql.Expr) sql.Expr {
 			be.Left = e
 			return adjustPrecedence(be)
 		}
+
+		// - {2 = ANY (...)} --> {- 2} = ANY (...)
+		if sq, ok := e.Expr.(*sql.Subquery); ok && sq.Expr != nil &&
+			opPrecedence[sq.ExprOp] < opPrecedence[e.Op] {
+
+			e.Expr = sq.Expr
+			sq.Expr = e
+			return adjustPrecedence(sq)
+		}
 	case *sql.BinaryExpr:
 		e.Left = adjustPrecedence(e.Left)
 		e.Right = adjustPrecedence(e.Right)
@@ -1106,6 +1115,15 @@ func adjustPrecedence(e sql.Expr) sql.Expr {
 			return adjustPrecedence(be)
 		}
 
+		// 1 * {2 = ANY (...)} --> {1 * 2} = ANY (...)
+		if sq, ok := e.Right.(*sql.Subquery); ok && sq.Expr != nil &&
+			opPrecedence[sq.ExprOp] <= opPrecedence[e.Op] {
+
+			e.Right = sq.Expr
+			sq.Expr = e
+			return adjustPrecedence(sq)
+		}
+
 		// {1 + 2} * 3 --> 1 + {2 * 3}
 		if be, ok := e.Left.(*sql.BinaryExpr); ok && opPrecedence[be.Op] < opPrecedence[e.Op] {
 			e.Left = be.Right
@@ -1116,6 +1134,10 @@ func adjustPrecedence(e sql.Expr) sql.Expr {
 		for idx, arg := range e.Args {
 			e.Args[idx] = adjustPrecedence(arg)
 		}
+	case *sql.Subquery:
+		if e.Expr != nil {
+			e.Expr = adjustPrecedence(e.Expr)
+		}
 	}
 
 	return e
-- 
2.43.0


From 5dcf7bc8d78563a422101bb493c35ac33d48f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 24/40] fix: display DEFAULT values

---
 parser/sql/query.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parser/sql/query.go b/parser/sql/query.go
index ca2eb8b..73e1a7e 100644
--- a/parser/sql/query.go
+++ b/parser/sql/query.go
@@ -138,7 +138,11 @@ func (stmt *InsertValues) String() string {
 			if j > 0 {
 				buf.WriteString(", ")
 			}
-			buf.WriteString(v.String())
+			if v == nil {
+				buf.WriteString("DEFAULT")
+			} else {
+				buf.WriteString(v.String())
+			}
 		}
 
 		buf.WriteRune(')')
@@ -169,7 +173,11 @@ func (stmt *Update) String() string {
 		if i > 0 {
 			buf.WriteString(", ")
 		}
-		fmt.Fprintf(&buf, "%s = %s", cu.Column, cu.Expr)
+		if cu.Expr == nil {
+			fmt.Fprintf(&buf, "%s = DEFAULT", cu.Column)
+		} else {
+			fmt.Fprintf(&buf, "%s = %s", cu.Column, cu.Expr)
+		}
 	}
 	if stmt.Where != nil {
 		fmt.Fprintf(&buf, " WHERE %s", stmt.Where)
-- 
2.43.0


From 8ee9ac2d290e77411841a37f2954a5043f3fecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 25/40] fix: display SELECT without FROM

---
 parser/sql/query.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/sql/query.go b/parser/sql/query.go
index 73e1a7e..278ef86 100644
--- a/parser/sql/query.go
+++ b/parser/sql/query.go
@@ -268,7 +268,9 @@ func (stmt *Select) String() string {
 			buf.WriteString(sr.String())
 		}
 	}
-	fmt.Fprintf(&buf, " FROM %s", stmt.From)
+	if stmt.From != nil {
+		fmt.Fprintf(&buf, " FROM %s", stmt.From)
+	}
 	if stmt.Where != nil {
 		fmt.Fprintf(&buf, " WHERE %s", stmt.Where)
 	}
-- 
2.43.0


From d577187ce7235cceb1dc8461613a1df4b6762fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 26/40] fix: converting a float which is out of range to an
 integer must be an error

---
 types/value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/value.go b/types/value.go
index 9ebb7fe..304596b 100644
--- a/types/value.go
+++ b/types/value.go
@@ -284,6 +284,9 @@ func CastValue(vt ValueType, val Value) (Value, error) {
 		}
 	case Int64Type:
 		if f, ok := val.(Float64Value); ok {
+			if !(f >= -1<<63 && f < 1<<63) {
+				return nil, fmt.Errorf("expected an integer: %v", val)
+			}
 			return Int64Value(f), nil
 		} else if s, ok := val.(StringValue); ok {
 			i, err := strconv.ParseInt(strings.Trim(string(s), " \t\n"), 10, 64)
-- 
2.43.0


From 36b5b535880128d012c36298420d8db72a8e8a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 27/40] fix: comparing integers and floats must be exact and
 order NaN

---
 types/value.go | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/types/value.go b/types/value.go
index 304596b..fe95617 100644
--- a/types/value.go
+++ b/types/value.go
@@ -98,16 +98,33 @@ func (i Int64Value) compare(val Value) int {
 		}
 		return 0
 	case Float64Value:
-		if Float64Value(i) < v {
-			return -1
-		} else if Float64Value(i) > v {
-			return 1
-		}
-		return 0
+		return compareInt64Float64(i, v)
 	}
 	panic(fmt.Sprintf("unexpected type for value: %T: %v", val, val))
 }
 
+// compareInt64Float64 compares exactly: an integer might not be representable as a float.
+func compareInt64Float64(i Int64Value, f Float64Value) int {
+	if f >= 1<<63 {
+		return -1
+	} else if !(f >= -1<<63) {
+		// Less than all integers or NaN.
+		return 1
+	}
+
+	t := Int64Value(f)
+	if i < t {
+		return -1
+	} else if i > t {
+		return 1
+	} else if Float64Value(t) < f {
+		return -1
+	} else if Float64Value(t) > f {
+		return 1
+	}
+	return 0
+}
+
 type Float64Value float64
 
 func (f Float64Value) String() string {
@@ -121,17 +138,20 @@ func (_ Float64Value) order() int {
 func (f Float64Value) compare(val Value) int {
 	switch v := val.(type) {
 	case Int64Value:
-		if f < Float64Value(v) {
-			return -1
-		} else if f > Float64Value(v) {
-			return 1
-		}
-		return 0
+		return -compareInt64Float64(v, f)
 	case Float64Value:
 		if f < v {
 			return -1
 		} else if f > v {
 			return 1
+		} else if f == v {
+			return 0
+		}
+		// At least one is NaN, which is less than all other numbers.
+		if v == v {
+			return -1
+		} else if f == f {
+			return 1
 		}
 		return 0
 	}
-- 
2.43.0


From d6a5c581d46f61f068040615e8243ef6e1da4674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 28/40] fix: scan the minimum integer

---
 parser/scanner/scanner.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 60df910..3232ea9 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -326,7 +326,11 @@ func (s *Scanner) scanNumber(sctx *ScanCtx, r rune, sign int64) rune {
 	if dbl {
 		sctx.Float, err = strconv.ParseFloat(s.buffer.String(), 64)
 	} else {
-		sctx.Integer, err = strconv.ParseInt(s.buffer.String(), 10, 64)
+		num := s.buffer.String()
+		if sign < 0 {
+			num = "-" + num
+		}
+		sctx.Integer, err = strconv.ParseInt(num, 10, 64)
 	}
 	if err != nil {
 		sctx.Error = err
@@ -336,7 +340,6 @@ func (s *Scanner) scanNumber(sctx *ScanCtx, r rune, sign int64) rune {
 		sctx.Float *= float64(sign)
 		return token.Float
 	} else {
-		sctx.Integer *= sign
 		return token.Integer
 	}
 }
-- 
2.43.0


From ae9e8532bc876a50dfca716827c329de74868b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 29/40] fix: a predicate is not satisfied by NULL

---
 storage/basic/basic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 056d30f..3cd79c3 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -361,7 +361,8 @@ func (tbl *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxR
 				return false
 			}
 
-			if predFn != nil && !predFn(it.row[predCol]) {
+			if predFn != nil && (it.row[predCol] == nil || !predFn(it.row[predCol])) {
+				// A predicate is never satisfied by NULL.
 				return true
 			}
 
-- 
2.43.0


From 57ae943cd76b25acf90c0d51364bf00d444dd0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 30/40] fix: identifiers must be cut off after converting to
 lower case

---
 types/identifier.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/types/identifier.go b/types/identifier.go
index 1fed5c2..062b581 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -282,10 +282,11 @@ func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 		}
 
 		s = strings.ToLower(s)
-		if len(s) > MaxIdentifier {
-			// Lower case can be longer than upper case.
-			s = s[:MaxIdentifier]
-		}
+	}
+
+	// Lower case can be longer than upper case, and invalid utf8 does not have a lower case.
+	if len(s) > MaxIdentifier {
+		s = s[:MaxIdentifier]
 	}
 
 	if id, ok := identifiers[s]; ok {
@@ -303,10 +304,6 @@ func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 }
 
 func ID(s string, quoted bool) Identifier {
-	if len(s) > MaxIdentifier {
-		s = s[:MaxIdentifier]
-	}
-
 	mutex.RLock()
 	id, ok := lookupID(s, quoted, false)
 	mutex.RUnlock()
-- 
2.43.0


From d4140ac0ea750f3479099cdf316b0c30b3328317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 31/40] fix: rows with optional fields other than int64,
 float64, string and bool must come back

A nullable field of a type like *int32, *float32 or a pointer to a named
type can be inserted, but RowToStruct panicked since it assigned a pointer
to int64 and so on to it.
---
 engine/typedtable.go | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/engine/typedtable.go b/engine/typedtable.go
index e1a429a..1fc629a 100644
--- a/engine/typedtable.go
+++ b/engine/typedtable.go
@@ -88,6 +88,11 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 				fval.SetZero()
 				continue
 			}
+			if ct.Type != types.BytesType {
+				// The field is a pointer, maybe to a type like int32 or one with a name.
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval = fval.Elem()
+			}
 		}
 
 		switch ct.Type {
@@ -96,23 +101,13 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if !ok {
 				panic(fmt.Sprintf("typed tabled: expected boolean value: %#v", row[cdx]))
 			}
-			if ct.NotNull {
-				fval.SetBool(bool(b))
-			} else {
-				b := bool(b)
-				fval.Set(reflect.ValueOf(&b))
-			}
+			fval.SetBool(bool(b))
 		case types.StringType:
 			s, ok := row[cdx].(types.StringValue)
 			if !ok {
 				panic(fmt.Sprintf("typed tabled: expected string value: %#v", row[cdx]))
 			}
-			if ct.NotNull {
-				fval.SetString(string(s))
-			} else {
-				s := string(s)
-				fval.Set(reflect.ValueOf(&s))
-			}
+			fval.SetString(string(s))
 		case types.BytesType:
 			b, ok := row[cdx].(types.BytesValue)
 			if !ok {
@@ -124,23 +119,13 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if !ok {
 				panic(fmt.Sprintf("typed tabled: expected float64 value: %#v", row[cdx]))
 			}
-			if ct.NotNull {
-				fval.SetFloat(float64(f))
-			} else {
-				f := float64(f)
-				fval.Set(reflect.ValueOf(&f))
-			}
+			fval.SetFloat(float64(f))
 		case types.Int64Type:
 			i, ok := row[cdx].(types.Int64Value)
 			if !ok {
 				panic(fmt.Sprintf("typed tabled: expected int64 value: %#v", row[cdx]))
 			}
-			if ct.NotNull {
-				fval.SetInt(int64(i))
-			} else {
-				i := int64(i)
-				fval.Set(reflect.ValueOf(&i))
-			}
+			fval.SetInt(int64(i))
 		default:
 			panic(fmt.Sprintf("typed table: unexpected column type: %#v %d", ct, ct.Type))
 		}
-- 
2.43.0


From 3c8eb9312092bc7f0e728d2ef0600aeb9b58c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 32/40] fix: statements which are not supported must be
 reported

DETACH, EXECUTE and PREPARE were expected as the start of a statement, but are not
parsed: DETACH; was silently taken for an empty statement.
---
 parser/parser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index da514ef..af28f02 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -256,12 +256,9 @@ func (p *Parser) parseStmt() sql.Stmt {
 		types.COPY,
 		types.CREATE,
 		types.DELETE,
-		types.DETACH,
 		types.DROP,
-		types.EXECUTE,
 		types.EXPLAIN,
 		types.INSERT,
-		types.PREPARE,
 		types.ROLLBACK,
 		types.SELECT,
 		types.SET,
-- 
2.43.0


From 300a9aed1afaeb48b0e28153b629b4b009341042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 33/40] fix: a join may be followed by another join

The condition of a join ended the from item, so that t1 JOIN t2 ON e JOIN t3 ON e was
refused, as was t1 JOIN t2 CROSS JOIN t3 ON e.
---
 parser/parser.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index af28f02..f063f51 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1567,6 +1567,10 @@ func (p *Parser) parseFromItem() sql.FromItem {
 		fi = p.parseTableAlias()
 	}
 
+	return p.parseJoins(fi)
+}
+
+func (p *Parser) parseJoins(fi sql.FromItem) sql.FromItem {
 	jt := sql.NoJoin
 	if p.optionalReserved(types.JOIN) {
 		jt = sql.Join
@@ -1595,7 +1599,9 @@ func (p *Parser) parseFromItem() sql.FromItem {
 	}
 
 	fj := sql.FromJoin{Left: fi, Right: p.parseFromItem(), Type: jt}
-	if p.optionalReserved(types.ON) {
+	if jt == sql.CrossJoin {
+		// ON or USING, if any, belongs to a join which this is part of.
+	} else if p.optionalReserved(types.ON) {
 		fj.On = p.parseExpr()
 	} else if p.optionalReserved(types.USING) {
 		p.expectTokens(token.LParen)
@@ -1619,13 +1625,8 @@ func (p *Parser) parseFromItem() sql.FromItem {
 			p.error(fmt.Sprintf("%s must have one of ON or USING", jt))
 		}
 	}
-	if jt == sql.CrossJoin {
-		if fj.On != nil || fj.Using != nil {
-			p.error("CROSS JOIN may not have ON or USING")
-		}
-	}
 
-	return fj
+	return p.parseJoins(fj)
 }
 
 func (p *Parser) parseFromList() sql.FromItem {
-- 
2.43.0


From 51de4c9b7945f2441425240db5710523c41b6bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 34/40] fix: a sign after an operand is an operator and not
 part of a number

1-1, a -1 and (a) +1 were scanned as two operands without an operator between them and
were refused.
---
 parser/scanner/scanner.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 3232ea9..470118d 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -44,6 +44,7 @@ type Scanner struct {
 	filename    string
 	line        int
 	column      int
+	operand     bool // the previous token ended an operand
 	buffer      bytes.Buffer
 }
 
@@ -71,6 +72,17 @@ func (s *Scanner) Scan(sctx *ScanCtx) {
 	s.buffer.Reset()
 	sctx.Filename = s.filename
 	sctx.Token = s.scan(sctx)
+
+	switch sctx.Token {
+	case token.Identifier, token.String, token.Bytes, token.Integer, token.Float, token.Parameter,
+		token.RParen:
+		s.operand = true
+	case token.Reserved:
+		s.operand = sctx.Identifier == types.NULL || sctx.Identifier == types.TRUE ||
+			sctx.Identifier == types.FALSE
+	default:
+		s.operand = false
+	}
 }
 
 type runeReader struct {
@@ -202,14 +214,14 @@ SkipWhitespace:
 		return s.scanNumber(sctx, r, 1)
 	} else if r == '+' {
 		r = s.readRune(sctx)
-		if unicode.IsDigit(r) {
+		if unicode.IsDigit(r) && !s.operand {
 			return s.scanNumber(sctx, r, 1)
 		}
 		s.unreadRune()
 		return '+'
 	} else if r == '-' {
 		r = s.readRune(sctx)
-		if unicode.IsDigit(r) {
+		if unicode.IsDigit(r) && !s.operand {
 			return s.scanNumber(sctx, r, -1)
 		}
 		s.unreadRune()
-- 
2.43.0


From d2e0c1acc99ff9f8293aed95a9f562732f03ab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 35/40] fix: COPY data starts on the line after the end of the
 statement

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index f063f51..51215a9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1410,6 +1410,10 @@ func (p *Parser) parseCopy() sql.Stmt {
 		s.Delimiter = rune(p.sctx.String[0])
 	}
 
+	// The data starts on the line after the end of the statement.
+	p.expectEndOfStatement()
+	p.unscan()
+
 	// Must be last because the scanner will skip to the end of the line before returning
 	// the reader.
 	s.From, s.FromLine = p.scanner.RuneReader()
-- 
2.43.0


From 5ea32bf4fc8725eee8bbb2694707ec8dae802dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 36/40] fix: repeated names of check and foreign key
 constraints must be refused

---
 parser/parser.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 51215a9..35e941d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -588,6 +588,7 @@ func (p *Parser) parseCreateDetails(s *sql.CreateTable) {
 			p.addKeyConstraint(s, sql.UniqueConstraint, makeKeyConstraintName(cn, key, "unique"),
 				key)
 		} else if p.optionalReserved(types.CHECK) {
+			p.checkConstraintName(s, cn)
 			p.expectTokens(token.LParen)
 			s.Constraints = append(s.Constraints,
 				sql.Constraint{
@@ -599,6 +600,7 @@ func (p *Parser) parseCreateDetails(s *sql.CreateTable) {
 			p.expectTokens(token.RParen)
 		} else if p.optionalReserved(types.FOREIGN) {
 			p.expectReserved(types.KEY)
+			p.checkConstraintName(s, cn)
 			s.ForeignKeys = append(s.ForeignKeys, p.parseForeignKey(cn))
 		} else if cn != 0 {
 			p.error("CONSTRAINT name specified without a constraint")
@@ -697,13 +699,28 @@ func makeKeyConstraintName(cn types.Identifier, key sql.IndexKey, suffix string)
 	return types.ID(nam+suffix, false)
 }
 
-func (p *Parser) addKeyConstraint(s *sql.CreateTable, ct sql.ConstraintType,
-	cn types.Identifier, nkey sql.IndexKey) {
+func (p *Parser) checkConstraintName(s *sql.CreateTable, cn types.Identifier) {
+	if cn == 0 {
+		return
+	}
 
 	for _, c := range s.Constraints {
 		if c.Name == cn {
 			p.error(fmt.Sprintf("duplicate constraint name: %s", cn))
 		}
+	}
+	for _, fk := range s.ForeignKeys {
+		if fk.Name == cn {
+			p.error(fmt.Sprintf("duplicate constraint name: %s", cn))
+		}
+	}
+}
+
+func (p *Parser) addKeyConstraint(s *sql.CreateTable, ct sql.ConstraintType,
+	cn types.Identifier, nkey sql.IndexKey) {
+
+	p.checkConstraintName(s, cn)
+	for _, c := range s.Constraints {
 		if c.Type == sql.PrimaryConstraint && ct == sql.PrimaryConstraint {
 			p.error("only one primary key allowed")
 		}
@@ -727,10 +744,9 @@ func (p *Parser) addKeyConstraint(s *sql.CreateTable, ct sql.ConstraintType,
 func (p *Parser) addColumnConstraint(s *sql.CreateTable, ct sql.ConstraintType,
 	cn types.Identifier, colNum int) {
 
+	p.checkConstraintName(s, cn)
 	for _, c := range s.Constraints {
-		if c.Name == cn {
-			p.error(fmt.Sprintf("duplicate constraint name: %s", cn))
-		} else if colNum == c.ColNum && ct == c.Type {
+		if colNum == c.ColNum && ct == c.Type {
 			p.error(fmt.Sprintf("duplicate %s constraint on %s", ct, s.Columns[colNum]))
 		}
 	}
@@ -815,6 +831,7 @@ func (p *Parser) parseColumn(s *sql.CreateTable) {
 					Reverse: []bool{false},
 				})
 		} else if p.optionalReserved(types.CHECK) {
+			p.checkConstraintName(s, cn)
 			p.expectTokens(token.LParen)
 			s.Constraints = append(s.Constraints,
 				sql.Constraint{
@@ -825,6 +842,7 @@ func (p *Parser) parseColumn(s *sql.CreateTable) {
 				})
 			p.expectTokens(token.RParen)
 		} else if p.optionalReserved(types.REFERENCES) {
+			p.checkConstraintName(s, cn)
 			rtn := p.parseTableName()
 			var refCols []types.Identifier
 			if p.maybeToken(token.LParen) {
-- 
2.43.0


From 5ea46250118d5f1974200eb37f93d58f5123d786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 37/40] fix: deeply nested statements must be reported and not
 overflow the stack

---
 parser/parser.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 35e941d..9fe81b9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -12,7 +12,10 @@ import (
 	"github.com/leftmike/maho/types"
 )
 
-const lookBackAmount = 3
+const (
+	lookBackAmount = 3
+	maxDepth       = 100000 // of expressions and from items
+)
 
 type Parser struct {
 	scanner   scanner.Scanner
@@ -22,6 +25,9 @@ type Parser struct {
 	unscanned uint
 	scanned   rune
 	failed    bool
+	depth     int // nesting of the current expression
+	tests     int // IN and IS operators in the current expression
+	fromItems int // from items in the current statement
 }
 
 func NewParser(rr io.RuneReader, fn string) *Parser {
@@ -63,6 +69,8 @@ func (p *Parser) Parse() (stmt sql.Stmt, err error) {
 		}
 	}()
 
+	p.depth = 0
+	p.fromItems = 0
 	stmt = p.parseStmt()
 	p.expectEndOfStatement()
 	return
@@ -1204,7 +1212,20 @@ func (p *Parser) optionalBinaryOp() (sql.Op, bool, bool) {
 	return 0, false, false
 }
 
+func (p *Parser) checkDepth(depth int) {
+	if depth > maxDepth {
+		p.error("statement is too deep")
+	}
+}
+
 func (p *Parser) parseSubExpr() sql.Expr {
+	if p.depth == 0 {
+		p.tests = 0
+	}
+	p.depth += 1
+	p.checkDepth(p.depth)
+	defer func() { p.depth -= 1 }()
+
 	var e sql.Expr
 	r := p.scan()
 	if r == token.Reserved {
@@ -1284,6 +1305,8 @@ func (p *Parser) parseSubExpr() sql.Expr {
 			if !p.optionalReserved(types.IN, types.NOT, types.IS) {
 				return e
 			}
+			p.tests += 1
+			p.checkDepth(p.tests)
 
 			switch p.sctx.Identifier {
 			case types.IN:
@@ -1318,6 +1341,8 @@ func (p *Parser) parseSubExpr() sql.Expr {
 			} else {
 				subqueryOp = sql.Any
 			}
+			p.tests += 1
+			p.checkDepth(p.tests)
 			e = &sql.Subquery{Op: subqueryOp, ExprOp: op, Expr: e, Stmt: p.parseSubquery()}
 		} else {
 			return &sql.BinaryExpr{Op: op, Left: e, Right: p.parseSubExpr()}
@@ -1576,6 +1601,9 @@ join-type = [INNER] JOIN
 */
 
 func (p *Parser) parseFromItem() sql.FromItem {
+	p.fromItems += 1
+	p.checkDepth(p.fromItems)
+
 	var fi sql.FromItem
 	if p.maybeToken(token.LParen) {
 		if s, ok := p.optionalSubquery(); ok {
-- 
2.43.0


From d91e6c029b7f57727a71aebb336c45ad66a95cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 38/40] fix: a comment may follow an operator

---
 parser/scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 470118d..168172d 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -235,7 +235,7 @@ SkipWhitespace:
 	} else if token.IsOpRune(r) {
 		s.buffer.WriteRune(r)
 		r2 := s.readRune(sctx)
-		if r2 == '-' || r2 == '+' {
+		if r2 == '-' || r2 == '+' || r2 == '/' {
 			s.unreadRune()
 			return r
 		} else if token.IsOpRune(r2) {
-- 
2.43.0


From 1b9b5ae9a349d6ee80116e38354f962b88974106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:40 +0000
Subject: [PATCH 39/40] fix: reading which failed keeps failing

The scanner forgot an error of its reader, so a reader which fails once
looked as if the data of a COPY just ended.
---
 parser/scanner/scanner.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 168172d..d1fc47c 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -39,6 +39,7 @@ type ScanCtx struct {
 type Scanner struct {
 	initialized bool
 	rr          io.RuneReader
+	err         error // from reading, other than io.EOF
 	unread      bool
 	read        rune
 	filename    string
@@ -91,7 +92,7 @@ type runeReader struct {
 
 func (s *Scanner) RuneReader() (io.RuneReader, int) {
 	for {
-		r, _, err := s.rr.ReadRune()
+		r, _, err := s.readSource()
 		if err != nil {
 			break
 		}
@@ -108,7 +109,7 @@ func (s *Scanner) RuneReader() (io.RuneReader, int) {
 }
 
 func (rr runeReader) ReadRune() (rune, int, error) {
-	r, size, err := rr.s.rr.ReadRune()
+	r, size, err := rr.s.readSource()
 	if err != nil {
 		return 0, 0, err
 	}
@@ -264,6 +265,19 @@ SkipWhitespace:
 	return token.Error
 }
 
+// readSource reads a rune; once reading has failed, it keeps failing.
+func (s *Scanner) readSource() (rune, int, error) {
+	if s.err != nil {
+		return 0, 0, s.err
+	}
+
+	r, size, err := s.rr.ReadRune()
+	if err != nil && err != io.EOF {
+		s.err = err
+	}
+	return r, size, err
+}
+
 func (s *Scanner) readRune(sctx *ScanCtx) rune {
 	if s.unread {
 		s.unread = false
@@ -271,7 +285,7 @@ func (s *Scanner) readRune(sctx *ScanCtx) rune {
 	}
 
 	var err error
-	s.read, _, err = s.rr.ReadRune()
+	s.read, _, err = s.readSource()
 	if err == io.EOF {
 		s.read = token.EOF
 		return token.EOF
-- 
2.43.0


From 14623436d41cc4e05f3532bde98d77af655c8c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:05 +0000
Subject: [PATCH 40/40] fix: using a completed transaction of the engine is
 refused

---
 engine/engine.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/engine/engine.go b/engine/engine.go
index cb46663..b24fd46 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -242,6 +242,10 @@ func (tx *transaction) Rollback() error {
 }
 
 func (tx *transaction) CreateSchema(ctx context.Context, sn types.SchemaName) error {
+	if tx.tx == nil {
+		return errTransactionComplete
+	}
+
 	err := TypedTableLookup(ctx, tx.tx, databasesTypedInfo,
 		&databasesRow{
 			Database: sn.Database.String(),
@@ -260,6 +264,10 @@ func (tx *transaction) CreateSchema(ctx context.Context, sn types.SchemaName) er
 }
 
 func (tx *transaction) DropSchema(ctx context.Context, sn types.SchemaName, ifExists bool) error {
+	if tx.tx == nil {
+		return errTransactionComplete
+	}
+
 	sr := &schemasRow{
 		Database: sn.Database.String(),
 		Schema:   sn.Schema.String(),
@@ -286,6 +294,10 @@ func (tx *transaction) DropSchema(ctx context.Context, sn types.SchemaName, ifEx
 func (tx *transaction) ListSchemas(ctx context.Context, dn types.Identifier) ([]types.Identifier,
 	error) {
 
+	if tx.tx == nil {
+		return nil, errTransactionComplete
+	}
+
 	err := TypedTableLookup(ctx, tx.tx, databasesTypedInfo,
 		&databasesRow{
 			Database: dn.String(),
@@ -318,6 +330,10 @@ func (tx *transaction) ListSchemas(ctx context.Context, dn types.Identifier) ([]
 }
 
 func (tx *transaction) OpenTable(ctx context.Context, tn types.TableName) (Table, error) {
+	if tx.tx == nil {
+		return nil, errTransactionComplete
+	}
+
 	tr := tablesRow{
 		Database: tn.Database.String(),
 		Schema:   tn.Schema.String(),
@@ -388,6 +404,10 @@ func (tx *transaction) nextTableId(ctx context.Context) (int64, error) {
 func (tx *transaction) CreateTable(ctx context.Context, tn types.TableName,
 	colNames []types.Identifier, colTypes []types.ColumnType, primary []types.ColumnKey) error {
 
+	if tx.tx == nil {
+		return errTransactionComplete
+	}
+
 	err := TypedTableLookup(ctx, tx.tx, schemasTypedInfo,
 		&schemasRow{
 			Database: tn.Database.String(),
-- 
2.43.0

