From 3737031ec4b96c969495dd27e00cc419f99850c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 01/48] fix: do not mistake a NUL byte in the input for the end
 of the input

---
 lexer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 88ca5e5..4bf30f7 100644
--- a/lexer.go
+++ b/lexer.go
@@ -9,7 +9,9 @@ import (
 	"github.com/schemalex/schemalex/internal/errors"
 )
 
-const eof = rune(0)
+// eof must not be a value that can be found in the input, not even
+// in a malformed one: in particular, it can not be NUL
+const eof = rune(-1)
 
 type lrune struct {
 	r rune
-- 
2.43.0


From 33439ae8061e55e01c35c1f37b92099c92a26092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 02/48] fix: count bytes, not runes, when excluding the
 read-ahead from a token

---
 lexer.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lexer.go b/lexer.go
index 4bf30f7..75535d1 100644
--- a/lexer.go
+++ b/lexer.go
@@ -84,16 +84,21 @@ func (l *lexer) emit(ctx context.Context, typ TokenType) {
 	// when we emit, we must copy the value of cur to start
 	// but we also must adjust the position by the read-ahead offset
 	l.start = l.cur
-	l.start.pos = l.start.pos - (l.peekCount + 1)
+	l.start.pos = l.start.pos - l.readAhead()
 }
 
 func (l *lexer) str() string {
-	endpos := l.cur.pos - (l.peekCount + 1)
-	w := len(l.input[l.start.pos:])
-	if endpos-l.start.pos > w {
-		endpos = l.start.pos + w
+	return string(l.input[l.start.pos : l.cur.pos-l.readAhead()])
+}
+
+// readAhead returns the number of bytes that have been peeked, but
+// that have not been consumed yet
+func (l *lexer) readAhead() int {
+	var n int
+	for i := 0; i <= l.peekCount; i++ {
+		n += l.peekRunes[i].w
 	}
-	return string(l.input[l.start.pos:endpos])
+	return n
 }
 
 func (l *lexer) Run(ctx context.Context) {
-- 
2.43.0


From d5dddf81bbb8b3d75131f8815a99dff15870eeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 03/48] fix: recognize escaped backslashes in strings, and keep
 strings byte for byte

---
 lexer.go | 45 +++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/lexer.go b/lexer.go
index 75535d1..e274c15 100644
--- a/lexer.go
+++ b/lexer.go
@@ -285,28 +285,30 @@ OUTER:
 	return IDENT
 }
 
-func unescapeQuotes(s string, quot rune) string {
-	var buf bytes.Buffer
-	max := utf8.RuneCountInString(s)
-	rdr := strings.NewReader(s)
-	for i := 0; i < max; i++ {
-		r, _, _ := rdr.ReadRune()
-
-		// assume first rune and last rune are quot
-		if i == 0 || i == max-1 {
-			continue
-		}
+// unescapeQuotes strips the surrounding quotes from s, and replaces
+// escaped quotes by plain ones. Other escape sequences are kept as they are.
+//
+// A quote can be escaped by doubling it, and, except for in quoted
+// identifiers, quotes of either kind can be escaped by a backslash.
+func unescapeQuotes(s string, quot byte) string {
+	s = s[1 : len(s)-1]
 
-		switch r {
-		case '\\', quot: // possible escape sequence
-			if r2, _, _ := rdr.ReadRune(); r2 == quot {
+	var buf bytes.Buffer
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		if i+1 < len(s) {
+			switch next := s[i+1]; {
+			case c == quot && next == quot:
 				i++
-				r = quot
-			} else {
-				rdr.UnreadRune()
+			case c == '\\' && quot != '`':
+				i++
+				if next != '\'' && next != '"' {
+					buf.WriteByte(c)
+				}
+				c = next
 			}
 		}
-		buf.WriteRune(r)
+		buf.WriteByte(c)
 	}
 	return buf.String()
 }
@@ -316,10 +318,9 @@ func (l *lexer) runQuote(pair rune) error {
 		r := l.next()
 		if r == eof {
 			return errors.New(`unexpected eof`)
-		} else if r == '\\' {
-			if l.peek() == pair {
-				r = l.next()
-			}
+		} else if r == '\\' && pair != '`' {
+			// whatever comes next is escaped
+			l.next()
 		} else if r == pair {
 			if l.peek() == pair {
 				// it is escape
-- 
2.43.0


From bfd35c892ae7e96c07629a6e5ec1a3e77a3f05c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 04/48] fix: escape single quotes in formatted strings

---
 format/format.go      | 21 ++++++---------------
 internal/util/util.go |  9 +++++++++
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/format/format.go b/format/format.go
index 02a8159..9975b57 100644
--- a/format/format.go
+++ b/format/format.go
@@ -92,9 +92,7 @@ func formatTableOption(ctx *fmtCtx, option model.TableOption) error {
 	buf.WriteString(option.Key())
 	buf.WriteString(" = ")
 	if option.NeedQuotes() {
-		buf.WriteByte('\'')
-		buf.WriteString(option.Value())
-		buf.WriteByte('\'')
+		buf.WriteString(util.Quote(option.Value()))
 	} else {
 		buf.WriteString(option.Value())
 	}
@@ -216,9 +214,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	case model.ColumnTypeEnum:
 		buf.WriteString(" (")
 		for enumValue := range col.EnumValues() {
-			buf.WriteByte('\'')
-			buf.WriteString(enumValue)
-			buf.WriteByte('\'')
+			buf.WriteString(util.Quote(enumValue))
 			buf.WriteByte(',')
 		}
 		buf.Truncate(buf.Len() - 1)
@@ -226,9 +222,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	case model.ColumnTypeSet:
 		buf.WriteString(" (")
 		for setValue := range col.SetValues() {
-			buf.WriteByte('\'')
-			buf.WriteString(setValue)
-			buf.WriteByte('\'')
+			buf.WriteString(util.Quote(setValue))
 			buf.WriteByte(',')
 		}
 		buf.Truncate(buf.Len() - 1)
@@ -286,9 +280,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	if col.HasDefault() {
 		buf.WriteString(" DEFAULT ")
 		if col.IsQuotedDefault() {
-			buf.WriteByte('\'')
-			buf.WriteString(col.Default())
-			buf.WriteByte('\'')
+			buf.WriteString(util.Quote(col.Default()))
 		} else {
 			buf.WriteString(col.Default())
 		}
@@ -309,9 +301,8 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	}
 
 	if col.HasComment() {
-		buf.WriteString(" COMMENT '")
-		buf.WriteString(col.Comment())
-		buf.WriteByte('\'')
+		buf.WriteString(" COMMENT ")
+		buf.WriteString(util.Quote(col.Comment()))
 	}
 
 	if _, err := buf.WriteTo(ctx.dst); err != nil {
diff --git a/internal/util/util.go b/internal/util/util.go
index b2a4a5a..4b5e331 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -1,7 +1,16 @@
 package util
 
+import "strings"
+
 // Backquote surrounds the given string in backquotes
 func Backquote(s string) string {
 	// XXX Does this require escaping
 	return "`" + s + "`"
 }
+
+// Quote surrounds the given string in single quotes. Single quotes in the
+// string are escaped. The string is otherwise expected to be in the form that
+// the parser leaves it in, where escape sequences other than quotes are kept.
+func Quote(s string) string {
+	return "'" + strings.Replace(s, "'", "''", -1) + "'"
+}
-- 
2.43.0


From 18b59b24b80d2d189034160122ce8f9eef025ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 05/48] fix: escape backquotes in quoted identifiers

---
 diff/diff.go          | 80 +++++++++++++++++++++----------------------
 internal/util/util.go |  6 ++--
 2 files changed, 43 insertions(+), 43 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index b98f304..eb5605d 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -12,6 +12,7 @@ import (
 	"github.com/schemalex/schemalex"
 	"github.com/schemalex/schemalex/format"
 	"github.com/schemalex/schemalex/internal/errors"
+	"github.com/schemalex/schemalex/internal/util"
 	"github.com/schemalex/schemalex/model"
 )
 
@@ -159,9 +160,9 @@ func dropTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 		if !ok {
 			return 0, errors.Errorf(`lookup failed: %s is not a model.Table`, id)
 		}
-		buf.WriteString("DROP TABLE `")
-		buf.WriteString(table.Name())
-		buf.WriteString("`;")
+		buf.WriteString("DROP TABLE ")
+		buf.WriteString(util.Backquote(table.Name()))
+		buf.WriteByte(';')
 	}
 
 	return buf.WriteTo(dst)
@@ -283,16 +284,16 @@ func dropTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` DROP COLUMN `")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" DROP COLUMN ")
 		col, ok := ctx.from.LookupColumn(columnName.(string))
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup column %s`, columnName)
 		}
 
-		buf.WriteString(col.Name())
-		buf.WriteString("`;")
+		buf.WriteString(util.Backquote(col.Name()))
+		buf.WriteByte(';')
 	}
 
 	return buf.WriteTo(dst)
@@ -382,16 +383,15 @@ func writeAddColumn(ctx *alterCtx, buf *bytes.Buffer, columnNames ...string) err
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` ADD COLUMN ")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" ADD COLUMN ")
 		if err := format.SQL(buf, stmt); err != nil {
 			return err
 		}
 		if hasBeforeCol {
-			buf.WriteString(" AFTER `")
-			buf.WriteString(beforeCol.Name())
-			buf.WriteString("`")
+			buf.WriteString(" AFTER ")
+			buf.WriteString(util.Backquote(beforeCol.Name()))
 		} else {
 			buf.WriteString(" FIRST")
 		}
@@ -422,11 +422,11 @@ func alterTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` CHANGE COLUMN `")
-		buf.WriteString(afterColumnStmt.Name())
-		buf.WriteString("` ")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" CHANGE COLUMN ")
+		buf.WriteString(util.Backquote(afterColumnStmt.Name()))
+		buf.WriteByte(' ')
 		if err := format.SQL(&buf, afterColumnStmt); err != nil {
 			return 0, err
 		}
@@ -452,9 +452,9 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 			if buf.Len() > 0 {
 				buf.WriteByte('\n')
 			}
-			buf.WriteString("ALTER TABLE `")
-			buf.WriteString(ctx.from.Name())
-			buf.WriteString("` DROP PRIMARY KEY;")
+			buf.WriteString("ALTER TABLE ")
+			buf.WriteString(util.Backquote(ctx.from.Name()))
+			buf.WriteString(" DROP PRIMARY KEY;")
 			continue
 		}
 
@@ -469,31 +469,31 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` DROP FOREIGN KEY `")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" DROP FOREIGN KEY ")
 		if indexStmt.HasSymbol() {
-			buf.WriteString(indexStmt.Symbol())
+			buf.WriteString(util.Backquote(indexStmt.Symbol()))
 		} else {
-			buf.WriteString(indexStmt.Name())
+			buf.WriteString(util.Backquote(indexStmt.Name()))
 		}
-		buf.WriteString("`;")
+		buf.WriteByte(';')
 	}
 	// drop index after drop CONSTRAINT
 	for _, indexStmt := range lazy {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` DROP INDEX `")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" DROP INDEX ")
 		if !indexStmt.HasName() {
-			buf.WriteString(indexStmt.Symbol())
+			buf.WriteString(util.Backquote(indexStmt.Symbol()))
 		} else {
-			buf.WriteString(indexStmt.Name())
+			buf.WriteString(util.Backquote(indexStmt.Name()))
 		}
 
-		buf.WriteString("`;")
+		buf.WriteByte(';')
 	}
 
 	return buf.WriteTo(dst)
@@ -517,9 +517,9 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` ADD ")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" ADD ")
 		if err := format.SQL(&buf, indexStmt); err != nil {
 			return 0, err
 		}
@@ -530,9 +530,9 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` ADD ")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" ADD ")
 		if err := format.SQL(&buf, indexStmt); err != nil {
 			return 0, err
 		}
diff --git a/internal/util/util.go b/internal/util/util.go
index 4b5e331..a9961c9 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -2,10 +2,10 @@ package util
 
 import "strings"
 
-// Backquote surrounds the given string in backquotes
+// Backquote surrounds the given string in backquotes. Backquotes in
+// the string are escaped.
 func Backquote(s string) string {
-	// XXX Does this require escaping
-	return "`" + s + "`"
+	return "`" + strings.Replace(s, "`", "``", -1) + "`"
 }
 
 // Quote surrounds the given string in single quotes. Single quotes in the
-- 
2.43.0


From c8013dd9c3c50db72480fc5bc203fa64a5b6c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 06/48] fix: reject ENUM and SET columns whose list of values
 is missing or malformed

---
 parser.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 3ecf5a5..c324e33 100644
--- a/parser.go
+++ b/parser.go
@@ -625,7 +625,16 @@ func (p *Parser) parseTableColumnSpec(ctx *parseCtx, col model.TableColumn) erro
 	}
 
 	col.SetType(coltyp)
-	return p.parseColumnOption(ctx, col, colopt)
+	if err := p.parseColumnOption(ctx, col, colopt); err != nil {
+		return err
+	}
+
+	switch {
+	case coltyp == model.ColumnTypeEnum && !col.HasEnumValues(),
+		coltyp == model.ColumnTypeSet && !col.HasSetValues():
+		return newParseError(ctx, ctx.peek(), "expected list of values for %s column", coltyp)
+	}
+	return nil
 }
 
 func (p *Parser) parseCreateTableOptionValue(ctx *parseCtx, table model.Table, name string, follow ...TokenType) error {
@@ -886,9 +895,13 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				l.SetDecimal(tscale)
 				col.SetLength(l)
 			} else if check(coloptEnumValues) {
-				ctx.parseSetOrEnum(col.SetEnumValues)
+				if err := ctx.parseSetOrEnum(col.SetEnumValues); err != nil {
+					return err
+				}
 			} else if check(coloptSetValues) {
-				ctx.parseSetOrEnum(col.SetSetValues)
+				if err := ctx.parseSetOrEnum(col.SetSetValues); err != nil {
+					return err
+				}
 			} else {
 				return newParseError(ctx, t, "cannot apply coloptSize, coloptDecimalSize, coloptDecimalOptionalSize, coloptEnumValues, coloptSetValues")
 			}
-- 
2.43.0


From cdace8038b10bacbcf2532414da0e8c1428d93fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 07/48] fix: reject arbitrary tokens as the value of CHARACTER
 SET, COLLATE and ON UPDATE

---
 parser.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index c324e33..4fa945f 100644
--- a/parser.go
+++ b/parser.go
@@ -912,10 +912,16 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 			}
 			ctx.skipWhiteSpaces()
 			v := ctx.next()
+			if !isCharsetName(v) {
+				return newParseError(ctx, v, "expected character set name")
+			}
 			col.SetCharacterSet(v.Value)
 		case COLLATE:
 			ctx.skipWhiteSpaces()
 			v := ctx.next()
+			if !isCharsetName(v) {
+				return newParseError(ctx, v, "expected collation name")
+			}
 			col.SetCollation(v.Value)
 		case UNSIGNED:
 			if !check(coloptUnsigned) {
@@ -955,8 +961,12 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				return newParseError(ctx, t, "expected ON UPDATE")
 			}
 			ctx.skipWhiteSpaces()
-			v := ctx.next()
-			col.SetAutoUpdate(v.Value)
+			switch v := ctx.next(); v.Type {
+			case CURRENT_TIMESTAMP, NOW, IDENT:
+				col.SetAutoUpdate(strings.ToUpper(v.Value))
+			default:
+				return newParseError(ctx, v, "expected CURRENT_TIMESTAMP, NOW, IDENT")
+			}
 		case DEFAULT:
 			if !check(coloptDefault) {
 				return newParseError(ctx, t, "cannot apply DEFAULT")
@@ -1030,6 +1040,17 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 	}
 }
 
+// isCharsetName returns true if the token can be the name of a character set
+// or of a collation. Note that there is a character set (and a collation)
+// called "binary", which happens to be a keyword
+func isCharsetName(t *Token) bool {
+	switch t.Type {
+	case IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT, BINARY:
+		return true
+	}
+	return false
+}
+
 func (ctx *parseCtx) parseSetOrEnum(setter func([]string) model.TableColumn) error {
 	var values []string
 OUTER:
-- 
2.43.0


From e315fcbad123ea6ec83b20dd6b0f77058d09ad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 08/48] fix: report all syntax errors as ParseError

---
 parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 4fa945f..991e264 100644
--- a/parser.go
+++ b/parser.go
@@ -1292,11 +1292,11 @@ OUTER:
 		switch t := ctx.next(); t.Type {
 		case DELETE:
 			if err := p.parseReferenceOption(ctx, r.SetOnDelete); err != nil {
-				return errors.Wrap(err, `failed to parse ON DELETE`)
+				return err
 			}
 		case UPDATE:
 			if err := p.parseReferenceOption(ctx, r.SetOnUpdate); err != nil {
-				return errors.Wrap(err, `failed to parse ON UPDATE`)
+				return err
 			}
 			break OUTER
 		default:
@@ -1320,7 +1320,8 @@ func (p *Parser) parseColumnIndexName(ctx *parseCtx, index model.Index) error {
 
 func (p *Parser) parseColumnIndexType(ctx *parseCtx, index model.Index) error {
 	ctx.skipWhiteSpaces()
-	if t := ctx.peek(); t.Type != USING {
+	t := ctx.peek()
+	if t.Type != USING {
 		return nil
 	}
 	ctx.advance()
@@ -1334,7 +1335,7 @@ func (p *Parser) parseColumnIndexType(ctx *parseCtx, index model.Index) error {
 		} else {
 			typ = "NONE"
 		}
-		return errors.Errorf(`statement already has index type declared (%s)`, typ)
+		return newParseError(ctx, t, "statement already has index type declared (%s)", typ)
 	}
 
 	ctx.skipWhiteSpaces()
-- 
2.43.0


From 0fd57fefc72e56d5eace5e87a9812147bfeffc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 09/48] fix: accept definitions that follow a fulltext index

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 991e264..c9f487e 100644
--- a/parser.go
+++ b/parser.go
@@ -1419,7 +1419,7 @@ OUTER:
 func (p *Parser) parseColumnIndexOptions(ctx *parseCtx, index model.Index) error {
 	ctx.skipWhiteSpaces()
 	t := ctx.peek()
-	if t.Type == RPAREN {
+	if t.Type == RPAREN || t.Type == COMMA {
 		return nil
 	}
 	// TODO: support for other index options.
-- 
2.43.0


From 3665c34758b05698eeea1ddb2a8bf91bc2fbbb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 10/48] fix: accept SPATIAL KEY

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index c9f487e..3bdb862 100644
--- a/parser.go
+++ b/parser.go
@@ -1171,9 +1171,9 @@ func (p *Parser) parseColumnIndexSpatialKey(ctx *parseCtx, index model.Index) er
 		return newParseError(ctx, t, "expected SPATIAL")
 	}
 
-	// optional INDEX
+	// optional INDEX or KEY
 	ctx.skipWhiteSpaces()
-	if t := ctx.peek(); t.Type == INDEX {
+	if t := ctx.peek(); t.Type == INDEX || t.Type == KEY {
 		ctx.advance()
 	}
 
-- 
2.43.0


From 134920548430a5f982d0b39dbfed8beeda1c181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 11/48] fix: accept CREATE TEMPORARY TABLE, which is how
 temporary tables are formatted

---
 parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser.go b/parser.go
index 3bdb862..cb9133f 100644
--- a/parser.go
+++ b/parser.go
@@ -215,6 +215,18 @@ func (p *Parser) parseCreate(ctx *parseCtx) (model.Stmt, error) {
 		return nil, errors.Ignorable(nil)
 	case TABLE:
 		return p.parseCreateTable(ctx)
+	case TEMPORARY:
+		ctx.advance()
+		ctx.skipWhiteSpaces()
+		if t := ctx.peek(); t.Type != TABLE {
+			return nil, newParseError(ctx, t, "expected TABLE")
+		}
+		table, err := p.parseCreateTable(ctx)
+		if err != nil {
+			return nil, err
+		}
+		table.SetTemporary(true)
+		return table, nil
 	default:
 		return nil, newParseError(ctx, t, "expected DATABASE or TABLE")
 	}
-- 
2.43.0


From f1a51ffb2c77d24d443df5b18bbce44e12131181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 12/48] fix: keep the name of the DELAY_KEY_WRITE table option

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index cb9133f..88515e4 100644
--- a/parser.go
+++ b/parser.go
@@ -752,7 +752,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 				return err
 			}
 		case DELAY_KEY_WRITE:
-			if err := p.parseCreateTableOptionValue(ctx, table, "DATA_KEY_WRITE", NUMBER); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "DELAY_KEY_WRITE", NUMBER); err != nil {
 				return err
 			}
 		case INDEX:
-- 
2.43.0


From f0aa58f8132962f48ee422a7322104fe5dd3583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 13/48] fix: accept whitespace around the prefix length of an
 index column

---
 parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.go b/parser.go
index 88515e4..4cb7112 100644
--- a/parser.go
+++ b/parser.go
@@ -1388,6 +1388,7 @@ OUTER:
 		ctx.skipWhiteSpaces()
 		switch t = ctx.next(); t.Type {
 		case LPAREN:
+			ctx.skipWhiteSpaces()
 			t := ctx.next()
 			if t.Type != NUMBER {
 				return newParseError(ctx, t, "expected NUMBER")
@@ -1403,6 +1404,7 @@ OUTER:
 		}
 
 		// optional sort direction
+		ctx.skipWhiteSpaces()
 		switch t = ctx.peek(); t.Type {
 		case ASC:
 			ctx.advance()
-- 
2.43.0


From 120116adb7beb76aaa8056df53f68d3af3414541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 14/48] fix: normalize every kind of key that is declared along
 with a column

---
 model/table.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/model/table.go b/model/table.go
index 2407946..85f637a 100644
--- a/model/table.go
+++ b/model/table.go
@@ -157,8 +157,7 @@ func (t *table) Normalize() (Table, bool) {
 
 		// column_definition [UNIQUE [KEY] | [PRIMARY] KEY]
 		// they mean same as INDEX or CONSTRAINT
-		switch {
-		case ncol.IsPrimary():
+		if ncol.IsPrimary() || ncol.IsKey() {
 			// we have to move off the index declaration from the
 			// primary key column to an index associated with the table
 			index := NewIndex(IndexKindPrimaryKey, t.ID())
@@ -171,7 +170,9 @@ func (t *table) Normalize() (Table, bool) {
 			}
 			ncol = ncol.Clone()
 			ncol.SetPrimary(false)
-		case ncol.IsUnique():
+			ncol.SetKey(false)
+		}
+		if ncol.IsUnique() {
 			index := NewIndex(IndexKindUnique, t.ID())
 			// if you do not assign a name, the index is assigned the same name as the first indexed column
 			index.SetName(ncol.Name())
-- 
2.43.0


From a2747ecdb206bbb34617d5cd7eda5a7a62f96ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 15/48] fix: do not add an implicit index if an index of that
 name is declared elsewhere in the table

---
 model/table.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/model/table.go b/model/table.go
index 85f637a..f5c6ee2 100644
--- a/model/table.go
+++ b/model/table.go
@@ -191,7 +191,18 @@ func (t *table) Normalize() (Table, bool) {
 	}
 
 	var indexes []Index
+	// names of the explicitly declared indexes. They may be declared before
+	// or after the constraint that makes use of them
 	var seen = make(map[string]struct{})
+	for _, idx := range additionalIndexes {
+		seen[idx.Name()] = struct{}{}
+	}
+	for idx := range t.Indexes() {
+		if !idx.IsForeignKey() {
+			seen[idx.Name()] = struct{}{}
+		}
+	}
+
 	for idx := range t.Indexes() {
 		nidx, modified := idx.Normalize()
 		if modified {
@@ -204,8 +215,8 @@ func (t *table) Normalize() (Table, bool) {
 		// actual examples somewhere
 		if nidx.IsForeignKey() && nidx.HasSymbol() {
 			// There's a chance the user has already explicitly declared the
-			// index for this constraint. Only add this implicit index if we
-			// haven't seen it before
+			// index for this constraint. Only add this implicit index if
+			// that is not the case
 			if _, ok := seen[nidx.Symbol()]; !ok {
 				clone = true
 				// add implicitly created INDEX
@@ -225,7 +236,6 @@ func (t *table) Normalize() (Table, bool) {
 			}
 		}
 		indexes = append(indexes, nidx)
-		seen[nidx.Name()] = struct{}{}
 	}
 
 	if !clone {
-- 
2.43.0


From d81b11ac0a48545f142b981ad52ec57547e08703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 16/48] fix: do not modify the receiver when normalizing the
 default value of a boolean column

---
 model/table_column.go | 46 ++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/model/table_column.go b/model/table_column.go
index eb97f3c..5f62a74 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -298,8 +298,8 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 	var clone bool
 	var length Length
 	var synonym ColumnType
-	var removeQuotes bool
-	var setDefaultNull bool
+	var defaultValue string
+	var setDefault bool
 
 	if !t.HasLength() {
 		if l := t.NativeLength(); l != nil {
@@ -322,23 +322,29 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 	}
 
 	if t.HasDefault() {
+		switch t.Type() {
+		case ColumnTypeBool, ColumnTypeBoolean:
+			switch t.Default() {
+			case "TRUE":
+				setDefault = true
+				defaultValue = "1"
+			case "FALSE":
+				setDefault = true
+				defaultValue = "0"
+			}
+		}
+
 		switch t.Type() {
 		case ColumnTypeTinyInt, ColumnTypeSmallInt,
 			ColumnTypeMediumInt, ColumnTypeInt,
 			ColumnTypeInteger, ColumnTypeBigInt,
 			ColumnTypeFloat, ColumnTypeDouble,
-			ColumnTypeDecimal, ColumnTypeNumeric, ColumnTypeReal:
+			ColumnTypeDecimal, ColumnTypeNumeric, ColumnTypeReal,
+			ColumnTypeBool, ColumnTypeBoolean:
 			// If numeric type then trim quote
-			if t.IsQuotedDefault() {
-				clone = true
-				removeQuotes = true
-			}
-		case ColumnTypeBool, ColumnTypeBoolean:
-			switch t.Default() {
-			case "TRUE":
-				t.SetDefault("1", false)
-			case "FALSE":
-				t.SetDefault("0", false)
+			if !setDefault && t.IsQuotedDefault() {
+				setDefault = true
+				defaultValue = t.Default()
 			}
 		}
 	} else {
@@ -350,14 +356,14 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 		default:
 			// if nullable then set default null.
 			if nullState != NullStateNotNull {
-				clone = true
-				setDefaultNull = true
+				setDefault = true
+				defaultValue = "NULL"
 			}
 		}
 	}
 
 	// avoid cloning if we don't have to
-	if !clone {
+	if !clone && !setDefault {
 		return t, false
 	}
 
@@ -371,12 +377,8 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 
 	col.SetNullState(nullState)
 
-	if removeQuotes {
-		col.SetDefault(t.Default(), false)
-	}
-
-	if setDefaultNull {
-		col.SetDefault("NULL", false)
+	if setDefault {
+		col.SetDefault(defaultValue, false)
 	}
 	return col, true
 }
-- 
2.43.0


From adedcadbd09c4a60e063b9ea82982fd110028da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 17/48] fix: keep the quotes of numeric column defaults that
 are not numbers

---
 model/table_column.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/model/table_column.go b/model/table_column.go
index 5f62a74..d122867 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -1,9 +1,14 @@
 package model
 
 import (
+	"regexp"
 	"strconv"
+	"strings"
 )
 
+// numberRx matches the numbers that the parser accepts without quotes
+var numberRx = regexp.MustCompile(`^(?:[-+]?[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE]-?[0-9]+)?$`)
+
 // NewLength creates a new Length which describes the
 // length of a column
 func NewLength(v string) Length {
@@ -341,10 +346,11 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 			ColumnTypeFloat, ColumnTypeDouble,
 			ColumnTypeDecimal, ColumnTypeNumeric, ColumnTypeReal,
 			ColumnTypeBool, ColumnTypeBoolean:
-			// If numeric type then trim quote
-			if !setDefault && t.IsQuotedDefault() {
+			// If numeric type then trim quote, provided that there is a
+			// number in there: anything else would change its meaning
+			if !setDefault && t.IsQuotedDefault() && numberRx.MatchString(t.Default()) {
 				setDefault = true
-				defaultValue = t.Default()
+				defaultValue = strings.ToUpper(t.Default())
 			}
 		}
 	} else {
-- 
2.43.0


From 6746ac469e2a4b0497197c99cdd33ad874d2fd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 18/48] fix: give different IDs to indexes that differ in sort
 direction, options or odd names

---
 model/index.go     | 28 ++++++++++++++++++++++++----
 model/reference.go |  4 ++--
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/model/index.go b/model/index.go
index 3d6a117..1994f46 100644
--- a/model/index.go
+++ b/model/index.go
@@ -3,6 +3,8 @@ package model
 import (
 	"crypto/sha256"
 	"fmt"
+	"io"
+	"strconv"
 )
 
 // NewIndex creates a new index with the given index kind.
@@ -28,11 +30,13 @@ func (stmt *index) ID() string {
 
 	sym := "none"
 	if stmt.HasSymbol() {
-		sym = stmt.Symbol()
+		sym = strconv.Quote(stmt.Symbol())
 	}
 
+	// names are quoted, as they may contain any character, including
+	// the ones that are used as separators here
 	fmt.Fprintf(h,
-		"%s.%s.%s.%s",
+		"%q.%s.%s.%s",
 		stmt.table,
 		sym,
 		stmt.kind,
@@ -40,11 +44,18 @@ func (stmt *index) ID() string {
 	)
 	for col := range stmt.Columns() {
 		fmt.Fprintf(h, ".")
-		fmt.Fprintf(h, "%s", col.ID())
+		writeIndexColumnID(h, col)
+		// ascending is the default
+		if col.IsDescending() {
+			fmt.Fprintf(h, " DESC")
+		}
 	}
 	if stmt.reference != nil {
 		fmt.Fprintf(h, ".")
-		fmt.Fprintf(h, stmt.reference.ID())
+		fmt.Fprintf(h, "%s", stmt.reference.ID())
+	}
+	for opt := range stmt.Options() {
+		fmt.Fprintf(h, ".%q=%q", opt.Key(), opt.Value())
 	}
 	return fmt.Sprintf("%s#%x", name, h.Sum(nil))
 }
@@ -170,6 +181,15 @@ func NewIndexColumn(name string) IndexColumn {
 	}
 }
 
+// writeIndexColumnID writes the name and the length of the column, so that
+// no two different columns get the same result
+func writeIndexColumnID(dst io.Writer, col IndexColumn) {
+	fmt.Fprintf(dst, "%q", col.Name())
+	if col.HasLength() {
+		fmt.Fprintf(dst, "(%s)", col.Length())
+	}
+}
+
 func (col *indexColumn) ID() string {
 	if col.HasLength() {
 		return "index_column#" + col.Name() + "-" + col.Length()
diff --git a/model/reference.go b/model/reference.go
index d1fb6ce..1b79cc5 100644
--- a/model/reference.go
+++ b/model/reference.go
@@ -17,15 +17,15 @@ func NewReference() Reference {
 func (r *reference) ID() string {
 	h := sha256.New()
 	fmt.Fprintf(h,
-		"%s.%s.%s.%s",
+		"%q.%s.%s.%s",
 		r.tableName,
 		r.match,
 		r.onDelete,
 		r.onUpdate,
 	)
 	for col := range r.Columns() {
-		fmt.Fprintf(h, "%s", col.ID())
 		fmt.Fprintf(h, ".")
+		writeIndexColumnID(h, col)
 	}
 	return fmt.Sprintf("reference#%x", h.Sum(nil))
 }
-- 
2.43.0


From 04c4c0378e18d87f9775cda97436d877585133cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 19/48] fix: always generate the same statements in the same
 order

---
 diff/diff.go | 78 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 20 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index eb5605d..88f272e 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -45,6 +45,46 @@ func newDiffCtx(from, to model.Stmts) *diffCtx {
 	}
 }
 
+// inOrder returns the elements of the set in the order in which they
+// are found in ids. Iterating over a set directly gives a different order,
+// and therefore a different result, every time.
+func inOrder(set mapset.Set, ids []string) []string {
+	list := make([]string, 0, set.Cardinality())
+	seen := make(map[string]struct{})
+	for _, id := range ids {
+		if _, ok := seen[id]; ok || !set.Contains(id) {
+			continue
+		}
+		seen[id] = struct{}{}
+		list = append(list, id)
+	}
+	return list
+}
+
+func stmtIDs(stmts model.Stmts) []string {
+	ids := make([]string, len(stmts))
+	for i, stmt := range stmts {
+		ids[i] = stmt.ID()
+	}
+	return ids
+}
+
+func columnIDs(table model.Table) []string {
+	var ids []string
+	for col := range table.Columns() {
+		ids = append(ids, col.ID())
+	}
+	return ids
+}
+
+func indexIDs(table model.Table) []string {
+	var ids []string
+	for idx := range table.Indexes() {
+		ids = append(ids, idx.ID())
+	}
+	return ids
+}
+
 // Statements compares two model.Stmts and generates a series
 // of statements to migrate from the old one to the new one,
 // writing the result to `dst`
@@ -146,12 +186,12 @@ func Sources(dst io.Writer, from, to schemalex.SchemaSource, options ...Option)
 func dropTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 	ids := ctx.fromSet.Difference(ctx.toSet)
-	for i, id := range ids.ToSlice() {
+	for i, id := range inOrder(ids, stmtIDs(ctx.from)) {
 		if i > 0 {
 			buf.WriteByte('\n')
 		}
 
-		stmt, ok := ctx.from.Lookup(id.(string))
+		stmt, ok := ctx.from.Lookup(id)
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup table %s`, id)
 		}
@@ -172,9 +212,9 @@ func createTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 
 	ids := ctx.toSet.Difference(ctx.fromSet)
-	for _, id := range ids.ToSlice() {
+	for _, id := range inOrder(ids, stmtIDs(ctx.to)) {
 		// Lookup the corresponding statement, and add its SQL
-		stmt, ok := ctx.to.Lookup(id.(string))
+		stmt, ok := ctx.to.Lookup(id)
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup table %s`, id)
 		}
@@ -242,17 +282,17 @@ func alterTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 
 	ids := ctx.toSet.Intersect(ctx.fromSet)
 	var buf bytes.Buffer
-	for _, id := range ids.ToSlice() {
+	for _, id := range inOrder(ids, stmtIDs(ctx.to)) {
 		var stmt model.Stmt
 		var ok bool
 
-		stmt, ok = ctx.from.Lookup(id.(string))
+		stmt, ok = ctx.from.Lookup(id)
 		if !ok {
 			return 0, errors.Errorf(`table '%s' not found in old schema (alter table)`, id)
 		}
 		beforeStmt := stmt.(model.Table)
 
-		stmt, ok = ctx.to.Lookup(id.(string))
+		stmt, ok = ctx.to.Lookup(id)
 		if !ok {
 			return 0, errors.Errorf(`table '%s' not found in new schema (alter table)`, id)
 		}
@@ -280,14 +320,14 @@ func dropTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	columnNames := ctx.fromColumns.Difference(ctx.toColumns)
 
 	var buf bytes.Buffer
-	for _, columnName := range columnNames.ToSlice() {
+	for _, columnName := range inOrder(columnNames, columnIDs(ctx.from)) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE ")
 		buf.WriteString(util.Backquote(ctx.from.Name()))
 		buf.WriteString(" DROP COLUMN ")
-		col, ok := ctx.from.LookupColumn(columnName.(string))
+		col, ok := ctx.from.LookupColumn(columnName)
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup column %s`, columnName)
 		}
@@ -309,8 +349,7 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	// we always start adding with a column that has a either no before
 	// columns, or one that already exists in the database
 	var firstColumn model.TableColumn
-	for _, v := range ctx.toColumns.Difference(ctx.fromColumns).ToSlice() {
-		columnName := v.(string)
+	for _, columnName := range inOrder(ctx.toColumns.Difference(ctx.fromColumns), columnIDs(ctx.to)) {
 		// find the before-column for each.
 		col, ok := ctx.to.LookupColumn(columnName)
 		if !ok {
@@ -338,8 +377,7 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	var columnNames []string
 	// Find columns that have before columns which existed in both
 	// from and to tables
-	for _, v := range ctx.toColumns.Intersect(ctx.fromColumns).ToSlice() {
-		columnName := v.(string)
+	for _, columnName := range inOrder(ctx.toColumns.Intersect(ctx.fromColumns), columnIDs(ctx.to)) {
 		if nextColumnName, ok := beforeToNext[columnName]; ok {
 			delete(beforeToNext, columnName)
 			delete(nextToBefore, nextColumnName)
@@ -404,13 +442,13 @@ func writeAddColumn(ctx *alterCtx, buf *bytes.Buffer, columnNames ...string) err
 func alterTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 	columnNames := ctx.toColumns.Intersect(ctx.fromColumns)
-	for _, columnName := range columnNames.ToSlice() {
-		beforeColumnStmt, ok := ctx.from.LookupColumn(columnName.(string))
+	for _, columnName := range inOrder(columnNames, columnIDs(ctx.to)) {
+		beforeColumnStmt, ok := ctx.from.LookupColumn(columnName)
 		if !ok {
 			return 0, errors.Errorf(`column %s not found in old schema`, columnName)
 		}
 
-		afterColumnStmt, ok := ctx.to.LookupColumn(columnName.(string))
+		afterColumnStmt, ok := ctx.to.LookupColumn(columnName)
 		if !ok {
 			return 0, errors.Errorf(`column %s not found in new schema`, columnName)
 		}
@@ -442,8 +480,8 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 	// drop index after drop constraint.
 	// because cannot drop index if needed in a foreign key constraint
 	lazy := make([]model.Index, 0, indexes.Cardinality())
-	for _, index := range indexes.ToSlice() {
-		indexStmt, ok := ctx.from.LookupIndex(index.(string))
+	for _, index := range inOrder(indexes, indexIDs(ctx.from)) {
+		indexStmt, ok := ctx.from.LookupIndex(index)
 		if !ok {
 			return 0, errors.Errorf(`index '%s' not found in old schema (drop index)`, index)
 		}
@@ -505,8 +543,8 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 	// add index before add foreign key.
 	// because cannot add index if create implicitly index by foreign key.
 	lazy := make([]model.Index, 0, indexes.Cardinality())
-	for _, index := range indexes.ToSlice() {
-		indexStmt, ok := ctx.to.LookupIndex(index.(string))
+	for _, index := range inOrder(indexes, indexIDs(ctx.to)) {
+		indexStmt, ok := ctx.to.LookupIndex(index)
 		if !ok {
 			return 0, errors.Errorf(`index '%s' not found in old schema (add index)`, index)
 		}
-- 
2.43.0


From 320fdf9f165259fe2f5951c3344a2879cbc474b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 20/48] fix: drop a primary key only after the foreign keys
 that may need it

---
 diff/diff.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index 88f272e..8d519c9 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -487,12 +487,7 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		}
 
 		if indexStmt.IsPrimaryKey() {
-			if buf.Len() > 0 {
-				buf.WriteByte('\n')
-			}
-			buf.WriteString("ALTER TABLE ")
-			buf.WriteString(util.Backquote(ctx.from.Name()))
-			buf.WriteString(" DROP PRIMARY KEY;")
+			lazy = append(lazy, indexStmt)
 			continue
 		}
 
@@ -524,6 +519,10 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		}
 		buf.WriteString("ALTER TABLE ")
 		buf.WriteString(util.Backquote(ctx.from.Name()))
+		if indexStmt.IsPrimaryKey() {
+			buf.WriteString(" DROP PRIMARY KEY;")
+			continue
+		}
 		buf.WriteString(" DROP INDEX ")
 		if !indexStmt.HasName() {
 			buf.WriteString(util.Backquote(indexStmt.Symbol()))
-- 
2.43.0


From 5d919a975c751b266c20d9eea359cf2bbb37b6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 21/48] fix: do not drop the last column of a table before the
 new ones are added

---
 diff/diff.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/diff/diff.go b/diff/diff.go
index 8d519c9..de08189 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -280,6 +280,15 @@ func alterTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 		addTableIndexes,
 	}
 
+	// a table can not be left without columns, so if there are none
+	// that it keeps, the new ones have to be added first
+	replaceProcs := []func(*alterCtx, io.Writer) (int64, error){
+		dropTableIndexes,
+		addTableColumns,
+		dropTableColumns,
+		addTableIndexes,
+	}
+
 	ids := ctx.toSet.Intersect(ctx.fromSet)
 	var buf bytes.Buffer
 	for _, id := range inOrder(ids, stmtIDs(ctx.to)) {
@@ -300,6 +309,10 @@ func alterTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 
 		var pbuf bytes.Buffer
 		alterCtx := newAlterCtx(beforeStmt, afterStmt)
+		procs := procs
+		if alterCtx.fromColumns.Intersect(alterCtx.toColumns).Cardinality() == 0 {
+			procs = replaceProcs
+		}
 		for _, p := range procs {
 			n, err := p(alterCtx, &pbuf)
 			if err != nil {
-- 
2.43.0


From 22b7d540e1b7e056c3907aba69409839fb4c67d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 22/48] fix: report errors that occur while formatting an added
 column

---
 diff/diff.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index de08189..3b05675 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -384,7 +384,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 
 	// First column is always safe to add
 	if firstColumn != nil {
-		writeAddColumn(ctx, &buf, firstColumn.ID())
+		if err := writeAddColumn(ctx, &buf, firstColumn.ID()); err != nil {
+			return 0, err
+		}
 	}
 
 	var columnNames []string
@@ -400,7 +402,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 
 	if len(columnNames) > 0 {
 		sort.Strings(columnNames)
-		writeAddColumn(ctx, &buf, columnNames...)
+		if err := writeAddColumn(ctx, &buf, columnNames...); err != nil {
+			return 0, err
+		}
 	}
 
 	// Finally, we process the remaining columns.
@@ -418,7 +422,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 			jcol, _ := ctx.to.LookupColumnOrder(columnNames[j])
 			return icol < jcol
 		})
-		writeAddColumn(ctx, &buf, columnNames...)
+		if err := writeAddColumn(ctx, &buf, columnNames...); err != nil {
+			return 0, err
+		}
 	}
 	return buf.WriteTo(dst)
 }
-- 
2.43.0


From f92b105ccc71467d3a89b4310dd16e7817088fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 23/48] fix: return an error, not a nil source, for file://
 URIs with a remote host

---
 source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source.go b/source.go
index f07bb6b..993d0f3 100644
--- a/source.go
+++ b/source.go
@@ -71,7 +71,7 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 	case "file", "":
 		// Eh, no remote host, please
 		if u.Host != "" && u.Host != "localhost" {
-			return nil, errors.Wrap(err, `remote hosts for file:// sources are not supported`)
+			return nil, errors.New(`remote hosts for file:// sources are not supported`)
 		}
 		return NewLocalFileSource(u.Path), nil
 	}
-- 
2.43.0


From 6383c0b1b1dd54e7c81c3f4e533d1ee1c0d97f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 24/48] fix: use local file names that contain special
 characters of URIs as they are

---
 source.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/source.go b/source.go
index 993d0f3..c50675a 100644
--- a/source.go
+++ b/source.go
@@ -12,6 +12,7 @@ import (
 	"net/url"
 	"os"
 	"os/exec"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -27,6 +28,8 @@ type SchemaSource interface {
 	WriteSchema(io.Writer) error
 }
 
+var schemeRx = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9+.-]*:`)
+
 type readerSource struct {
 	src io.Reader
 }
@@ -58,6 +61,12 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 		return NewMySQLSource(uri[8:]), nil
 	}
 
+	// Anything that has no scheme is the name of a local file as it is,
+	// even if it contains characters that have a meaning in URIs
+	if !schemeRx.MatchString(uri) {
+		return NewLocalFileSource(uri), nil
+	}
+
 	u, err := url.Parse(uri)
 	if err != nil {
 		return nil, errors.Wrap(err, `failed to parse uri`)
@@ -68,7 +77,7 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 		// local-git:///path/to/dir?file=foo&commitish=bar
 		q := u.Query()
 		return NewLocalGitSource(u.Path, q.Get("file"), q.Get("commitish")), nil
-	case "file", "":
+	case "file":
 		// Eh, no remote host, please
 		if u.Host != "" && u.Host != "localhost" {
 			return nil, errors.New(`remote hosts for file:// sources are not supported`)
-- 
2.43.0


From 2c9a4f76e20747d731ecd50bfc782da6a1bf8b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 25/48] fix: report errors that occur while fetching the list
 of tables

---
 source.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source.go b/source.go
index c50675a..9dea3bc 100644
--- a/source.go
+++ b/source.go
@@ -238,6 +238,9 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 		buf.WriteString(tableSchema)
 		buf.WriteByte(';')
 	}
+	if err := tableRows.Err(); err != nil {
+		return errors.Wrap(err, `failed to fetch tables`)
+	}
 
 	return NewReaderSource(&buf).WriteSchema(dst)
 }
-- 
2.43.0


From a0b7b1391ec0fc8bdee5b19c8e815eb4845f00ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 26/48] fix: escape the table name in SHOW CREATE TABLE

---
 source.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source.go b/source.go
index 9dea3bc..21b48ac 100644
--- a/source.go
+++ b/source.go
@@ -18,6 +18,7 @@ import (
 
 	"github.com/go-sql-driver/mysql"
 	"github.com/schemalex/schemalex/internal/errors"
+	"github.com/schemalex/schemalex/internal/util"
 )
 
 // SchemaSource is the interface used for objects that provide us with
@@ -228,7 +229,7 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 			return errors.Wrap(err, `failed to scan tables`)
 		}
 
-		if err = db.QueryRow("SHOW CREATE TABLE `"+table+"`").Scan(&table, &tableSchema); err != nil {
+		if err = db.QueryRow("SHOW CREATE TABLE "+util.Backquote(table)).Scan(&table, &tableSchema); err != nil {
 			return errors.Wrapf(err, `failed to execute 'SHOW CREATE TABLE "%s"'`, table)
 		}
 		if buf.Len() > 0 {
-- 
2.43.0


From 477674f3f85768e53c417925d532bf9a99f43aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 27/48] fix: do not send ssl-ca, ssl-cert and ssl-secret to the
 server as system variables

---
 source.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source.go b/source.go
index 21b48ac..f0d2f23 100644
--- a/source.go
+++ b/source.go
@@ -181,6 +181,12 @@ func (s mysqlSource) MySQLConfig() (*mysql.Config, error) {
 			Certificates: []tls.Certificate{certs},
 		})
 		cfg.TLSConfig = tlsName
+
+		// these are our own. The driver would take them for names of
+		// system variables to set
+		delete(cfg.Params, "ssl-ca")
+		delete(cfg.Params, "ssl-cert")
+		delete(cfg.Params, "ssl-secret")
 	}
 	return cfg, nil
 }
-- 
2.43.0


From 416637fc87e2c43f540c922b3d7b193f1bb20795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 28/48] fix: report all write errors when linting

---
 lint/lint.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lint/lint.go b/lint/lint.go
index 2e25658..0d6a528 100644
--- a/lint/lint.go
+++ b/lint/lint.go
@@ -35,13 +35,17 @@ func (l *Linter) Run(ctx context.Context, src schemalex.SchemaSource, dst io.Wri
 
 	for i, stmt := range stmts {
 		if i != 0 {
-			dst.Write([]byte{'\n', '\n'})
+			if _, err := dst.Write([]byte{'\n', '\n'}); err != nil {
+				return errors.Wrap(err, `failed to write result`)
+			}
 		}
 
 		if err := format.SQL(dst, stmt, options...); err != nil {
 			return errors.Wrap(err, `failed to format source`)
 		}
-		dst.Write([]byte{';'})
+		if _, err := dst.Write([]byte{';'}); err != nil {
+			return errors.Wrap(err, `failed to write result`)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 38ef777c542905548d3ee6f80a3778d38b27f5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 29/48] fix: reject statements that are followed by anything
 but the end of the statement

---
 parser.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 4cb7112..f788fc3 100644
--- a/parser.go
+++ b/parser.go
@@ -261,7 +261,10 @@ func (p *Parser) parseCreateDatabase(ctx *parseCtx) (model.Database, error) {
 	}
 
 	database.SetIfNotExists(notexists)
-	p.eol(ctx)
+	ctx.skipWhiteSpaces()
+	if t := ctx.peek(); !p.eol(ctx) {
+		return nil, newParseError(ctx, t, "expected EOL")
+	}
 	return database, nil
 }
 
@@ -315,9 +318,8 @@ func (p *Parser) parseCreateTable(ctx *parseCtx) (model.Table, error) {
 		}
 
 		ctx.skipWhiteSpaces()
-		switch t := ctx.peek(); t.Type {
-		case EOF, SEMICOLON:
-			ctx.advance()
+		if t := ctx.peek(); !p.eol(ctx) {
+			return nil, newParseError(ctx, t, "expected EOL")
 		}
 		return table, nil
 	case IF:
-- 
2.43.0


From 070be49e6f290bcdedb798564c475eb3d47e0a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 30/48] fix: accept table option values that happen to be
 keywords

---
 parser.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index f788fc3..fe3cf09 100644
--- a/parser.go
+++ b/parser.go
@@ -690,7 +690,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 		ctx.skipWhiteSpaces()
 		switch t := ctx.next(); t.Type {
 		case ENGINE:
-			if err := p.parseCreateTableOptionValue(ctx, table, "ENGINE", IDENT, BACKTICK_IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "ENGINE", IDENT, BACKTICK_IDENT, MEMORY); err != nil {
 				return err
 			}
 		case AUTO_INCREMENT:
@@ -718,7 +718,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 			default:
 				return newParseError(ctx, t, "expected CHARACTER or COLLATE")
 			}
-			if err := p.parseCreateTableOptionValue(ctx, table, name, IDENT, BACKTICK_IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, name, IDENT, BACKTICK_IDENT, BINARY); err != nil {
 				return err
 			}
 		case CHARACTER:
@@ -726,11 +726,11 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 			if t := ctx.next(); t.Type != SET {
 				return newParseError(ctx, t, "expected SET")
 			}
-			if err := p.parseCreateTableOptionValue(ctx, table, "DEFAULT CHARACTER SET", IDENT, BACKTICK_IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "DEFAULT CHARACTER SET", IDENT, BACKTICK_IDENT, BINARY); err != nil {
 				return err
 			}
 		case COLLATE:
-			if err := p.parseCreateTableOptionValue(ctx, table, "DEFAULT COLLATE", IDENT, BACKTICK_IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "DEFAULT COLLATE", IDENT, BACKTICK_IDENT, BINARY); err != nil {
 				return err
 			}
 		case CHECKSUM:
@@ -766,7 +766,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 				return err
 			}
 		case INSERT_METHOD:
-			if err := p.parseCreateTableOptionValue(ctx, table, "INSERT_METHOD", IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "INSERT_METHOD", IDENT, NO, FIRST, LAST); err != nil {
 				return err
 			}
 		case KEY_BLOCK_SIZE:
@@ -782,7 +782,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 				return err
 			}
 		case PACK_KEYS:
-			if err := p.parseCreateTableOptionValue(ctx, table, "PACK_KEYS", NUMBER, IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "PACK_KEYS", NUMBER, IDENT, DEFAULT); err != nil {
 				return err
 			}
 		case PASSWORD:
-- 
2.43.0


From efea4ab93bca3da2a91759d4a91ab8722366394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 31/48] fix: reject unterminated comments, and unterminated
 quotes in ignored statements

---
 lexer.go  | 13 +++++++++----
 parser.go |  8 ++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/lexer.go b/lexer.go
index e274c15..bfe14c3 100644
--- a/lexer.go
+++ b/lexer.go
@@ -165,7 +165,10 @@ OUTER:
 		case '/':
 			switch c := l.peek(); c {
 			case '*':
-				l.runCComment()
+				if err := l.runCComment(); err != nil {
+					l.emit(ctx, ILLEGAL)
+					return
+				}
 				l.emit(ctx, COMMENT_IDENT)
 			default:
 				l.emit(ctx, SLASH)
@@ -333,16 +336,18 @@ func (l *lexer) runQuote(pair rune) error {
 }
 
 // https://dev.mysql.com/doc/refman/5.6/en/comments.html
-func (l *lexer) runCComment() {
+func (l *lexer) runCComment() error {
+	// the asterisk that opens the comment can not close it
+	l.advance()
 	for {
 		r := l.next()
 		switch r {
 		case eof:
-			return
+			return errors.New(`unexpected eof`)
 		case '*':
 			if l.peek() == '/' {
 				l.advance()
-				return
+				return nil
 			}
 		}
 	}
diff --git a/parser.go b/parser.go
index fe3cf09..bb95b9b 100644
--- a/parser.go
+++ b/parser.go
@@ -181,6 +181,14 @@ LOOP:
 					fallthrough
 				case EOF:
 					break S1
+				case ILLEGAL:
+					// Never mind unknown characters here, but we can not tell
+					// where a statement with an unterminated quote or comment
+					// was supposed to end
+					if strings.IndexByte("'\"`/", t.Value[0]) >= 0 {
+						return nil, newParseError(ctx, t, "unterminated quote or comment")
+					}
+					ctx.advance()
 				default:
 					ctx.advance()
 				}
-- 
2.43.0


From afeccd2990113798baff2fd01fc2f42480eabcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 32/48] fix: recognize an empty comment at the very end of the
 input

---
 lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index bfe14c3..5dbf2bc 100644
--- a/lexer.go
+++ b/lexer.go
@@ -179,7 +179,7 @@ OUTER:
 				l.advance()
 				// TODO: https://dev.mysql.com/doc/refman/5.6/en/comments.html
 				// TODO: not only space. control character
-				if !isSpace(l.peek()) {
+				if r2 := l.peek(); r2 != eof && !isSpace(r2) {
 					l.emit(ctx, DASH)
 					continue OUTER
 				}
-- 
2.43.0


From 8da39cbfd3bf6bfdcc9a76e54fe158dec8824d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 33/48] fix: keep the value that a string denotes instead of
 its escape sequences

---
 internal/util/util.go |  9 +++++----
 lexer.go              | 29 ++++++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index a9961c9..e69e482 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -8,9 +8,10 @@ func Backquote(s string) string {
 	return "`" + strings.Replace(s, "`", "``", -1) + "`"
 }
 
-// Quote surrounds the given string in single quotes. Single quotes in the
-// string are escaped. The string is otherwise expected to be in the form that
-// the parser leaves it in, where escape sequences other than quotes are kept.
+var quoteReplacer = strings.NewReplacer("\\", "\\\\", "'", "''")
+
+// Quote surrounds the given string in single quotes. Single quotes and
+// backslashes in the string are escaped.
 func Quote(s string) string {
-	return "'" + strings.Replace(s, "'", "''", -1) + "'"
+	return "'" + quoteReplacer.Replace(s) + "'"
 }
diff --git a/lexer.go b/lexer.go
index 5dbf2bc..46895a7 100644
--- a/lexer.go
+++ b/lexer.go
@@ -289,10 +289,12 @@ OUTER:
 }
 
 // unescapeQuotes strips the surrounding quotes from s, and replaces
-// escaped quotes by plain ones. Other escape sequences are kept as they are.
+// escape sequences by what they denote.
 //
-// A quote can be escaped by doubling it, and, except for in quoted
-// identifiers, quotes of either kind can be escaped by a backslash.
+// A quote can be escaped by doubling it. Except for in quoted identifiers,
+// the backslash introduces an escape sequence.
+//
+// Also see: https://dev.mysql.com/doc/refman/5.6/en/string-literals.html
 func unescapeQuotes(s string, quot byte) string {
 	s = s[1 : len(s)-1]
 
@@ -305,10 +307,27 @@ func unescapeQuotes(s string, quot byte) string {
 				i++
 			case c == '\\' && quot != '`':
 				i++
-				if next != '\'' && next != '"' {
+				switch next {
+				case '0':
+					c = 0
+				case 'b':
+					c = '\b'
+				case 'n':
+					c = '\n'
+				case 'r':
+					c = '\r'
+				case 't':
+					c = '\t'
+				case 'Z':
+					c = 26
+				case '%', '_':
+					// these two have a meaning in patterns only, and they
+					// are left alone everywhere else
 					buf.WriteByte(c)
+					c = next
+				default:
+					c = next
 				}
-				c = next
 			}
 		}
 		buf.WriteByte(c)
-- 
2.43.0


From a4e34f2dac6d653cbcc2b7dd04a801cb73e321f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 34/48] fix: keep the LIKE table when normalizing a table

---
 model/table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/table.go b/model/table.go
index f5c6ee2..b4b4468 100644
--- a/model/table.go
+++ b/model/table.go
@@ -245,6 +245,9 @@ func (t *table) Normalize() (Table, bool) {
 	tbl := NewTable(t.Name())
 	tbl.SetIfNotExists(t.IsIfNotExists())
 	tbl.SetTemporary(t.IsTemporary())
+	if t.HasLikeTable() {
+		tbl.SetLikeTable(t.LikeTable())
+	}
 
 	for _, index := range additionalIndexes {
 		tbl.AddIndex(index)
-- 
2.43.0


From 7e2a3a162fcec66da81ca61744f39c2fadbd4432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 35/48] fix: refuse to alter a table from or to LIKE another
 table, instead of dropping all of its columns

---
 diff/diff.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff/diff.go b/diff/diff.go
index 3b05675..4811357 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -307,6 +307,11 @@ func alterTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 		}
 		afterStmt := stmt.(model.Table)
 
+		// we do not know the definition of the other table
+		if beforeStmt.HasLikeTable() != afterStmt.HasLikeTable() || beforeStmt.LikeTable() != afterStmt.LikeTable() {
+			return 0, errors.Errorf(`can not alter table '%s' that is declared as LIKE another table`, beforeStmt.Name())
+		}
+
 		var pbuf bytes.Buffer
 		alterCtx := newAlterCtx(beforeStmt, afterStmt)
 		procs := procs
-- 
2.43.0


From b4847851f6920233becff4d9f7a57ca30d5547c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 36/48] fix: report an error when formatting incomplete or
 invalid objects

---
 format/format.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/format/format.go b/format/format.go
index 9975b57..37d3cf1 100644
--- a/format/format.go
+++ b/format/format.go
@@ -134,6 +134,9 @@ func formatTable(ctx *fmtCtx, table model.Table) error {
 		idxch := table.Indexes()
 		colchmax := len(colch)
 		idxchmax := len(idxch)
+		if colchmax+idxchmax == 0 {
+			return errors.New(`no columns in table`)
+		}
 
 		var i int
 		for col := range colch {
@@ -212,6 +215,9 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 
 	switch col.Type() {
 	case model.ColumnTypeEnum:
+		if !col.HasEnumValues() {
+			return errors.New(`no values in enum`)
+		}
 		buf.WriteString(" (")
 		for enumValue := range col.EnumValues() {
 			buf.WriteString(util.Quote(enumValue))
@@ -220,6 +226,9 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 		buf.Truncate(buf.Len() - 1)
 		buf.WriteByte(')')
 	case model.ColumnTypeSet:
+		if !col.HasSetValues() {
+			return errors.New(`no values in set`)
+		}
 		buf.WriteString(" (")
 		for setValue := range col.SetValues() {
 			buf.WriteString(util.Quote(setValue))
@@ -334,6 +343,8 @@ func formatIndex(ctx *fmtCtx, index model.Index) error {
 		buf.WriteString("SPATIAL INDEX")
 	case index.IsForeignKey():
 		buf.WriteString("FOREIGN KEY")
+	default:
+		return errors.New(`invalid index kind`)
 	}
 
 	if index.HasName() {
@@ -421,6 +432,10 @@ func formatReference(ctx *fmtCtx, r model.Reference) error {
 
 	ch := r.Columns()
 	lch := len(ch)
+	if lch == 0 {
+		return errors.New(`no columns in reference`)
+	}
+
 	var i int
 	for col := range ch {
 		buf.WriteString(util.Backquote(col.Name()))
@@ -445,9 +460,12 @@ func formatReference(ctx *fmtCtx, r model.Reference) error {
 		buf.WriteString(" MATCH SIMPLE")
 	}
 
-	// we should really check for errors...
-	writeReferenceOption(&buf, "ON DELETE", r.OnDelete())
-	writeReferenceOption(&buf, "ON UPDATE", r.OnUpdate())
+	if err := writeReferenceOption(&buf, "ON DELETE", r.OnDelete()); err != nil {
+		return err
+	}
+	if err := writeReferenceOption(&buf, "ON UPDATE", r.OnUpdate()); err != nil {
+		return err
+	}
 
 	if _, err := buf.WriteTo(ctx.dst); err != nil {
 		return err
-- 
2.43.0


From 7bf039d05ef29f2657d09cd9011766a14b43064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 37/48] fix: clones of indexes and columns share no mutable
 state with the original

---
 model/index.go        | 18 ++++++++++++++++++
 model/table_column.go |  4 ++++
 2 files changed, 22 insertions(+)

diff --git a/model/index.go b/model/index.go
index 1994f46..03d9d90 100644
--- a/model/index.go
+++ b/model/index.go
@@ -172,9 +172,27 @@ func (stmt *index) Normalize() (Index, bool) {
 func (stmt *index) Clone() Index {
 	newindex := &index{}
 	*newindex = *stmt
+	newindex.columns = cloneIndexColumns(stmt.columns)
+	newindex.options = append([]IndexOption(nil), stmt.options...)
+	if r, ok := stmt.reference.(*reference); ok {
+		newref := *r
+		newref.columns = cloneIndexColumns(r.columns)
+		newindex.reference = &newref
+	}
 	return newindex
 }
 
+func cloneIndexColumns(columns []IndexColumn) []IndexColumn {
+	l := append([]IndexColumn(nil), columns...)
+	for i, v := range l {
+		if col, ok := v.(*indexColumn); ok {
+			newcol := *col
+			l[i] = &newcol
+		}
+	}
+	return l
+}
+
 func NewIndexColumn(name string) IndexColumn {
 	return &indexColumn{
 		name: name,
diff --git a/model/table_column.go b/model/table_column.go
index d122867..c5c8d45 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -392,5 +392,9 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 func (t *tablecol) Clone() TableColumn {
 	col := &tablecol{}
 	*col = *t
+	if l, ok := t.length.(*length); ok {
+		newlength := *l
+		col.length = &newlength
+	}
 	return col
 }
-- 
2.43.0


From c16a4d675609cd64cc88ebcc134a1150c39bf674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 38/48] fix: local-git sources deliver files only, and never
 take a commitish for an option

---
 source.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source.go b/source.go
index f0d2f23..dab4066 100644
--- a/source.go
+++ b/source.go
@@ -254,7 +254,9 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 
 func (s localGitSource) WriteSchema(dst io.Writer) error {
 	var out bytes.Buffer
-	cmd := exec.Command("git", "show", fmt.Sprintf("%s:%s", s.commitish, s.file))
+	// "git show" would also list directories, and take a commitish that
+	// starts with a dash for an option
+	cmd := exec.Command("git", "cat-file", "blob", fmt.Sprintf("%s:%s", s.commitish, s.file))
 	cmd.Stdout = &out
 	cmd.Dir = s.dir
 
-- 
2.43.0


From c95b1a57ba8693a5e39ccc9e319788a61e59be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 39/48] fix: the tools write their output file only after they
 have succeeded

---
 cmd/schemadiff/schemadiff.go | 33 ++++++++++++++++++++-------------
 cmd/schemalex/schemalex.go   | 33 ++++++++++++++++++++-------------
 cmd/schemalint/schemalint.go | 27 +++++++++++++++------------
 3 files changed, 55 insertions(+), 38 deletions(-)

diff --git a/cmd/schemadiff/schemadiff.go b/cmd/schemadiff/schemadiff.go
index 43c7aa5..1446569 100644
--- a/cmd/schemadiff/schemadiff.go
+++ b/cmd/schemadiff/schemadiff.go
@@ -1,9 +1,10 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
-	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"runtime"
@@ -77,15 +78,9 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
+	// the output file is not touched before there is a result: it may be
+	// one of the sources
+	var dst bytes.Buffer
 
 	fromSource, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
@@ -98,10 +93,22 @@ Examples:
 	}
 
 	p := schemalex.New()
-	return diff.Sources(
-		dst,
+	if err := diff.Sources(
+		&dst,
 		fromSource,
 		toSource,
 		diff.WithTransaction(txn), diff.WithParser(p),
-	)
+	); err != nil {
+		return err
+	}
+
+	return output(outfile, &dst)
+}
+
+func output(file string, result *bytes.Buffer) error {
+	if len(file) == 0 {
+		_, err := result.WriteTo(os.Stdout)
+		return errors.Wrap(err, `failed to write result`)
+	}
+	return errors.Wrapf(ioutil.WriteFile(file, result.Bytes(), 0644), `failed to write file %s`, file)
 }
diff --git a/cmd/schemalex/schemalex.go b/cmd/schemalex/schemalex.go
index ecbb0e9..e844c66 100644
--- a/cmd/schemalex/schemalex.go
+++ b/cmd/schemalex/schemalex.go
@@ -1,9 +1,10 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
-	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"runtime"
@@ -76,15 +77,9 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
+	// the output file is not touched before there is a result: it may be
+	// one of the sources
+	var dst bytes.Buffer
 
 	fromSource, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
@@ -97,10 +92,22 @@ Examples:
 	}
 
 	p := schemalex.New()
-	return diff.Sources(
-		dst,
+	if err := diff.Sources(
+		&dst,
 		fromSource,
 		toSource,
 		diff.WithTransaction(txn), diff.WithParser(p),
-	)
+	); err != nil {
+		return err
+	}
+
+	return output(outfile, &dst)
+}
+
+func output(file string, result *bytes.Buffer) error {
+	if len(file) == 0 {
+		_, err := result.WriteTo(os.Stdout)
+		return errors.Wrap(err, `failed to write result`)
+	}
+	return errors.Wrapf(ioutil.WriteFile(file, result.Bytes(), 0644), `failed to write file %s`, file)
 }
diff --git a/cmd/schemalint/schemalint.go b/cmd/schemalint/schemalint.go
index e6246d7..6fba043 100644
--- a/cmd/schemalint/schemalint.go
+++ b/cmd/schemalint/schemalint.go
@@ -1,10 +1,11 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"flag"
 	"fmt"
-	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"runtime"
@@ -84,15 +85,9 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
+	// the output file is not touched before there is a result: it may be
+	// one of the sources
+	var dst bytes.Buffer
 
 	src, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
@@ -104,9 +99,17 @@ Examples:
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
-	if err := linter.Run(ctx, src, dst, lint.WithIndent(" ", indentNum)); err != nil {
+	if err := linter.Run(ctx, src, &dst, lint.WithIndent(" ", indentNum)); err != nil {
 		return errors.Wrap(err, `failed to lint source`)
 	}
 
-	return nil
+	return output(outfile, &dst)
+}
+
+func output(file string, result *bytes.Buffer) error {
+	if len(file) == 0 {
+		_, err := result.WriteTo(os.Stdout)
+		return errors.Wrap(err, `failed to write result`)
+	}
+	return errors.Wrapf(ioutil.WriteFile(file, result.Bytes(), 0644), `failed to write file %s`, file)
 }
-- 
2.43.0


From 19e965e3fb59ad6926033314a70f5b022d7d9109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 40/48] fix: ssl-* parameters are not sent to the server with
 TLS disabled either

---
 source.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source.go b/source.go
index dab4066..f983744 100644
--- a/source.go
+++ b/source.go
@@ -181,13 +181,13 @@ func (s mysqlSource) MySQLConfig() (*mysql.Config, error) {
 			Certificates: []tls.Certificate{certs},
 		})
 		cfg.TLSConfig = tlsName
-
-		// these are our own. The driver would take them for names of
-		// system variables to set
-		delete(cfg.Params, "ssl-ca")
-		delete(cfg.Params, "ssl-cert")
-		delete(cfg.Params, "ssl-secret")
 	}
+
+	// these are our own, whether TLS is enabled or not. The driver would
+	// take them for names of system variables to set
+	delete(cfg.Params, "ssl-ca")
+	delete(cfg.Params, "ssl-cert")
+	delete(cfg.Params, "ssl-secret")
 	return cfg, nil
 }
 
-- 
2.43.0


From ec5bf35cc2b6c570fa709862245b5eb9b968724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 41/48] fix: write the sort direction of columns in references

---
 format/format.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/format/format.go b/format/format.go
index 37d3cf1..41582ec 100644
--- a/format/format.go
+++ b/format/format.go
@@ -444,6 +444,13 @@ func formatReference(ctx *fmtCtx, r model.Reference) error {
 			buf.WriteString(col.Length())
 			buf.WriteByte(')')
 		}
+		if col.HasSortDirection() {
+			if col.IsAscending() {
+				buf.WriteString(" ASC")
+			} else {
+				buf.WriteString(" DESC")
+			}
+		}
 		if i < lch-1 {
 			buf.WriteString(", ")
 		}
-- 
2.43.0


From 8a5b418916a556690a223a89a986ad7a7a9bc534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 42/48] fix: lint notices short writes, and writes its result
 at once

---
 lint/lint.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lint/lint.go b/lint/lint.go
index 0d6a528..315e82d 100644
--- a/lint/lint.go
+++ b/lint/lint.go
@@ -33,19 +33,21 @@ func (l *Linter) Run(ctx context.Context, src schemalex.SchemaSource, dst io.Wri
 		return errors.Wrap(err, `failed to parse source`)
 	}
 
+	// the result is written at once, so that nothing is written on failure,
+	// and a short write is noticed
+	var out bytes.Buffer
 	for i, stmt := range stmts {
 		if i != 0 {
-			if _, err := dst.Write([]byte{'\n', '\n'}); err != nil {
-				return errors.Wrap(err, `failed to write result`)
-			}
+			out.WriteString("\n\n")
 		}
 
-		if err := format.SQL(dst, stmt, options...); err != nil {
+		if err := format.SQL(&out, stmt, options...); err != nil {
 			return errors.Wrap(err, `failed to format source`)
 		}
-		if _, err := dst.Write([]byte{';'}); err != nil {
-			return errors.Wrap(err, `failed to write result`)
-		}
+		out.WriteByte(';')
+	}
+	if _, err := out.WriteTo(dst); err != nil {
+		return errors.Wrap(err, `failed to write result`)
 	}
 
 	return nil
-- 
2.43.0


From 65fc4bff406904dd5b8c198cfb1e23fd5b5286f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 43/48] fix: values of table options that are quoted names keep
 their quotes

---
 format/format.go | 27 +++++++++++++++++++++++++--
 lexer.go         | 12 ++++++++++++
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/format/format.go b/format/format.go
index 41582ec..2aff7d6 100644
--- a/format/format.go
+++ b/format/format.go
@@ -3,7 +3,9 @@ package format
 import (
 	"bytes"
 	"io"
+	"strings"
 
+	"github.com/schemalex/schemalex"
 	"github.com/schemalex/schemalex/internal/errors"
 	"github.com/schemalex/schemalex/internal/util"
 	"github.com/schemalex/schemalex/model"
@@ -91,9 +93,12 @@ func formatTableOption(ctx *fmtCtx, option model.TableOption) error {
 	var buf bytes.Buffer
 	buf.WriteString(option.Key())
 	buf.WriteString(" = ")
-	if option.NeedQuotes() {
+	switch {
+	case option.NeedQuotes():
 		buf.WriteString(util.Quote(option.Value()))
-	} else {
+	case needsBackquotes(option):
+		buf.WriteString(util.Backquote(option.Value()))
+	default:
 		buf.WriteString(option.Value())
 	}
 
@@ -103,6 +108,24 @@ func formatTableOption(ctx *fmtCtx, option model.TableOption) error {
 	return nil
 }
 
+// needsBackquotes returns true if the value of the option is a name that
+// can not be written as it is
+func needsBackquotes(option model.TableOption) bool {
+	switch option.Key() {
+	case "ENGINE":
+		if strings.EqualFold(option.Value(), "MEMORY") {
+			return false
+		}
+	case "DEFAULT CHARACTER SET", "DEFAULT COLLATE":
+		if strings.EqualFold(option.Value(), "BINARY") {
+			return false
+		}
+	default:
+		return false
+	}
+	return !schemalex.IsPlainName(option.Value())
+}
+
 func formatTable(ctx *fmtCtx, table model.Table) error {
 	var buf bytes.Buffer
 
diff --git a/lexer.go b/lexer.go
index 46895a7..68149e1 100644
--- a/lexer.go
+++ b/lexer.go
@@ -409,6 +409,18 @@ func (l *lexer) runNumber() {
 	}
 }
 
+// IsPlainName returns true if s can be used as a name without being quoted:
+// it is a word that has no special meaning
+func IsPlainName(s string) bool {
+	for i, r := range s {
+		if !isCharacter(r) || i == 0 && !isLetter(r) {
+			return false
+		}
+	}
+	_, keyword := keywordIdentMap[strings.ToUpper(s)]
+	return s != "" && !keyword
+}
+
 func isSpace(r rune) bool {
 	return r == ' ' || r == '\n' || r == '\t' || r == '\r'
 }
-- 
2.43.0


From 05a5d7ad7a6504346be605017326234d1cfcfc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 44/48] fix: a short write of a formatted column type is
 noticed

---
 format/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index 2aff7d6..a17b8a8 100644
--- a/format/format.go
+++ b/format/format.go
@@ -215,7 +215,7 @@ func formatColumnType(ctx *fmtCtx, col model.ColumnType) error {
 		return errors.New(`invalid column type`)
 	}
 
-	if _, err := io.WriteString(ctx.dst, col.String()); err != nil {
+	if _, err := strings.NewReader(col.String()).WriteTo(ctx.dst); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 01b5a7434fb15103d195dc779ef486eb3c80cd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:12 +0000
Subject: [PATCH 45/48] fix: refuse a second size or list of values of a
 column, and one that does not follow the type

---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index bb95b9b..8781100 100644
--- a/parser.go
+++ b/parser.go
@@ -859,10 +859,14 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 		pos = _f
 		return true
 	}
-	for {
+	// the size or the list of values is given once, directly after the type
+	for first := true; ; first = false {
 		ctx.skipWhiteSpaces()
 		switch t := ctx.next(); t.Type {
 		case LPAREN:
+			if !first {
+				return newParseError(ctx, t, "unexpected LPAREN (column size or values)")
+			}
 			if check(coloptSize) {
 				ctx.skipWhiteSpaces()
 				t := ctx.next()
-- 
2.43.0


From c96e779ad5fc99131bd348813cb0baad88f32a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:33 +0000
Subject: [PATCH 46/48] fix: accept ZEROFILL before UNSIGNED

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index 8781100..fd0615d 100644
--- a/parser.go
+++ b/parser.go
@@ -950,6 +950,10 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 			}
 			col.SetCollation(v.Value)
 		case UNSIGNED:
+			if pos == coloptZerofill {
+				// they may come in any order
+				pos = coloptUnsigned
+			}
 			if !check(coloptUnsigned) {
 				return newParseError(ctx, t, "cannot apply UNSIGNED")
 			}
-- 
2.43.0


From 142fd979cf212c45fd01c1215e896b0f89a9dc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:36 +0000
Subject: [PATCH 47/48] fix: accept vertical tabs and form feeds as white space

---
 lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 68149e1..2336d02 100644
--- a/lexer.go
+++ b/lexer.go
@@ -422,7 +422,7 @@ func IsPlainName(s string) bool {
 }
 
 func isSpace(r rune) bool {
-	return r == ' ' || r == '\n' || r == '\t' || r == '\r'
+	return r == ' ' || r == '\n' || r == '\t' || r == '\r' || r == '\v' || r == '\f'
 }
 
 func isLetter(r rune) bool {
-- 
2.43.0


From acccf4c3d532271475f7613f0bc79a4fbac7ecfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:12 +0000
Subject: [PATCH 48/48] fix: read git sources from their own repository, not
 that of the environment

GIT_DIR and the like are set in hooks, and made every local-git source
denote a file in the repository of the hook.
---
 source.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source.go b/source.go
index f983744..7cfd5b4 100644
--- a/source.go
+++ b/source.go
@@ -252,6 +252,21 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 	return NewReaderSource(&buf).WriteSchema(dst)
 }
 
+// gitEnv returns the given environment without the variables that make git
+// use another repository than that of the directory it runs in. They are set
+// when we are run by a hook, for example
+func gitEnv(environ []string) []string {
+	var env []string
+	for _, v := range environ {
+		switch strings.SplitN(v, "=", 2)[0] {
+		case "GIT_DIR", "GIT_WORK_TREE", "GIT_COMMON_DIR", "GIT_INDEX_FILE", "GIT_OBJECT_DIRECTORY":
+		default:
+			env = append(env, v)
+		}
+	}
+	return env
+}
+
 func (s localGitSource) WriteSchema(dst io.Writer) error {
 	var out bytes.Buffer
 	// "git show" would also list directories, and take a commitish that
@@ -259,6 +274,7 @@ func (s localGitSource) WriteSchema(dst io.Writer) error {
 	cmd := exec.Command("git", "cat-file", "blob", fmt.Sprintf("%s:%s", s.commitish, s.file))
 	cmd.Stdout = &out
 	cmd.Dir = s.dir
+	cmd.Env = gitEnv(os.Environ())
 
 	if err := cmd.Run(); err != nil {
 		return errors.Wrapf(err, `failed to run git command: %s`, cmd.Args)
-- 
2.43.0

