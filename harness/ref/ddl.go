package ref

import (
	"fmt"
	"strings"
)

// This file is an independent reader of MySQL data definition statements.
// It knows the syntax of the server, not that of the code under test: for
// instance, it decodes escape sequences, refuses attributes that are given
// twice, and refuses reserved words as bare identifiers.

type tokKind int

const (
	tWord tokKind = iota
	tIdent
	tString
	tNumber
	tPunct
	tEnd
)

type tok struct {
	kind tokKind
	text string // decoded
	pos  int
}

func (t tok) String() string {
	switch t.kind {
	case tEnd:
		return "end of input"
	case tIdent:
		return fmt.Sprintf("identifier %q", t.text)
	case tString:
		return fmt.Sprintf("string %q", t.text)
	}
	return fmt.Sprintf("%q", t.text)
}

func isAlpha(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80 || c == '$'
}
func isDig(c byte) bool { return c >= '0' && c <= '9' }

func tokenize(s string) ([]tok, error) {
	var l []tok
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f':
			i++
		case isAlpha(c):
			j := i
			for j < len(s) && (isAlpha(s[j]) || isDig(s[j])) {
				j++
			}
			l = append(l, tok{tWord, s[i:j], i})
			i = j
		case isDig(c) || (c == '.' || c == '-' || c == '+') && i+1 < len(s) && isDig(s[i+1]):
			j := i + 1
			for j < len(s) && isDig(s[j]) {
				j++
			}
			if c != '.' && j < len(s) && s[j] == '.' {
				j++
				for j < len(s) && isDig(s[j]) {
					j++
				}
			}
			if j < len(s) && (s[j] == 'e' || s[j] == 'E') {
				k := j + 1
				if k < len(s) && (s[k] == '-' || s[k] == '+') {
					k++
				}
				if k < len(s) && isDig(s[k]) {
					for k < len(s) && isDig(s[k]) {
						k++
					}
					j = k
				}
			}
			l = append(l, tok{tNumber, s[i:j], i})
			i = j
		case c == '`':
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(s) {
					return nil, fmt.Errorf("unterminated identifier at byte %d", i)
				}
				if s[j] == '`' {
					if j+1 < len(s) && s[j+1] == '`' {
						j++
					} else {
						break
					}
				}
				b.WriteByte(s[j])
				j++
			}
			l = append(l, tok{tIdent, b.String(), i})
			i = j + 1
		case c == '\'' || c == '"':
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(s) {
					return nil, fmt.Errorf("unterminated string at byte %d", i)
				}
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						b.WriteByte(c)
						j += 2
						continue
					}
					break
				}
				if s[j] == '\\' {
					if j+1 >= len(s) {
						return nil, fmt.Errorf("unterminated string at byte %d", i)
					}
					b.WriteString(Decode(s[j : j+2]))
					j += 2
					continue
				}
				b.WriteByte(s[j])
				j++
			}
			l = append(l, tok{tString, b.String(), i})
			i = j + 1
		case strings.IndexByte("(),;=", c) >= 0:
			l = append(l, tok{tPunct, string(c), i})
			i++
		default:
			return nil, fmt.Errorf("unexpected character %q at byte %d", c, i)
		}
	}
	return append(l, tok{tEnd, "", len(s)}), nil
}

// AlterOp is what an ALTER TABLE statement does.
type AlterOp string

const (
	OpDropColumn   AlterOp = "DROP COLUMN"
	OpAddColumn    AlterOp = "ADD COLUMN"
	OpChangeColumn AlterOp = "CHANGE COLUMN"
	OpDropPrimary  AlterOp = "DROP PRIMARY KEY"
	OpDropIndex    AlterOp = "DROP INDEX"
	OpDropFK       AlterOp = "DROP FOREIGN KEY"
	OpAddIndex     AlterOp = "ADD INDEX"
)

// Stmt is a statement.
type Stmt struct {
	Kind  string // CREATE TABLE, DROP TABLE, ALTER TABLE, CREATE DATABASE, BEGIN, COMMIT, FK0, FK1
	Name  string // of the table or database
	IfNot bool
	Table *Table
	Op    AlterOp
	Arg   string // column, index or foreign key
	Col   *Col
	First bool
	After *string
	Idx   *Index
}

func (s *Stmt) String() string {
	switch s.Kind {
	case "CREATE TABLE":
		return "CREATE " + s.Table.String()
	case "ALTER TABLE":
		b := fmt.Sprintf("ALTER TABLE %q %s %q", s.Name, s.Op, s.Arg)
		if s.Col != nil {
			b += " " + s.Col.String()
		}
		if s.First {
			b += " FIRST"
		}
		if s.After != nil {
			b += fmt.Sprintf(" AFTER %q", *s.After)
		}
		if s.Idx != nil {
			b += " " + s.Idx.String()
		}
		return b
	}
	return fmt.Sprintf("%s %q", s.Kind, s.Name)
}

type ddl struct {
	toks []tok
	i    int
	src  string
}

type ddlError struct{ error }

func (d *ddl) fail(f string, a ...interface{}) {
	panic(ddlError{fmt.Errorf("%s at byte %d (near %q)", fmt.Sprintf(f, a...), d.toks[d.i].pos, near(d.src, d.toks[d.i].pos))})
}

func near(s string, pos int) string {
	lo, hi := max(0, pos-30), min(len(s), pos+30)
	return s[lo:hi]
}

func (d *ddl) peek() tok { return d.toks[d.i] }
func (d *ddl) next() tok {
	t := d.toks[d.i]
	if d.i < len(d.toks)-1 {
		d.i++
	}
	return t
}

func (d *ddl) isWord(w string) bool {
	t := d.peek()
	return t.kind == tWord && strings.EqualFold(t.text, w)
}

func (d *ddl) accept(words ...string) bool {
	for k, w := range words {
		if d.i+k >= len(d.toks) {
			return false
		}
		t := d.toks[d.i+k]
		if t.kind != tWord || !strings.EqualFold(t.text, w) {
			return false
		}
	}
	d.i += len(words)
	return true
}

func (d *ddl) want(words ...string) {
	for _, w := range words {
		if !d.accept(w) {
			d.fail("expected %s, got %s", w, d.peek())
		}
	}
}

func (d *ddl) acceptP(p string) bool {
	t := d.peek()
	if t.kind == tPunct && t.text == p {
		d.i++
		return true
	}
	return false
}

func (d *ddl) wantP(p string) {
	if !d.acceptP(p) {
		d.fail("expected %q, got %s", p, d.peek())
	}
}

// reserved lists those reserved words of MySQL that can be confused with
// something else in the statements that are read here.
var reserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`ADD ALTER ASC AS BETWEEN BIGINT BINARY BLOB BY CASCADE CHANGE CHAR CHARACTER CHECK
		COLLATE COLUMN CONSTRAINT CREATE CROSS CURRENT_TIMESTAMP DATABASE DECIMAL DEFAULT DELETE DESC DISTINCT DOUBLE DROP
		EXISTS FALSE FLOAT FOR FOREIGN FROM FULLTEXT GRANT GROUP HAVING IF IN INDEX INSERT INT INTEGER INTO IS JOIN KEY KEYS
		LIKE LIMIT LOCALTIME LOCALTIMESTAMP LONGBLOB LONGTEXT MATCH MEDIUMBLOB MEDIUMINT MEDIUMTEXT NOT NULL NUMERIC ON OR
		ORDER PRIMARY REAL REFERENCES RESTRICT SELECT SET SMALLINT SPATIAL TABLE THEN TINYBLOB TINYINT TINYTEXT TO TRUE UNION UNIQUE
		UNSIGNED UPDATE USE USING VALUES VARBINARY VARCHAR WHERE WITH ZEROFILL`) {
		reserved[w] = true
	}
}

func (d *ddl) ident() string {
	t := d.next()
	switch {
	case t.kind == tIdent:
		if t.text == "" {
			d.i--
			d.fail("empty identifier")
		}
		return t.text
	case t.kind == tWord && !reserved[strings.ToUpper(t.text)]:
		return t.text
	}
	d.i--
	d.fail("expected an identifier, got %s", t)
	return ""
}

func (d *ddl) str() string {
	if d.peek().kind != tString {
		d.fail("expected a string, got %s", d.peek())
	}
	return d.next().text
}

func (d *ddl) num() string {
	t := d.peek()
	if t.kind != tNumber {
		d.fail("expected a number, got %s", t)
	}
	for i := 0; i < len(t.text); i++ {
		if !isDig(t.text[i]) {
			d.fail("expected an unsigned integer, got %s", t)
		}
	}
	return d.next().text
}

// charset is the name of a character set or collation.
func (d *ddl) charset() string {
	if d.peek().kind == tString {
		return d.str()
	}
	if d.accept("BINARY") {
		return "binary"
	}
	return d.ident()
}

// types lists the types and what may follow them: l length, L mandatory length,
// d length and decimals, D both or none, u unsigned/zerofill, c character attributes, v values.
var types = map[string]string{
	"BIT": "l", "TINYINT": "lu", "SMALLINT": "lu", "MEDIUMINT": "lu", "INT": "lu", "INTEGER": "lu", "BIGINT": "lu",
	"REAL": "Du", "DOUBLE": "Du", "FLOAT": "du", "DECIMAL": "du", "NUMERIC": "du",
	"DATE": "", "TIME": "l", "TIMESTAMP": "l", "DATETIME": "l", "YEAR": "l",
	"CHAR": "lc", "VARCHAR": "lc", "BINARY": "l", "VARBINARY": "l",
	"TINYBLOB": "", "BLOB": "l", "MEDIUMBLOB": "", "LONGBLOB": "",
	"TINYTEXT": "c", "TEXT": "lc", "MEDIUMTEXT": "c", "LONGTEXT": "c",
	"ENUM": "vc", "SET": "vc", "BOOL": "", "BOOLEAN": "", "JSON": "", "GEOMETRY": "",
}

func (d *ddl) column() *Col {
	c := &Col{Name: d.ident()}
	t := d.next()
	flags, ok := types[strings.ToUpper(t.text)]
	if t.kind != tWord || !ok {
		d.i--
		d.fail("expected a type, got %s", t)
	}
	c.Type = strings.ToUpper(t.text)
	has := func(f string) bool { return strings.Contains(flags, f) }
	if d.acceptP("(") {
		switch {
		case has("v"):
			for {
				c.Values = append(c.Values, d.str())
				if !d.acceptP(",") {
					break
				}
			}
		case has("l"), has("d"), has("D"):
			c.Len = P(d.num())
			if has("D") {
				d.wantP(",")
				c.Dec = P(d.num())
			} else if has("d") && d.acceptP(",") {
				c.Dec = P(d.num())
			}
		default:
			d.fail("%s takes no length", c.Type)
		}
		d.wantP(")")
	} else if has("v") {
		d.fail("%s needs values", c.Type)
	}
	seen := map[string]bool{}
	once := func(what string) {
		if seen[what] {
			d.fail("%s given twice", what)
		}
		seen[what] = true
	}
	// these belong to the type
	for {
		switch {
		case d.isWord("UNSIGNED"), d.isWord("ZEROFILL"):
			if !has("u") {
				d.fail("%s can not be %s", c.Type, d.peek())
			}
			if d.accept("UNSIGNED") {
				once("UNSIGNED")
				c.Unsigned = true
			} else {
				d.next()
				once("ZEROFILL")
				c.Zerofill = true
			}
			continue
		case d.isWord("BINARY"):
			if !has("c") {
				d.fail("%s can not be BINARY", c.Type)
			}
			d.next()
			once("BINARY")
			c.Binary = true
			continue
		case d.accept("CHARACTER", "SET"), d.accept("CHARSET"):
			if !has("c") {
				d.fail("%s can not have a character set", c.Type)
			}
			once("CHARACTER SET")
			c.Charset = P(d.charset())
			continue
		}
		break
	}
	for {
		switch {
		case d.accept("COLLATE"):
			if !has("c") {
				d.fail("%s can not have a collation", c.Type)
			}
			once("COLLATE")
			c.Collate = P(d.charset())
		case d.accept("NOT", "NULL"):
			once("NULL")
			c.Null = NullNot
		case d.accept("NULL"):
			once("NULL")
			c.Null = NullYes
		case d.accept("DEFAULT"):
			once("DEFAULT")
			c.Default = d.defaultValue()
		case d.accept("ON", "UPDATE"):
			once("ON UPDATE")
			t := d.next()
			switch u := strings.ToUpper(t.text); {
			case t.kind == tWord && (u == "CURRENT_TIMESTAMP" || u == "LOCALTIME" || u == "LOCALTIMESTAMP"):
				c.AutoUpdate = P(u)
			default:
				d.i--
				d.fail("expected CURRENT_TIMESTAMP after ON UPDATE, got %s", t)
			}
		case d.accept("AUTO_INCREMENT"):
			once("AUTO_INCREMENT")
			c.AutoInc = true
		case d.accept("UNIQUE", "KEY"), d.accept("UNIQUE"):
			once("UNIQUE")
			c.Unique = true
		case d.accept("PRIMARY", "KEY"):
			once("PRIMARY")
			c.Primary = true
		case d.accept("KEY"):
			once("PRIMARY")
			c.Key = true
		case d.accept("COMMENT"):
			once("COMMENT")
			c.Comment = P(d.str())
		default:
			return c
		}
	}
}

func (d *ddl) defaultValue() *Default {
	t := d.next()
	switch t.kind {
	case tString:
		return &Default{Val: t.text, Quoted: true}
	case tNumber:
		return &Default{Val: strings.ToUpper(t.text)}
	case tWord:
		switch u := strings.ToUpper(t.text); u {
		case "NULL", "TRUE", "FALSE":
			return &Default{Val: u}
		case "CURRENT_TIMESTAMP", "LOCALTIME", "LOCALTIMESTAMP":
			return &Default{Val: u}
		case "NOW":
			d.wantP("(")
			d.wantP(")")
			return &Default{Val: "NOW()"}
		}
	}
	d.i--
	d.fail("expected a default value, got %s", t)
	return nil
}

func (d *ddl) idxCols() []IdxCol {
	d.wantP("(")
	var l []IdxCol
	for {
		c := IdxCol{Name: d.ident()}
		if d.acceptP("(") {
			c.Len = P(d.num())
			d.wantP(")")
		}
		if d.accept("ASC") {
			c.Dir = "ASC"
		} else if d.accept("DESC") {
			c.Dir = "DESC"
		}
		l = append(l, c)
		if !d.acceptP(",") {
			break
		}
	}
	d.wantP(")")
	return l
}

func (d *ddl) isIndex() bool {
	for _, w := range []string{"CONSTRAINT", "PRIMARY", "UNIQUE", "INDEX", "KEY", "FULLTEXT", "SPATIAL", "FOREIGN"} {
		if d.isWord(w) {
			return true
		}
	}
	return false
}

func (d *ddl) using(x *Index) {
	if !d.accept("USING") {
		return
	}
	if x.Using != "" {
		d.fail("USING given twice")
	}
	switch {
	case d.accept("BTREE"):
		x.Using = "BTREE"
	case d.accept("HASH"):
		x.Using = "HASH"
	default:
		d.fail("expected BTREE or HASH")
	}
}

func (d *ddl) nameOpt(x *Index) {
	t := d.peek()
	if t.kind == tIdent || t.kind == tWord && !reserved[strings.ToUpper(t.text)] {
		x.Name = P(d.ident())
	}
}

func (d *ddl) index() *Index {
	x := &Index{}
	constraint := false
	if d.accept("CONSTRAINT") {
		constraint = true
		if t := d.peek(); t.kind == tIdent || t.kind == tWord && !reserved[strings.ToUpper(t.text)] {
			x.Symbol = P(d.ident())
		}
	}
	common := func() {
		d.nameOpt(x)
		d.using(x)
		x.Cols = d.idxCols()
		d.using(x)
	}
	switch {
	case d.accept("PRIMARY", "KEY"):
		x.Kind = Primary
		common()
	case d.accept("UNIQUE"):
		x.Kind = Unique
		_ = d.accept("KEY") || d.accept("INDEX")
		common()
	case d.accept("FOREIGN", "KEY"):
		x.Kind = Foreign
		d.nameOpt(x)
		x.Cols = d.idxCols()
		// the server requires this, the documentation of schemalex does not
		if d.isWord("REFERENCES") {
			x.Ref = d.reference()
		}
	case !constraint && (d.accept("KEY") || d.accept("INDEX")):
		x.Kind = Normal
		common()
	case !constraint && d.accept("FULLTEXT"):
		x.Kind = Fulltext
		_ = d.accept("KEY") || d.accept("INDEX")
		d.nameOpt(x)
		x.Cols = d.idxCols()
		if d.accept("WITH", "PARSER") {
			x.Parser = P(d.ident())
		}
	case !constraint && d.accept("SPATIAL"):
		x.Kind = Spatial
		_ = d.accept("KEY") || d.accept("INDEX")
		d.nameOpt(x)
		x.Cols = d.idxCols()
	default:
		d.fail("expected a key, got %s", d.peek())
	}
	return x
}

func (d *ddl) reference() *Ref {
	d.want("REFERENCES")
	r := &Ref{Table: d.ident()}
	r.Cols = d.idxCols()
	if d.accept("MATCH") {
		switch {
		case d.accept("FULL"):
			r.Match = "FULL"
		case d.accept("PARTIAL"):
			r.Match = "PARTIAL"
		case d.accept("SIMPLE"):
			r.Match = "SIMPLE"
		default:
			d.fail("expected FULL, PARTIAL or SIMPLE")
		}
	}
	for d.accept("ON") {
		var p *string
		switch {
		case d.accept("DELETE"):
			p = &r.OnDelete
		case d.accept("UPDATE"):
			p = &r.OnUpdate
		default:
			d.fail("expected DELETE or UPDATE")
		}
		if *p != "" {
			d.fail("action given twice")
		}
		switch {
		case d.accept("RESTRICT"):
			*p = "RESTRICT"
		case d.accept("CASCADE"):
			*p = "CASCADE"
		case d.accept("SET", "NULL"):
			*p = "SET NULL"
		case d.accept("NO", "ACTION"):
			*p = "NO ACTION"
		default:
			d.fail("expected an action")
		}
	}
	return r
}

// options lists the table options and their values: w word, n number, s string,
// D the word DEFAULT.
var options = []struct {
	key   string
	words []string
	val   string
}{
	{"DEFAULT CHARACTER SET", []string{"DEFAULT", "CHARACTER", "SET"}, "w"},
	{"DEFAULT CHARACTER SET", []string{"DEFAULT", "CHARSET"}, "w"},
	{"DEFAULT CHARACTER SET", []string{"CHARACTER", "SET"}, "w"},
	{"DEFAULT CHARACTER SET", []string{"CHARSET"}, "w"},
	{"DEFAULT COLLATE", []string{"DEFAULT", "COLLATE"}, "w"},
	{"DEFAULT COLLATE", []string{"COLLATE"}, "w"},
	{"DATA DIRECTORY", []string{"DATA", "DIRECTORY"}, "s"},
	{"INDEX DIRECTORY", []string{"INDEX", "DIRECTORY"}, "s"},
	{"ENGINE", []string{"ENGINE"}, "w"},
	{"AUTO_INCREMENT", []string{"AUTO_INCREMENT"}, "n"},
	{"AVG_ROW_LENGTH", []string{"AVG_ROW_LENGTH"}, "n"},
	{"CHECKSUM", []string{"CHECKSUM"}, "n"},
	{"COMMENT", []string{"COMMENT"}, "s"},
	{"CONNECTION", []string{"CONNECTION"}, "s"},
	{"DELAY_KEY_WRITE", []string{"DELAY_KEY_WRITE"}, "n"},
	{"INSERT_METHOD", []string{"INSERT_METHOD"}, "w"},
	{"KEY_BLOCK_SIZE", []string{"KEY_BLOCK_SIZE"}, "n"},
	{"MAX_ROWS", []string{"MAX_ROWS"}, "n"},
	{"MIN_ROWS", []string{"MIN_ROWS"}, "n"},
	{"PACK_KEYS", []string{"PACK_KEYS"}, "nD"},
	{"PASSWORD", []string{"PASSWORD"}, "s"},
	{"ROW_FORMAT", []string{"ROW_FORMAT"}, "wD"},
	{"STATS_AUTO_RECALC", []string{"STATS_AUTO_RECALC"}, "nD"},
	{"STATS_PERSISTENT", []string{"STATS_PERSISTENT"}, "nD"},
	{"STATS_SAMPLE_PAGES", []string{"STATS_SAMPLE_PAGES"}, "n"},
}

// option reads a table option, if there is one.
func (d *ddl) option() *Opt {
	for _, o := range options {
		if !d.accept(o.words...) {
			continue
		}
		d.acceptP("=")
		t := d.peek()
		opt := &Opt{Key: o.key}
		switch {
		case t.kind == tString && o.val == "s":
			opt.Val, opt.Quoted = d.str(), true
		case t.kind == tNumber && strings.Contains(o.val, "n"):
			opt.Val = d.num()
		case d.isWord("DEFAULT") && strings.Contains(o.val, "D"):
			opt.Val = d.next().text
		case d.isWord("BINARY") && strings.Contains(o.val, "w"):
			opt.Val = d.next().text
		case strings.Contains(o.val, "w"):
			opt.Val = d.ident()
		default:
			d.fail("bad value %s of %s", t, o.key)
		}
		return opt
	}
	return nil
}

func (d *ddl) create() *Stmt {
	d.want("CREATE")
	if d.accept("DATABASE") {
		s := &Stmt{Kind: "CREATE DATABASE"}
		s.IfNot = d.accept("IF", "NOT", "EXISTS")
		s.Name = d.ident()
		return s
	}
	t := &Table{}
	t.Temp = d.accept("TEMPORARY")
	d.want("TABLE")
	t.IfNotExists = d.accept("IF", "NOT", "EXISTS")
	t.Name = d.ident()
	s := &Stmt{Kind: "CREATE TABLE", Name: t.Name, Table: t}
	if d.accept("LIKE") {
		t.HasLike = true
		t.Like = d.ident()
		return s
	}
	d.wantP("(")
	for {
		if d.isIndex() {
			t.Idx = append(t.Idx, d.index())
		} else {
			t.Cols = append(t.Cols, d.column())
		}
		if !d.acceptP(",") {
			break
		}
	}
	d.wantP(")")
	for first := true; ; first = false {
		comma := !first && d.acceptP(",")
		o := d.option()
		if o == nil {
			if comma {
				d.fail("expected a table option, got %s", d.peek())
			}
			break
		}
		t.Opts = append(t.Opts, *o)
	}
	return s
}

func (d *ddl) alter() *Stmt {
	d.want("ALTER", "TABLE")
	s := &Stmt{Kind: "ALTER TABLE", Name: d.ident()}
	switch {
	case d.accept("DROP", "COLUMN"):
		s.Op, s.Arg = OpDropColumn, d.ident()
	case d.accept("DROP", "PRIMARY", "KEY"):
		s.Op = OpDropPrimary
	case d.accept("DROP", "INDEX"), d.accept("DROP", "KEY"):
		s.Op, s.Arg = OpDropIndex, d.ident()
	case d.accept("DROP", "FOREIGN", "KEY"):
		s.Op, s.Arg = OpDropFK, d.ident()
	case d.accept("CHANGE", "COLUMN"):
		s.Op, s.Arg = OpChangeColumn, d.ident()
		s.Col = d.column()
		d.position(s)
	case d.accept("ADD"):
		if d.isIndex() {
			s.Op, s.Idx = OpAddIndex, d.index()
			break
		}
		d.accept("COLUMN")
		s.Op, s.Col = OpAddColumn, d.column()
		d.position(s)
	default:
		d.fail("unexpected %s", d.peek())
	}
	return s
}

func (d *ddl) position(s *Stmt) {
	if d.accept("FIRST") {
		s.First = true
	} else if d.accept("AFTER") {
		s.After = P(d.ident())
	}
}

func (d *ddl) stmt() *Stmt {
	switch {
	case d.isWord("CREATE"):
		return d.create()
	case d.isWord("ALTER"):
		return d.alter()
	case d.accept("DROP", "TABLE"):
		return &Stmt{Kind: "DROP TABLE", Name: d.ident()}
	case d.accept("BEGIN"):
		return &Stmt{Kind: "BEGIN"}
	case d.accept("COMMIT"):
		return &Stmt{Kind: "COMMIT"}
	case d.accept("SET", "FOREIGN_KEY_CHECKS"):
		d.wantP("=")
		n := d.num()
		if n != "0" && n != "1" {
			d.fail("expected 0 or 1")
		}
		return &Stmt{Kind: "FK" + n}
	}
	d.fail("unexpected %s", d.peek())
	return nil
}

func catch(err *error) {
	if r := recover(); r != nil {
		if e, ok := r.(ddlError); ok {
			*err = e.error
			return
		}
		panic(r)
	}
}

// ReadScript reads statements, each of which must end with a semicolon.
func ReadScript(src string) (l []*Stmt, err error) {
	toks, err := tokenize(src)
	if err != nil {
		return nil, err
	}
	d := &ddl{toks: toks, src: src}
	defer catch(&err)
	for d.peek().kind != tEnd {
		s := d.stmt()
		d.wantP(";")
		l = append(l, s)
	}
	return l, nil
}

func readOne(src string, f func(*ddl)) (err error) {
	toks, err := tokenize(src)
	if err != nil {
		return err
	}
	d := &ddl{toks: toks, src: src}
	defer catch(&err)
	f(d)
	if d.peek().kind != tEnd {
		d.fail("unexpected %s", d.peek())
	}
	return nil
}

// ReadStmt reads a single statement. A semicolon may follow.
func ReadStmt(src string) (s *Stmt, err error) {
	err = readOne(src, func(d *ddl) { s = d.stmt(); d.acceptP(";") })
	return
}

// ReadColumn reads a column definition.
func ReadColumn(src string) (c *Col, err error) {
	err = readOne(src, func(d *ddl) { c = d.column() })
	return
}

// ReadIndex reads an index definition.
func ReadIndex(src string) (x *Index, err error) {
	err = readOne(src, func(d *ddl) { x = d.index() })
	return
}

// ReadReference reads a REFERENCES clause.
func ReadReference(src string) (r *Ref, err error) {
	err = readOne(src, func(d *ddl) { r = d.reference() })
	return
}

// ReadOption reads a table option.
func ReadOption(src string) (o *Opt, err error) {
	err = readOne(src, func(d *ddl) {
		if o = d.option(); o == nil {
			d.fail("expected a table option, got %s", d.peek())
		}
	})
	return
}

// ReadSchema reads CREATE TABLE statements.
func ReadSchema(src string) (*Schema, error) {
	l, err := ReadScript(src)
	if err != nil {
		return nil, err
	}
	s := &Schema{}
	for _, st := range l {
		if st.Kind != "CREATE TABLE" {
			return nil, fmt.Errorf("unexpected statement %s", st)
		}
		s.Tables = append(s.Tables, st.Table)
	}
	return s, nil
}
