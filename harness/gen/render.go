package gen

import (
	"strings"

	"verifharness/pbt"
	"verifharness/ref"
)

// Kinds of tokens.
const (
	Word   = iota // keyword
	Bare          // identifier without quotes
	Quoted        // identifier in backquotes
	String        // string
	Number        // number
	Punct         // punctuation
	Raw           // anything, as it is
)

// Tok is a token of a rendered text.
type Tok struct {
	Text       string
	Kind       int
	Table      int      // which table of the schema it belongs to, or -1
	Where      string   // head, body, tail, end (the semicolon), ignored
	Glue       bool     // nothing may stand between this token and the one before
	Value      bool     // the value of a table option
	Bad        []string // what can not stand in its place
	Edge       bool     // the options of a table may end before it
	Start, End int      // in the text
}

func (t Tok) wordlike() bool { return t.Kind == Word || t.Kind == Bare || t.Kind == Number }

// Text is a rendered schema.
type Text struct {
	Src  string
	Toks []Tok
}

// Style says how to render.
type Style struct {
	Canonical bool // the plainest spelling
	Layout    bool // random white space and comments
	Spelling  bool // random quotes, case, synonyms of keywords, order of attributes
	Synonyms  bool // another type of the same meaning may be used, where the length is given
	Ignored   bool // with statements that are ignored
	NoComment bool // no comments in the layout
}

// Wild renders in any way that does not matter.
var Wild = Style{Layout: true, Spelling: true}

type renderer struct {
	*G
	st    Style
	kase  int
	toks  []Tok
	table int
	where string
	bad   []string // of the next token
	edge  bool     // the next token is the first one, or the one after an option
}

// what can not stand where something else is expected
var (
	noIdent   = []string{"5", "'x'", "(", ")", ",", ";", "=", "NOT"}
	noType    = []string{"5", "'x'", "x", "`x`", "(", ")", ",", ";", "=", "NOT", "NULL"}
	noNumber  = []string{"'x'", "x", "`x`", "(", ")", ",", ";", "NULL"}
	noValue   = []string{"5", "x", "`x`", "(", ")", ",", ";", "NULL"}
	noWord    = []string{"5", "'x'", "x", "`x`", "(", ")", ",", ";", "="}
	noUpdate  = []string{"5", "'x'", "(", ")", ",", ";", "=", "NOT"}
	noDefault = []string{"`x`", "(", ")", ",", ";", "=", "NOT", "KEY"}
	noAttr    = []string{"5", "'x'", "x", "`x`", ";", "="}
	noMore    = []string{"5", "'x'", "x", "`x`", "(", ";", "=", "NOT"}
	noList    = []string{"5", "'x'", ")", ",", ";", "="}
	noKey     = []string{"5", "'x'", "(", ")", ",", ";", "=", "INDEX", "KEY", "FULLTEXT", "SPATIAL"}
	noOption  = []string{"5", "'x'", "x", "`x`", "(", ")", "=", "CREATE", "DROP", "USE", "SET", "NULL", "LIKE"}
)

func (r *renderer) not(lists ...[]string) {
	r.bad = nil
	for _, l := range lists {
		r.bad = append(r.bad, l...)
	}
}

func (r *renderer) add(kind int, text string) {
	r.toks = append(r.toks, Tok{Text: text, Kind: kind, Table: r.table, Where: r.where, Bad: r.bad, Edge: r.edge})
	r.bad, r.edge = nil, false
}

func (r *renderer) wild(num, den int) bool { return r.st.Spelling && r.Chance(num, den) }

// words adds keywords.
func (r *renderer) words(s string) {
	for i, w := range strings.Fields(s) {
		if i > 0 {
			r.not(noWord)
		}
		r.add(Word, r.kaseOf(w))
	}
}

func (r *renderer) kaseOf(w string) string {
	if !r.st.Spelling {
		return w
	}
	switch r.kase {
	case 0:
		return strings.ToUpper(w)
	case 1:
		return strings.ToLower(w)
	case 2:
		return w[:1] + strings.ToLower(w[1:])
	}
	b := []byte(strings.ToUpper(w))
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' && r.Bool() {
			b[i] += 32
		}
	}
	return string(b)
}

func (r *renderer) punct(s string) { r.add(Punct, s) }

// Backquote quotes an identifier.
func Backquote(s string) string { return "`" + strings.ReplaceAll(s, "`", "``") + "`" }

func (r *renderer) ident(s string) {
	if CanBeBare(s) && r.wild(1, 2) {
		r.add(Bare, s)
		return
	}
	r.add(Quoted, Backquote(s))
}

// Quote quotes a string plainly.
func Quote(s string) string {
	return "'" + strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), `'`, `''`) + "'"
}

func (r *renderer) str(s string, double bool) {
	if !r.st.Spelling {
		r.add(String, Quote(s))
		return
	}
	q := byte('\'')
	if double && r.Bool() {
		q = '"'
	}
	mode := r.N(3)
	var b strings.Builder
	b.WriteByte(q)
	for i := 0; i < len(s); i++ {
		c := s[i]
		esc := mode == 1 || mode == 2 && r.Bool()
		switch {
		case c == '\\':
			// \% and \_ denote themselves
			if i+1 < len(s) && (s[i+1] == '%' || s[i+1] == '_') && esc {
				b.WriteByte('\\')
				b.WriteByte(s[i+1])
				i++
				break
			}
			b.WriteString(`\\`)
		case c == q:
			if esc {
				b.WriteByte('\\')
			} else {
				b.WriteByte(q)
			}
			b.WriteByte(q)
		case esc && c == 0:
			b.WriteString(`\0`)
		case esc && c == '\b':
			b.WriteString(`\b`)
		case esc && c == '\n':
			b.WriteString(`\n`)
		case esc && c == '\r':
			b.WriteString(`\r`)
		case esc && c == '\t':
			b.WriteString(`\t`)
		case esc && c == 26:
			b.WriteString(`\Z`)
		case mode == 2 && strings.IndexByte("0bnrtZ%_", c) < 0 && c < 0x80 && r.Chance(1, 8):
			b.WriteByte('\\')
			b.WriteByte(c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte(q)
	r.add(String, b.String())
}

func (r *renderer) num(s string) {
	if r.wild(1, 2) {
		s = strings.ToLower(s)
	}
	r.add(Number, s)
}

var synonymsOf = map[string][]string{
	"INT": {"INTEGER"}, "INTEGER": {"INT"}, "DECIMAL": {"NUMERIC"}, "NUMERIC": {"DECIMAL"}, "REAL": {"DOUBLE"}, "DOUBLE": {"REAL"},
}

func (r *renderer) column(c *ref.Col) {
	r.not(noIdent)
	r.ident(c.Name)
	typ := c.Type
	if s := synonymsOf[typ]; s != nil && r.st.Synonyms && r.Bool() {
		typ = s[0]
	}
	r.not(noType)
	r.words(typ)
	r.noMoreAttr(c, true)
	switch {
	case len(c.Values) > 0:
		r.bad = append(r.bad, ",", ")")
		r.punct("(")
		for i, v := range c.Values {
			if i > 0 {
				r.punct(",")
			}
			r.not(noValue)
			r.str(v, true)
			r.not(noMore)
		}
		r.punct(")")
		r.noMoreAttr(c, false)
	case c.Len != nil:
		r.punct("(")
		r.not(noNumber)
		r.num(*c.Len)
		r.not(noMore)
		if c.Dec != nil {
			r.punct(",")
			r.not(noNumber)
			r.num(*c.Dec)
			r.not(noMore, []string{","})
		}
		r.punct(")")
		r.noMoreAttr(c, false)
	}
	number := []string{"UNSIGNED", "ZEROFILL"}
	if c.Unsigned && c.Zerofill && r.wild(1, 3) {
		number = []string{"ZEROFILL", "UNSIGNED"}
	}
	for _, w := range number {
		if w == "UNSIGNED" && c.Unsigned || w == "ZEROFILL" && c.Zerofill {
			r.words(w)
			r.noMoreAttr(c, false)
		}
	}
	charset := func(s string) {
		r.not([]string{"5", "(", ")", ",", ";", "=", "NOT"})
		switch {
		case strings.EqualFold(s, "binary"):
			r.add(Word, s)
		case r.wild(1, 4):
			r.str(s, true)
		default:
			r.ident(s)
		}
	}
	cs := func() {
		if c.Charset != nil {
			r.words("CHARACTER SET")
			charset(*c.Charset)
		}
	}
	if c.Binary && c.Charset != nil && r.wild(1, 2) {
		cs()
		r.words("BINARY")
	} else {
		if c.Binary {
			r.words("BINARY")
		}
		cs()
	}
	var attrs []func()
	on := func(b bool, f func()) {
		if b {
			attrs = append(attrs, f)
		}
	}
	on(c.Collate != nil, func() { r.words("COLLATE"); charset(*c.Collate) })
	on(c.Null == ref.NullYes, func() { r.words("NULL"); r.noMoreAttr(c, false) })
	on(c.Null == ref.NullNot, func() { r.words("NOT NULL"); r.noMoreAttr(c, false) })
	on(c.Default != nil, func() { r.words("DEFAULT"); r.not(noDefault); r.defaultValue(c.Default); r.noMoreAttr(c, false) })
	on(c.AutoUpdate != nil, func() { r.words("ON UPDATE"); r.not(noUpdate); r.words(*c.AutoUpdate) })
	on(c.AutoInc, func() { r.words("AUTO_INCREMENT"); r.noMoreAttr(c, false) })
	on(c.Unique, func() {
		r.words("UNIQUE")
		if c.Key || r.wild(1, 2) {
			r.words("KEY")
		}
	})
	on(c.Primary, func() { r.words("PRIMARY KEY") })
	on(c.Key, func() { r.words("KEY") })
	on(c.Comment != nil, func() { r.words("COMMENT"); r.not(noValue); r.str(*c.Comment, false); r.noMoreAttr(c, false) })
	if r.st.Spelling {
		for _, i := range r.Perm(len(attrs)) {
			attrs[i]()
		}
		return
	}
	for _, f := range attrs {
		f()
	}
}

func (r *renderer) defaultValue(d *ref.Default) {
	switch {
	case d.Quoted:
		r.str(d.Val, true)
	case d.Val == "NOW()":
		r.words("NOW")
		r.punct("(")
		r.toks[len(r.toks)-1].Glue = true
		r.punct(")")
		r.toks[len(r.toks)-1].Glue = true
	case d.Val[0] >= 'A' && d.Val[0] <= 'Z':
		r.words(d.Val)
	default:
		r.num(d.Val)
	}
}

func (r *renderer) idxCols(l []ref.IdxCol) {
	r.punct("(")
	for i, c := range l {
		if i > 0 {
			r.punct(",")
		}
		r.not(noIdent)
		r.ident(c.Name)
		r.not(noMore[:4], []string{"=", ";", "NOT"})
		if c.Len != nil {
			r.punct("(")
			r.not(noNumber)
			r.num(*c.Len)
			r.not(noMore, []string{","})
			r.punct(")")
			r.not(noMore)
		}
		if c.Dir != "" {
			r.words(c.Dir)
			r.not(noMore)
		}
	}
	r.punct(")")
}

// noMoreAttr marks the place after an attribute.
func (r *renderer) noMoreAttr(c *ref.Col, first bool) {
	r.not(noAttr)
	if !unsignable[c.Type] {
		r.bad = append(r.bad, "UNSIGNED", "ZEROFILL")
	}
	if !textual[c.Type] {
		r.bad = append(r.bad, "BINARY")
	}
	if !first || !sizable[c.Type] {
		r.bad = append(r.bad, "(")
	}
}

var unsignable, textual, sizable = map[string]bool{}, map[string]bool{}, map[string]bool{}

func init() {
	for _, t := range Types {
		unsignable[t.name] = t.has('u')
		textual[t.name] = t.has('c')
		sizable[t.name] = t.has('c') || t.has('l') || t.has('d') || t.has('D') || t.has('v')
	}
}

func (r *renderer) index(x *ref.Index) {
	key := func(def string) {
		switch {
		case !r.st.Spelling:
			r.words(def)
		default:
			r.words(pbt.Pick(r.T, "KEY", "INDEX", ""))
		}
	}
	r.not(noIdent)
	if x.Symbol != nil {
		r.words("CONSTRAINT")
		r.not([]string{"5", "'x'", "(", ")", ",", ";", "=", "NOT", "INDEX", "KEY"})
		r.ident(*x.Symbol)
		r.not(noKey, []string{"x", "`x`"})
	} else if (x.Kind == ref.Primary || x.Kind == ref.Unique || x.Kind == ref.Foreign) && r.wild(1, 8) {
		r.words("CONSTRAINT")
		r.not(noKey)
	}
	before := r.wild(1, 2)
	switch x.Kind {
	case ref.Primary:
		r.words("PRIMARY KEY")
	case ref.Normal:
		if r.wild(1, 2) {
			r.words("KEY")
		} else {
			r.words("INDEX")
		}
	case ref.Unique:
		r.words("UNIQUE")
		key("KEY")
	case ref.Fulltext:
		r.words("FULLTEXT")
		key("INDEX")
	case ref.Spatial:
		r.words("SPATIAL")
		key("INDEX")
	case ref.Foreign:
		r.words("FOREIGN KEY")
	}
	if x.Name != nil {
		r.ident(*x.Name)
	}
	using := func() {
		if x.Using != "" {
			r.words("USING " + x.Using)
		}
	}
	if before {
		using()
	}
	if x.Name == nil && (x.Using == "" || !before) {
		r.not(noList)
	} else {
		r.not(noList, []string{"x", "`x`"})
	}
	r.idxCols(x.Cols)
	if !before {
		r.not(noMore)
		using()
	}
	r.not(noMore)
	if x.Parser != nil {
		r.words("WITH PARSER")
		r.not(noIdent)
		r.ident(*x.Parser)
		r.not(noMore)
	}
	if x.Ref != nil {
		r.reference(x.Ref)
	}
}

func (r *renderer) reference(f *ref.Ref) {
	r.words("REFERENCES")
	r.not(noIdent)
	r.ident(f.Table)
	r.not(noList, []string{"x", "`x`"})
	r.idxCols(f.Cols)
	r.not(noMore)
	if f.Match != "" {
		r.words("MATCH " + f.Match)
	}
	if f.OnDelete != "" {
		r.words("ON DELETE " + f.OnDelete)
	}
	if f.OnUpdate != "" {
		r.words("ON UPDATE " + f.OnUpdate)
	}
}

func (r *renderer) option(o ref.Opt, not []string) {
	key := o.Key
	if r.st.Spelling {
		switch key {
		case "DEFAULT CHARACTER SET":
			key = pbt.Pick(r.T, key, "DEFAULT CHARSET", "CHARACTER SET")
		case "DEFAULT COLLATE":
			key = pbt.Pick(r.T, key, "COLLATE")
		}
	}
	r.not(noOption, not)
	r.words(key)
	if !r.wild(1, 3) {
		r.punct("=")
	}
	switch {
	case o.Quoted:
		r.not(noValue)
	case o.Val != "" && o.Val[0] >= '0' && o.Val[0] <= '9':
		r.not([]string{"'x'", "(", ")", ",", ";", "NOT", "NULL"})
	default:
		r.not([]string{"(", ")", ",", ";", "NOT", "NULL"})
	}
	defer func() { r.toks[len(r.toks)-1].Value = true }()
	switch {
	case o.Quoted:
		r.str(o.Val, true)
	case !bareOption(o):
		r.add(Quoted, Backquote(o.Val))
	case o.Val[0] >= '0' && o.Val[0] <= '9':
		r.add(Number, o.Val)
	case o.Key != "ROW_FORMAT" && o.Key != "INSERT_METHOD" && CanBeBare(o.Val) && r.wild(1, 4):
		r.add(Quoted, Backquote(o.Val))
	default:
		r.add(Word, o.Val)
	}
}

func (r *renderer) createTable(t *ref.Table) {
	r.where = "head"
	if r.st.Spelling {
		r.kase = r.N(4)
	}
	r.words("CREATE")
	if t.Temp {
		r.words("TEMPORARY")
	}
	r.not(noWord)
	r.words("TABLE")
	if t.IfNotExists {
		r.words("IF NOT EXISTS")
	}
	r.not(noIdent, []string{"LIKE"})
	r.ident(t.Name)
	r.not(noList, []string{"x", "`x`"})
	if t.HasLike {
		r.words("LIKE")
		r.not(noIdent)
		r.ident(t.Like)
		r.not(noOption, []string{","})
		return
	}
	r.where = "body"
	r.punct("(")
	// keys can stand anywhere among the columns
	var slots [][]*ref.Index
	slots = make([][]*ref.Index, len(t.Cols)+1)
	at := len(t.Cols)
	if r.wild(1, 3) {
		at = 0
	}
	for i, x := range t.Idx {
		if at < len(t.Cols) {
			at += r.N(len(t.Cols) - at + 1)
			if i == 0 && r.Bool() {
				at = 0
			}
		}
		slots[at] = append(slots[at], x)
	}
	first := true
	comma := func() {
		if !first {
			r.punct(",")
		}
		first = false
	}
	for i := range slots {
		for _, x := range slots[i] {
			comma()
			r.index(x)
		}
		if i < len(t.Cols) {
			comma()
			r.column(t.Cols[i])
		}
	}
	r.punct(")")
	r.where = "tail"
	after := []string(nil)
	r.not(noOption)
	r.edge = true
	for i, o := range t.Opts {
		if i > 0 && !r.wild(1, 2) {
			r.punct(",")
			after = []string{";", ";", ";"}
		}
		r.option(o, after)
		after = nil
		r.not(noOption)
		r.edge = true
	}
}

// Ignored statements of the script.
func (r *renderer) ignored() {
	r.table, r.where = -1, "ignored"
	if r.st.Spelling {
		r.kase = r.N(4)
	}
	for n := r.Weighted(6, 2, 1); n > 0; n-- {
		switch r.N(8) {
		case 0:
			r.punct(";")
			continue
		case 1:
			r.words("CREATE DATABASE")
			if r.Bool() {
				r.words("IF NOT EXISTS")
			}
			r.ident(r.Ident())
		case 2:
			r.words("DROP TABLE IF EXISTS")
			r.ident(r.Ident())
			if r.Bool() {
				r.punct(",")
				r.ident(r.Ident())
			}
		case 3:
			r.words("DROP DATABASE")
			r.ident(r.Ident())
		case 4:
			r.words("USE")
			r.ident(r.Ident())
		case 5:
			r.words("SET")
			r.add(Raw, pbt.Pick(r.T, "NAMES", "@OLD_SQL_MODE", "@@SESSION.SQL_LOG_BIN", "sql_mode", "FOREIGN_KEY_CHECKS", "x.y"))
			r.punct("=")
			switch r.N(3) {
			case 0:
				r.str(r.Str(), true)
			case 1:
				r.num("0")
			case 2:
				r.add(Raw, pbt.Pick(r.T, "@OLD", "@@TIME_ZONE", "CREATE TABLE a (b INT)", "1 + 2", "[]{}?<>!^&|~%é", "NOW()", "CREATE", "a.b, c = 5 - 3"))
			}
		case 6:
			r.words(pbt.Pick(r.T, "SET", "USE", "DROP"))
			for n := r.N(6); n > 0; n-- {
				switch r.N(4) {
				case 0:
					r.ident(r.Ident())
				case 1:
					r.str(r.Str(), true)
				case 2:
					r.words(Keywords[r.N(len(Keywords))])
				case 3:
					r.add(Raw, pbt.Pick(r.T, "@", "(", ")", ",", ".", "=", "+", "*", "é", "]", "$x", "_utf8"))
				}
			}
		case 7:
			r.words("CREATE DATABASE")
			r.ident(r.Ident())
		}
		r.punct(";")
	}
}

// Render writes the schema.
func (g *G) Render(s *ref.Schema, st Style) *Text {
	r := &renderer{G: g, st: st}
	for i, t := range s.Tables {
		if st.Ignored {
			r.ignored()
		}
		r.table = i
		r.createTable(t)
		if i < len(s.Tables)-1 || !st.Spelling || g.Bool() {
			r.where = "end"
			r.punct(";")
		}
	}
	if st.Ignored {
		if n := len(r.toks); n > 0 && r.toks[n-1].Text != ";" {
			r.where = "end"
			r.punct(";")
		}
		r.ignored()
	}
	return g.layout(r.toks, st)
}

// RenderTable writes a single table without a semicolon.
func (g *G) RenderTable(t *ref.Table, st Style) *Text {
	r := &renderer{G: g, st: st}
	r.createTable(t)
	return g.layout(r.toks, st)
}

var blanks = []string{" ", "\n", "\t", "\r\n", "  ", "\n\n", " \n ", "\r", "\v", "\f"}

var commentParts = []string{"x", " ", "'", "\"", "`", ";", "(", ")", ",", "CREATE TABLE y (z INT);", "*", "/", "--", "#", "é", "\\", "/*", "DROP", "\t", "\x00", "\xff", "!", "COMMENT", "\r", "\v", "\f", "\u2028", "\x1a"}

// Separator returns white space and comments. If need is set, it is not empty.
func (g *G) Separator(need bool, st Style) string {
	if !st.Layout {
		if need {
			return " "
		}
		return ""
	}
	var b strings.Builder
	n := g.Weighted(12, 5, 2, 1)
	if need || n > 0 {
		n = max(n, 1)
	}
	if !need && n == 1 && g.Bool() {
		n = 0
	}
	if g.Chance(1, 3000) {
		// a lot of it
		if st.NoComment || g.Bool() {
			b.WriteString(strings.Repeat(blanks[g.N(len(blanks))], pbt.Pick(g.T, 1000, 5000, 20000)))
		} else {
			b.WriteString(strings.Repeat(pbt.Pick(g.T, "/**/", "#\n", "-- x\n", "/* x */\n", " # x\r\n"), pbt.Pick(g.T, 20, 40, 100, 300, 600)))
		}
	}
	for ; n > 0; n-- {
		k := 0
		if !st.NoComment {
			k = g.Weighted(20, 2, 1, 1, 1)
		}
		switch k {
		case 0:
			b.WriteString(blanks[g.N(len(blanks))])
		case 1, 4:
			c := strings.ReplaceAll(g.join(commentParts, 0, 4), "*/", "* /")
			if k == 4 {
				c = pbt.Pick(g.T, "!50100 ", "!40101 ", "!99999 ", "!80013", "!", "+", "M!", "M!100100 ") + c
			}
			if strings.HasSuffix(c, "*") && g.Bool() {
				c += "*"
			}
			b.WriteString("/*" + c + "*/")
		case 2:
			if g.Chance(1, 4) {
				b.WriteString("--" + pbt.Pick(g.T, "\n", "\r\n", "\t\n", " \n", " \r\n"))
			} else {
				b.WriteString("--" + pbt.Pick(g.T, " ", "\t", "", "\f") + g.lineComment(true) + pbt.Pick(g.T, "\n", "\r\n"))
			}
		case 3:
			b.WriteString("#" + g.lineComment(false) + pbt.Pick(g.T, "\n", "\r\n"))
		}
	}
	return b.String()
}

func (g *G) lineComment(dashes bool) string {
	c := g.join(commentParts, 0, 4)
	if dashes && c != "" {
		return " " + c
	}
	return c
}

func (g *G) layout(toks []Tok, st Style) *Text {
	var b strings.Builder
	out := &Text{Toks: toks}
	if st.Layout {
		b.WriteString(g.Separator(false, st))
	}
	for i := range toks {
		t := &toks[i]
		if i > 0 && !t.Glue {
			p := toks[i-1]
			need := p.wordlike() && t.wordlike() || p.Kind == Raw || t.Kind == Raw
			// '' and "" and `` in a row would be an escaped quote
			if p.Text[len(p.Text)-1] == t.Text[0] && strings.IndexByte("'\"`", t.Text[0]) >= 0 {
				need = true
			}
			switch {
			case st.Layout:
				b.WriteString(g.Separator(need, st))
			case p.Where == "end":
				b.WriteString("\n")
			case need || t.Kind != Punct && p.Text != "(":
				b.WriteString(" ")
			}
		}
		t.Start = b.Len()
		b.WriteString(t.Text)
		t.End = b.Len()
	}
	if st.Layout {
		b.WriteString(g.Separator(false, st))
		if !st.NoComment {
			b.WriteString([]string{"", "-- the end", "# the end", "--"}[g.Weighted(10, 1, 1, 1)])
		}
	}
	out.Src = b.String()
	return out
}

// Server writes the schema the way a MySQL server reports it.
func Server(s *ref.Schema) string {
	var b strings.Builder
	for i, t := range s.Tables {
		if i > 0 {
			b.WriteString("\n\n")
		}
		b.WriteString(ServerTable(t) + ";")
	}
	return b.String()
}

// ServerTable writes a table the way SHOW CREATE TABLE does.
func ServerTable(t *ref.Table) string {
	n := t.Normalize()
	var l []string
	for _, c := range n.Cols {
		l = append(l, serverCol(c))
	}
	for _, kind := range []string{ref.Primary, ref.Unique, ref.Spatial, ref.Normal, ref.Fulltext, ref.Foreign} {
		for _, x := range n.Idx {
			if x.Kind == kind {
				l = append(l, serverIdx(x))
			}
		}
	}
	s := "CREATE TABLE " + Backquote(n.Name) + " (\n  " + strings.Join(l, ",\n  ") + "\n)"
	for _, o := range n.Opts {
		k := o.Key
		if k == "DEFAULT CHARACTER SET" {
			k = "DEFAULT CHARSET"
		}
		if k == "DEFAULT COLLATE" {
			k = "COLLATE"
		}
		v := o.Val
		if o.Quoted {
			v = serverStr(o.Val)
		} else if !bareOption(o) {
			v = Backquote(o.Val)
		}
		s += " " + k + "=" + v
	}
	return s
}

func serverStr(s string) string {
	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `''`, "\n", `\n`, "\r", `\r`, "\x00", `\0`).Replace(s) + "'"
}

func serverCol(c *ref.Col) string {
	s := Backquote(c.Name) + " " + strings.ToLower(c.Type)
	switch {
	case len(c.Values) > 0:
		var l []string
		for _, v := range c.Values {
			l = append(l, serverStr(v))
		}
		s += "(" + strings.Join(l, ",") + ")"
	case c.Len != nil && c.Dec != nil:
		s += "(" + *c.Len + "," + *c.Dec + ")"
	case c.Len != nil:
		s += "(" + *c.Len + ")"
	}
	if c.Unsigned {
		s += " unsigned"
	}
	if c.Zerofill {
		s += " zerofill"
	}
	if c.Binary {
		s += " binary"
	}
	if c.Charset != nil {
		s += " CHARACTER SET " + *c.Charset
	}
	if c.Collate != nil {
		s += " COLLATE " + *c.Collate
	}
	if c.Null == ref.NullNot {
		s += " NOT NULL"
	} else if c.Type == "TIMESTAMP" {
		s += " NULL"
	}
	if c.Default != nil {
		v := c.Default.Val
		if c.Default.Quoted || ref.Numeric(c.Type) && v != "NULL" && v != "TRUE" && v != "FALSE" {
			v = serverStr(v)
		}
		s += " DEFAULT " + v
	}
	if c.AutoUpdate != nil {
		s += " ON UPDATE " + *c.AutoUpdate
	}
	if c.AutoInc {
		s += " AUTO_INCREMENT"
	}
	if c.Comment != nil {
		s += " COMMENT " + serverStr(*c.Comment)
	}
	return s
}

func serverCols(l []ref.IdxCol, dir bool) string {
	var s []string
	for _, c := range l {
		x := Backquote(c.Name)
		if c.Len != nil {
			x += "(" + *c.Len + ")"
		}
		if dir && c.Dir == "DESC" {
			x += " DESC"
		}
		s = append(s, x)
	}
	return "(" + strings.Join(s, ",") + ")"
}

func serverIdx(x *ref.Index) string {
	s := ""
	if x.Symbol != nil {
		s = "CONSTRAINT " + Backquote(*x.Symbol) + " "
	}
	s += map[string]string{ref.Primary: "PRIMARY KEY", ref.Unique: "UNIQUE KEY", ref.Normal: "KEY", ref.Fulltext: "FULLTEXT KEY",
		ref.Spatial: "SPATIAL KEY", ref.Foreign: "FOREIGN KEY"}[x.Kind]
	if x.Name != nil {
		s += " " + Backquote(*x.Name)
	}
	s += " " + serverCols(x.Cols, true)
	if x.Using != "" {
		s += " USING " + x.Using
	}
	if x.Parser != nil {
		s += " WITH PARSER " + Backquote(*x.Parser)
	}
	if f := x.Ref; f != nil {
		s += " REFERENCES " + Backquote(f.Table) + " " + serverCols(f.Cols, false)
		if f.Match != "" {
			s += " MATCH " + f.Match
		}
		if f.OnDelete != "" {
			s += " ON DELETE " + f.OnDelete
		}
		if f.OnUpdate != "" {
			s += " ON UPDATE " + f.OnUpdate
		}
	}
	return s
}
