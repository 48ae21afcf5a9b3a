package props

import (
	"bytes"
	"context"
	"io"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"

	"verifharness/gen"
	"verifharness/obs"
	"verifharness/pbt"
)

func init() {
	register(&Prop{
		ID:    "P01",
		Rule:  "the input is accepted with at least one table, or rejected behind its first token; distinct inputs are counted",
		Run:   p01,
		Quick: 240000, Thorough: 3000000,
		Leaks: true,
	})
}

var fragments = strings.Split("CREATE|TABLE|CREATE TABLE|`a`|a|b|(|)|,|;|'|\"|`|\\|''|INT|VARCHAR|(10)|(10,2)|(|DEFAULT|NULL|NOT NULL|PRIMARY KEY|KEY|UNIQUE|INDEX|FULLTEXT|SPATIAL|FOREIGN KEY|"+
	"CONSTRAINT|REFERENCES|ON DELETE|ON UPDATE|CASCADE|SET|SET NULL|NO ACTION|MATCH|FULL|USING|BTREE|HASH|WITH PARSER|ENUM|('a','b')|COMMENT|'x'|\"x\"|1|-1|1.5|1e5|-|--|-- |#|/*|*/|/*/|/|"+
	"ENGINE|=|InnoDB|CHARACTER SET|CHARSET|COLLATE|utf8|AUTO_INCREMENT|UNSIGNED|ZEROFILL|BINARY|TRUE|NOW|NOW()|CURRENT_TIMESTAMP|TEMPORARY|IF NOT EXISTS|LIKE|DATABASE|DROP|USE|"+
	"ASC|DESC|BOOL|DECIMAL|DOUBLE|TIMESTAMP|GEOMETRY|JSON|CHECK|UNION|TABLESPACE|DATA DIRECTORY|\x00|\xff|é|\u2028|@|$|_|.|+|*|~|\n|\r\n|\t| |\v|\ufeff|CREATE TABLE t (a INT);|CREATE TABLE t (a INT", "|")

// anyText returns a text that may or may not be a schema.
func anyText(c *C) string {
	switch c.Weighted(6, 3, 3, 1, 1, 2) {
	case 0: // a spoilt schema
		s := c.Schema(gen.Full)
		txt := c.Render(s, gen.Style{Layout: true, Spelling: true, Ignored: true})
		return spoil(c, txt)
	case 1: // fragments
		var b strings.Builder
		for n := c.Range(1, 40); n > 0; n-- {
			b.WriteString(fragments[c.N(len(fragments))])
			if c.Chance(2, 3) {
				b.WriteByte(' ')
			}
		}
		return b.String()
	case 2: // a table of fragments
		var b strings.Builder
		b.WriteString("CREATE TABLE t (")
		for n := c.Range(1, 25); n > 0; n-- {
			b.WriteString(fragments[c.N(len(fragments))])
			if c.Chance(4, 5) {
				b.WriteByte(' ')
			}
		}
		b.WriteString(pbt.Pick(c.T, "", ")", ");"))
		return b.String()
	case 3: // bytes
		b := make([]byte, c.Size(200))
		for i := range b {
			b[i] = byte(c.N(256))
		}
		return string(b)
	case 4: // a schema with a run of bytes somewhere, and maybe nothing after it
		s := c.Render(c.Schema(gen.Full), gen.Style{Layout: true, Spelling: true}).Src
		i := c.N(len(s) + 1)
		run := strings.Repeat(pbt.Pick(c.T, "", "'", "`", "/*", "#", "-- ", "(", "\\", "USE ")+string([]byte{pbt.Pick(c.T, byte(c.N(256)), 0x80, 0xbf, 0xff, ' ', '\n', 'x', '1')}), c.N(100))
		if c.Bool() {
			return s[:i] + pbt.Pick(c.T, "", "'", "`", "\"", "/*", "#", "-- ") + run
		}
		return s[:i] + run + s[i:]
	default: // something long
		f := fragments[c.N(len(fragments))]
		pre := pbt.Pick(c.T, "", "CREATE TABLE t (", "CREATE TABLE t (a INT DEFAULT '", "CREATE TABLE t (a INT", "/*", "SET ", "CREATE TABLE t (a ENUM(", "CREATE TABLE t (a INT) ")
		return pre + strings.Repeat(f, 1+c.N(3000))
	}
}

// pairOf returns two related schemas. Keys may use columns that are not there.
func pairOf(c *C) (string, string) {
	s := c.Schema(gen.Full)
	t := s.Clone()
	for n := c.Range(1, 5); n > 0 && len(t.Tables) > 0; n-- {
		x := t.Tables[c.N(len(t.Tables))]
		switch c.N(5) {
		case 0:
			if len(x.Cols) > 1 {
				i := c.N(len(x.Cols))
				x.Cols = append(x.Cols[:i:i], x.Cols[i+1:]...)
			}
		case 1:
			if len(x.Cols) > 0 {
				x.Cols[c.N(len(x.Cols))].Name = c.Ident()
			}
		case 2:
			if len(x.Idx) > 0 {
				i := c.N(len(x.Idx))
				x.Idx = append(x.Idx[:i:i], x.Idx[i+1:]...)
			}
		case 3:
			y := c.Table(gen.Full, s, map[string]bool{})
			x.Idx = append(x.Idx, y.Idx...)
		case 4:
			if y := t.Tables[c.N(len(t.Tables))]; len(y.Cols) > 0 {
				x.Cols = append(x.Cols, y.Cols[c.N(len(y.Cols))].Clone())
			}
		}
	}
	a, b := c.Render(s, gen.Style{}).Src, c.Render(t, gen.Style{}).Src
	if c.Bool() {
		a, b = b, a
	}
	return a, b
}

// spoil changes tokens or bytes of the text.
func spoil(c *C, txt *gen.Text) string {
	s := txt.Src
	for n := c.Weighted(1, 4, 2, 1); n > 0; n-- {
		if s == "" {
			return fragments[c.N(len(fragments))]
		}
		i := c.N(len(s) + 1)
		if len(txt.Toks) > 0 && c.Chance(2, 3) {
			t := txt.Toks[c.N(len(txt.Toks))]
			i = min(pbt.Pick(c.T, t.Start, t.End), len(s))
		}
		switch c.N(8) {
		case 0:
			s = s[:i]
		case 1:
			s = s[:i] + fragments[c.N(len(fragments))] + s[i:]
		case 2:
			s = s[:i] + " " + fragments[c.N(len(fragments))] + " " + s[i:]
		case 3:
			j := min(i+c.Range(1, 12), len(s))
			s = s[:i] + s[j:]
		case 4:
			j := min(i+c.Range(1, 40), len(s))
			s = s[:j] + s[i:]
		case 5:
			if i < len(s) {
				b := []byte(s)
				b[i] = byte(c.N(256))
				s = string(b)
			}
		case 6:
			s = s[i:]
		case 7:
			s, txt = shuffle(c, s, txt)
		}
	}
	return s
}

// shuffle removes, repeats, swaps or replaces whole tokens of an unspoilt text.
func shuffle(c *C, s string, txt *gen.Text) (string, *gen.Text) {
	if s != txt.Src || len(txt.Toks) < 2 {
		return s, txt
	}
	none := &gen.Text{}
	i := c.N(len(txt.Toks))
	a := txt.Toks[i]
	if c.Chance(1, 3) { // what is in a pair of parentheses, and the parentheses
		for k := 0; k < len(txt.Toks) && txt.Toks[i].Text != "("; k++ {
			i = (i + 1) % len(txt.Toks)
		}
		a = txt.Toks[i]
		depth := 0
		for _, t := range txt.Toks[i:] {
			switch t.Text {
			case "(":
				depth++
			case ")":
				depth--
			}
			if depth <= 0 {
				return s[:a.Start] + s[t.End:], none
			}
		}
		return s[:a.Start], none
	}
	j := c.N(len(txt.Toks))
	if c.Bool() {
		j = min(i+c.Range(1, 3), len(txt.Toks)-1)
	}
	if j < i {
		i, j = j, i
	}
	a, b := txt.Toks[i], txt.Toks[j]
	switch c.N(4) {
	case 0:
		return s[:a.Start] + " " + s[a.End:], none
	case 1:
		return s[:a.End] + " " + a.Text + " " + s[a.End:], none
	case 2:
		return s[:a.Start] + b.Text + s[a.End:], none
	}
	if a.End > b.Start {
		return s, txt
	}
	return s[:a.Start] + b.Text + s[a.End:b.Start] + a.Text + s[b.End:], none
}

// parse checks the outcome of parsing, and returns the statements or nil.
func parse(c *C, p *schemalex.Parser, src string) (model.Stmts, schemalex.ParseError) {
	stmts, err := p.ParseString(src)
	if err == nil {
		for i, s := range stmts {
			if s == nil {
				c.Failf("statement %d is nil", i)
			}
		}
		return stmts, nil
	}
	if len(stmts) > 0 {
		c.Failf("statements are returned along with an error: %s", err)
	}
	pe, ok := err.(schemalex.ParseError)
	if !ok {
		c.Failf("error is a %T, not a ParseError: %s", err, err)
	}
	if pe.Message() == "" || pe.Error() == "" {
		c.Failf("error without a message")
	}
	return nil, pe
}

// huge checks that a text with a very long token comes to an end.
func huge(c *C) {
	n := c.Range(1, 4) * pbt.Pick(c.T, 30000, 260000, 1050000)
	what := pbt.Pick(c.T, "1", "1", "0.1", "1e1", "-1", "-", " ", "\n", "x", "`x", "'x", "'''", "\"\\x", "/*x", "--x", "#", "é", "'é", "\x00", "(", "`é")
	long := strings.Repeat(what[len(what)-1:], n)
	if strings.HasSuffix(what, "é") {
		long = strings.Repeat("é", n)
	}
	src := pbt.Pick(c.T, "", "CREATE TABLE t (a INT(", "CREATE TABLE t (a INT DEFAULT ", "CREATE TABLE ", "CREATE TABLE t (a INT COMMENT ", "SET x = ", "CREATE TABLE t (a INT) AUTO_INCREMENT = ") +
		what + long + pbt.Pick(c.T, "", "", "'", "`", "\"", "*/", "\n", "1)") + pbt.Pick(c.T, "", ");", " INT);", " (a INT);")
	c.Note("length", itoa(len(src)))
	c.Note("input", Clip(src, 200))
	_, pe := parse(c, schemalex.New(), src)
	if pe != nil {
		c.Class("huge, rejected")
	} else {
		c.Class("huge, accepted")
	}
	err := lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(src)), io.Discard)
	if (err != nil) != (pe != nil) {
		c.Failf("parsing returns %v, linting %v", pe, err)
	}
	c.NonTrivial(Clip(src, 200) + itoa(len(src)))
}

func p01(c *C) {
	if c.Chance(1, 1000) {
		huge(c)
		return
	}
	src, other := "", ""
	if c.Chance(1, 8) {
		// two versions of a schema, not necessarily ones that make sense
		src, other = pairOf(c)
	} else {
		src = anyText(c)
		if c.Chance(1, 3) {
			other = anyText(c)
		}
	}
	c.Note("input", Clip(src, 3000))
	if other != "" {
		c.Note("other input", Clip(other, 3000))
	}
	p := schemalex.New()
	stmts, pe := parse(c, p, src)
	switch {
	case pe != nil:
		c.Class("rejected")
		if pe.Line() > 1 || pe.Col() > 10 {
			c.NonTrivial(src)
		}
	case len(stmts) > 0:
		c.Class("accepted")
		c.NonTrivial(src)
	default:
		c.Class("empty")
	}
	more, _ := parse(c, p, other)
	all := []model.Stmts{stmts, more}
	for _, a := range all {
		var buf bytes.Buffer
		format.SQL(&buf, a, format.WithIndent(" ", 2))
		for _, s := range a {
			format.SQL(&buf, s)
			if t, ok := s.(model.Table); ok {
				t.Normalize()
			}
		}
		obs.Dump(a)
		for _, b := range all {
			diff.Statements(io.Discard, a, b)
			diff.Statements(io.Discard, a, b, diff.WithTransaction(true))
		}
	}
	diff.Strings(io.Discard, src, other)
	var buf bytes.Buffer
	err := lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(src)), &buf)
	if (err != nil) != (pe != nil) {
		c.Failf("parsing returns %v, linting %v", pe, err)
	}
}
