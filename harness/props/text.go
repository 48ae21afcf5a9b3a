package props

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"

	"verifharness/gen"
	"verifharness/obs"
	"verifharness/pbt"
	"verifharness/ref"
)

// position is the line and column that an error at the given byte is reported
// at. The first line has columns from 1, all others from 0.
func position(s string, off int) (line, col int) {
	line, col = 1, 1
	for i := 0; i < off; {
		r, w := utf8.DecodeRuneInString(s[i:])
		if r == '\n' {
			line++
			col = 0
		} else {
			col++
		}
		i += w
	}
	return
}

// mustParse parses a text that has to be accepted.
func mustParse(c *C, what, src string) model.Stmts {
	stmts, err := schemalex.New().ParseString(src)
	if err != nil {
		c.Note(what, Clip(src, 4000))
		c.Failf("%s is refused: %s", what, err)
	}
	return stmts
}

// schemaOf reads the model.
func schemaOf(c *C, stmts model.Stmts) *ref.Schema {
	s, err := obs.Schema(stmts)
	if err != nil {
		c.Failf("%s", err)
	}
	return s
}

// formatted formats every statement, ended by a semicolon.
func formatted(c *C, stmts model.Stmts, opts ...format.Option) string {
	var buf bytes.Buffer
	for _, s := range stmts {
		if err := format.SQL(&buf, s, opts...); err != nil {
			c.Failf("formatting table %q: %s", s.(model.Table).Name(), err)
		}
		buf.WriteString(";\n")
	}
	return buf.String()
}

// list checks that a list of statements is formatted as its statements are.
func list(c *C, stmts model.Stmts, opts ...format.Option) {
	var buf bytes.Buffer
	if err := format.SQL(&buf, stmts, opts...); err != nil {
		c.Failf("formatting the list of statements: %s", err)
	}
	got := buf.String()
	sep := func() { got = strings.TrimLeft(got, " \t\r\n;") }
	for i, s := range stmts {
		sep()
		one := strings.TrimLeft(sql(c, s, opts...), " \t\r\n;")
		if !strings.HasPrefix(got, one) {
			c.Failf("statement %d is formatted differently in a list:\n%s", i, firstLine(one, got))
		}
		got = got[len(one):]
	}
	if sep(); got != "" {
		c.Failf("a list of statements ends with\n%s", got)
	}
}

// indentation returns a random one.
func indentation(c *C) (string, []format.Option) {
	how, o, _, _ := indentations(c)
	return how, o
}

// indentations returns the options for formatting and linting, and what is
// written before each member of a table with them.
func indentations(c *C) (how string, f []format.Option, l []lint.Option, unit string) {
	s, n := "", 0
	switch c.N(5) {
	case 0:
		return "none", nil, nil, ""
	case 1:
		s, n = " ", 2
	case 2:
		s, n = "\t", 1
	case 3:
		s, n = " ", 0
	case 4:
		s, n = []string{" ", "\t", "  ", "\n", " \t", "", "\t\t "}[c.N(7)], c.N(9)
		if c.Chance(1, 4) {
			n = pbt.Pick(c.T, 17, 33, 64, 100, 300)
		}
	}
	if c.Bool() {
		l = []lint.Option{lint.WithIndent(s, n)}
	} else {
		l = []lint.Option{format.WithIndent(s, n)}
	}
	return fmt.Sprintf("%q times %d", s, n), []format.Option{format.WithIndent(s, n)}, l, strings.Repeat(s, max(n, 1))
}

// indented inserts the text before each member of the tables in formatted SQL,
// and leaves out the white space before references, which is of no interest.
func indented(sql, unit string) string {
	var b strings.Builder
	depth := 0
	quote := byte(0)
	for i := 0; i < len(sql); i++ {
		ch := sql[i]
		if quote == 0 && strings.IndexByte(" \t\n", ch) >= 0 && strings.HasPrefix(strings.TrimLeft(sql[i:], " \t\n"), "REFERENCES ") {
			continue
		}
		b.WriteByte(ch)
		switch {
		case quote != 0:
			if ch == quote {
				quote = 0
			} else if ch == '\\' && quote != '`' && i+1 < len(sql) {
				i++
				b.WriteByte(sql[i])
			}
		case ch == '`' || ch == '\'' || ch == '"':
			quote = ch
		case ch == '(':
			depth++
		case ch == ')':
			depth--
		case ch == '\n' && depth > 0 && i+1 < len(sql) && sql[i+1] != ')':
			b.WriteString(unit)
		}
	}
	return b.String()
}

// style returns a random style.
func style(c *C) gen.Style {
	return gen.Style{
		Layout:   c.Chance(2, 3),
		Spelling: c.Chance(3, 4),
	}
}

// stmtSpan is where a statement begins and ends among the tokens.
type stmtSpan struct{ from, to int }

// statements splits the tokens at semicolons.
func statements(toks []gen.Tok) []stmtSpan {
	var l []stmtSpan
	from := 0
	for i, t := range toks {
		if t.Text == ";" && t.Kind == gen.Punct {
			l = append(l, stmtSpan{from, i})
			from = i + 1
		}
	}
	return append(l, stmtSpan{from, len(toks)})
}

// comment is the extent of a comment.
type comment struct {
	from, to int
	c        bool // of the kind that has to be closed
}

// comments finds the comments between the tokens.
func comments(txt *gen.Text) []comment {
	var l []comment
	scan := func(from, to int) {
		s := txt.Src
		for i := from; i < to; {
			switch {
			case strings.HasPrefix(s[i:], "/*"):
				j := strings.Index(s[i+2:], "*/") + i + 4
				l = append(l, comment{i, j, true})
				i = j
			case s[i] == '#' || strings.HasPrefix(s[i:], "--"):
				j := strings.IndexByte(s[i:], '\n') + i + 1
				if j <= i {
					j = len(s)
				}
				l = append(l, comment{i, j, false})
				i = j
			default:
				i++
			}
		}
	}
	at := 0
	for _, t := range txt.Toks {
		scan(at, t.Start)
		at = t.End
	}
	scan(at, len(txt.Src))
	return l
}

func formatTo(dst io.Writer, v interface{}, o []format.Option) error { return format.SQL(dst, v, o...) }
