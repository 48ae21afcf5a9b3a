package props

import (
	"bytes"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/model"

	"verifharness/gen"
	"verifharness/obs"
	"verifharness/pbt"
)

func init() {
	register(&Prop{
		ID:    "P23",
		Rule:  "a table was formatted with some indentation and compared, line by line, with its columns, keys and options formatted one by one; distinct tables and indentations are counted",
		Run:   p23,
		Quick: 80000, Thorough: 2000000,
	})
}

// formattedAs formats an object.
func formattedAs(c *C, what string, v interface{}, o ...format.Option) string {
	var buf bytes.Buffer
	if err := format.SQL(&buf, v, o...); err != nil {
		c.Failf("formatting %s fails: %s", what, err)
	}
	return buf.String()
}

// quoted writes a name.
func quoted(s string) string { return "`" + strings.ReplaceAll(s, "`", "``") + "`" }

func p23(c *C) {
	s := c.Schema(gen.Full)
	if len(s.Tables) == 0 {
		return
	}
	var m model.Stmts
	if c.Bool() {
		m = built(s)
		c.Class("built through the API")
	} else {
		src := c.Render(s, style(c)).Src
		var err error
		if m, err = schemalex.New().ParseString(src); err != nil {
			c.Failf("text is refused: %s\n%s", err, src)
		}
	}
	how, opts, _, unit := indentations(c)
	if c.Chance(1, 5) {
		// anything can be used
		x, n := pbt.Pick(c.T, "/* x */", "->", "\r\n", "\v", "`", "%s", "日", "\\"), c.Range(-1, 4)
		how, opts, unit = "special", []format.Option{format.WithIndent(x, n)}, strings.Repeat(x, max(n, 1))
		c.Class("special indentation")
	}
	if len(opts) > 0 && c.Chance(1, 6) {
		// the last one counts
		opts = append([]format.Option{format.WithIndent("ZZ", 3)}, opts...)
	}
	c.Note("indentation", how)
	for _, st := range m {
		t := st.(model.Table)
		c.Note("table", Clip(obs.Dump(model.Stmts{t}), 3000))
		got := formattedAs(c, "a table", t, opts...)
		head := "CREATE"
		if t.IsTemporary() {
			head += " TEMPORARY"
		}
		head += " TABLE"
		if t.IsIfNotExists() {
			head += " IF NOT EXISTS"
		}
		head += " " + quoted(t.Name())
		if t.HasLikeTable() {
			if want := head + " LIKE " + quoted(t.LikeTable()); got != want {
				c.Failf("the table is formatted as\n%s\nnot as\n%s", got, want)
			}
			continue
		}
		// every part by itself, which is not indented
		part := func(what string, v interface{}) string {
			p := formattedAs(c, what, v)
			if q := formattedAs(c, what, v, opts...); p != q {
				c.Failf("%s by itself is formatted in another way with the indentation:\n%s", what, firstLine(p, q))
			}
			return p
		}
		// the white space before a reference is of no interest
		var want, alt []string
		for x := range t.Columns() {
			p := unit + part("a column", x)
			want, alt = append(want, p), append(alt, p)
		}
		for x := range t.Indexes() {
			p := part("a key", x)
			q := p
			if r := x.Reference(); r != nil {
				rp := part("a reference", r)
				if !strings.HasSuffix(p, " "+rp) {
					c.Failf("the key does not end with its reference:\n%s\n%s", p, rp)
				}
				q = strings.TrimSuffix(p, rp) + unit + rp
			}
			want, alt = append(want, unit+p), append(alt, unit+q)
		}
		tail := "\n)"
		sep := " "
		for o := range t.Options() {
			tail += sep + part("an option", o)
			sep = ", "
		}
		w := head + " (\n" + strings.Join(want, ",\n") + tail
		a := head + " (\n" + strings.Join(alt, ",\n") + tail
		if got != w && got != a {
			d := firstLine(w, got)
			if a != w {
				d += "\nor\n" + firstLine(a, got)
			}
			c.Failf("the table is not one line per column and key, indented as requested:\n%s", d)
		}
		c.NonTrivial(how + "\n" + got)
	}
	if c.Chance(1, 10) {
		d := model.NewDatabase(c.Ident())
		p, q := formattedAs(c, "a database", d), formattedAs(c, "a database", d, opts...)
		if p != q {
			c.Failf("a database is formatted in another way with the indentation:\n%s", firstLine(p, q))
		}
	}
}
