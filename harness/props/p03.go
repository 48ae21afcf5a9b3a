package props

import (
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/model"

	"verifharness/gen"
	"verifharness/obs"
	"verifharness/ref"
)

func init() {
	register(&Prop{
		ID:    "P03",
		Rule:  "a schema with at least one table was rendered, parsed, read back through the API and compared with what was declared; distinct texts are counted",
		Run:   p03,
		Quick: 150000, Thorough: 2500000,
	})
	register(&Prop{
		ID:    "P04",
		Rule:  "two different texts of a schema with at least one table were parsed and compared; distinct pairs are counted",
		Run:   p04,
		Quick: 120000, Thorough: 2000000,
	})
	register(&Prop{
		ID:    "P22",
		Rule:  "at least two scripts, with tables and ignored statements, were concatenated and parsed; distinct texts are counted",
		Run:   p22,
		Quick: 90000, Thorough: 1500000,
	})
}

// parseAny parses through one of the entry points.
func parseAny(c *C, src string) model.Stmts {
	p := schemalex.New()
	var stmts model.Stmts
	var err error
	switch c.Weighted(6, 6, 1) {
	case 0:
		stmts, err = p.ParseString(src)
	case 1:
		// a part of something larger
		buf := append([]byte(src), ", more"...)
		stmts, err = p.Parse(buf[:len(src)])
		if string(buf) != src+", more" {
			c.Failf("parsing changes the text, or what comes after it")
		}
	case 2:
		stmts, err = p.ParseFile(c.File(c.Dir(), "schema.sql", src))
	}
	if err != nil {
		c.Failf("a well-formed schema is refused: %s", err)
	}
	return stmts
}

// built makes statements through the API.
func built(s *ref.Schema) model.Stmts {
	var l model.Stmts
	for _, t := range s.Tables {
		l = append(l, obs.BuildTable(t))
	}
	return l
}

// classes counts what a schema consists of.
func classes(c *C, s *ref.Schema) {
	for _, t := range s.Tables {
		if t.HasLike {
			c.Class("table like")
		}
		for _, x := range t.Idx {
			c.Class("key " + strings.ToLower(x.Kind))
		}
		for _, col := range t.Cols {
			if len(col.Values) > 0 {
				c.Class("enum or set")
			}
			if col.Default != nil {
				c.Class("default")
			}
		}
		if len(t.Opts) > 0 {
			c.Class("table options")
		}
	}
}

func p03(c *C) {
	s := c.Schema(gen.Full)
	st := style(c)
	st.Ignored = c.Chance(1, 5)
	txt := c.Render(s, st)
	c.Note("text", Clip(txt.Src, 4000))
	stmts := parseAny(c, txt.Src)
	want := s.Normalize()
	if d := ref.Compare(want, schemaOf(c, stmts), ref.Exactly); d != "" {
		c.Failf("the parsed model differs from what is declared: %s", d)
	}
	if a, b := obs.Dump(built(want)), obs.Dump(stmts); a != b {
		c.Failf("the parsed model differs from the same model built through the API:\n%s", firstLine(a, b))
	}
	classes(c, s)
	if len(s.Tables) > 0 {
		c.NonTrivial(txt.Src)
	}
}

// firstLine describes the first line that differs.
func firstLine(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "(end)", "(end)"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return "    want " + Clip(x, 500) + "\n    got  " + Clip(y, 500)
		}
	}
	return ""
}

func p04(c *C) {
	s := c.Schema(gen.Full)
	st := gen.Style{Layout: c.Chance(4, 5), Spelling: c.Chance(4, 5), Ignored: c.Chance(1, 6), Synonyms: c.Chance(1, 2)}
	a := c.Render(s, gen.Style{Canonical: true}).Src
	if c.Chance(1, 3) {
		a = c.Render(s, gen.Wild).Src
	}
	b := c.Render(s, st).Src
	c.Note("one text", Clip(a, 3000))
	c.Note("another text", Clip(b, 3000))
	ma, mb := mustParse(c, "one text", a), mustParse(c, "another text", b)
	if x, y := obs.Dump(ma), obs.Dump(mb); x != y {
		c.Failf("the models differ:\n%s", firstLine(x, y))
	}
	_, o := indentation(c)
	if x, y := formatted(c, ma, o...), formatted(c, mb, o...); x != y {
		c.Failf("the formatted texts differ:\n%s", firstLine(x, y))
	}
	if len(s.Tables) > 0 && a != b {
		c.NonTrivial(a + "\n-- the other text:\n" + b)
	}
}

func p22(c *C) {
	var src strings.Builder
	want := &ref.Schema{}
	var dump strings.Builder
	p := schemalex.New()
	n, tables := 0, 0
	texts := 0
	c.Many(1, 5, func(int) {
		s := c.Schema(gen.Conf{MaxTables: 2, MaxCols: 4, MaxIdx: 2, Like: true, Temp: true, Opts: true, Unnamed: true})
		st := style(c)
		st.Ignored = c.Chance(3, 4)
		txt := c.Render(s, st)
		src.WriteString(txt.Src)
		// the text may end in a comment or without semicolon
		src.WriteString("\n;\n")
		want.Tables = append(want.Tables, s.Normalize().Tables...)
		alone, err := p.ParseString(txt.Src)
		if err != nil {
			c.Note("text", Clip(txt.Src, 4000))
			c.Failf("a well-formed script is refused: %s", err)
		}
		dump.WriteString(renumber(obs.Dump(alone), &n))
		texts++
		tables += len(s.Tables)
	})
	c.Note("text", Clip(src.String(), 4000))
	stmts, err := p.ParseString(src.String())
	if err != nil {
		c.Failf("the scripts are accepted one by one, but not together: %s", err)
	}
	if d := ref.Compare(want, schemaOf(c, stmts), ref.Exactly); d != "" {
		c.Failf("the schema of all scripts is not that of one after the other: %s", d)
	}
	if d := firstLine(dump.String(), obs.Dump(stmts)); d != "" {
		c.Failf("statements differ from what they are parsed to alone:\n%s", d)
	}
	if texts > 1 && tables > 0 {
		c.NonTrivial(src.String())
	}
}

// renumber continues the numbers of statements in a dump.
func renumber(dump string, n *int) string {
	var b strings.Builder
	for _, l := range strings.SplitAfter(dump, "\n") {
		if strings.HasPrefix(l, "stmt ") {
			f := strings.SplitN(l, " ", 3)
			l = "stmt " + itoa(*n) + " " + f[2]
			*n++
		}
		b.WriteString(l)
	}
	return b.String()
}
