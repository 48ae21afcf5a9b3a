package props

import (
	"bytes"
	"strconv"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/model"

	"verifharness/gen"
	"verifharness/obs"
	"verifharness/ref"
)

func itoa(n int) string { return strconv.Itoa(n) }

func init() {
	register(&Prop{
		ID:    "P05",
		Rule:  "a text was accepted with at least one table, formatted, parsed and formatted again; distinct texts are counted",
		Run:   p05,
		Quick: 120000, Thorough: 2500000,
		Known: func() []Finding { return []Finding{stmtsRunTogether()} },
	})
	register(&Prop{
		ID:    "P06",
		Rule:  "an object was formatted and the text read by the independent reader, or it could not be expressed; distinct objects are counted",
		Run:   p06,
		Quick: 240000, Thorough: 3000000,
	})
}

// stmtsRunTogether: a list of statements is formatted without anything between them.
func stmtsRunTogether() Finding {
	f := Finding{ID: "stmts-run-together", What: "format.SQL of a model.Stmts with two tables writes nothing between the statements"}
	stmts, err := schemalex.New().ParseString("CREATE TABLE a (x INT); CREATE TABLE b (x INT);")
	if err == nil {
		var buf bytes.Buffer
		if format.SQL(&buf, stmts) == nil {
			_, err = schemalex.New().ParseString(buf.String())
			f.Still = err != nil
		}
	}
	return f
}

func p05(c *C) {
	var src string
	var stmts model.Stmts
	if c.Chance(1, 3) {
		src = anyText(c)
		var err error
		if stmts, err = schemalex.New().ParseString(src); err != nil {
			return
		}
		c.Class("accepted by chance")
		c.Note("text", Clip(src, 4000))
	} else {
		s := c.Schema(gen.Full)
		src = c.Render(s, style(c)).Src
		c.Note("text", Clip(src, 4000))
		stmts = mustParse(c, "text", src)
		classes(c, s)
	}
	how, o, _, unit := indentations(c)
	c.Note("indentation", how)
	f1 := formatted(c, stmts, o...)
	c.Note("formatted", Clip(f1, 4000))
	if a, b := indented(formatted(c, stmts), unit), indented(f1, ""); a != b {
		c.Failf("the indentation is not what is requested:\n%s", firstLine(a, b))
	}
	list(c, stmts, o...)
	again := mustParse(c, "formatted text", f1)
	if a, b := obs.Dump(stmts), obs.Dump(again); a != b {
		c.Failf("the model of the formatted text differs:\n%s", firstLine(a, b))
	}
	if f2 := formatted(c, again, o...); f2 != f1 {
		c.Failf("formatted again it differs:\n%s", firstLine(f1, f2))
	}
	how, o = indentation(c)
	third := mustParse(c, "formatted text with another indentation", formatted(c, again, o...))
	if a, b := obs.Dump(stmts), obs.Dump(third); a != b {
		c.Note("indentation", how)
		c.Failf("the model of the formatted text differs:\n%s", firstLine(a, b))
	}
	if len(stmts) > 0 {
		c.NonTrivial(src)
	}
}

// sql formats an object.
func sql(c *C, v interface{}, o ...format.Option) string {
	var buf bytes.Buffer
	if err := format.SQL(&buf, v, o...); err != nil {
		c.Failf("formatting a %T: %s", v, err)
	}
	return buf.String()
}

func p06(c *C) {
	s := c.Schema(gen.Full)
	switch c.Weighted(3, 3, 4, 4, 3, 2, 3, 2) {
	case 0, 1: // tables, parsed or built
		var stmts model.Stmts
		if c.Bool() {
			stmts = built(s)
			c.Class("built tables")
		} else {
			stmts = mustParse(c, "text", c.Render(s, style(c)).Src)
			s = s.Normalize()
			c.Class("parsed tables")
		}
		how, o := indentation(c)
		for i, st := range stmts {
			text := sql(c, st, o...)
			c.Note("indentation "+how+", formatted", Clip(text, 4000))
			got, err := ref.ReadStmt(text)
			if err != nil {
				c.Failf("invalid SQL: %s", err)
			}
			if got.Kind != "CREATE TABLE" {
				c.Failf("it is a %s statement", got.Kind)
			}
			if d := ref.CompareTables(s.Tables[i], got.Table, ref.Exactly); d != "" {
				c.Failf("formatted SQL denotes something else: %s", d)
			}
			c.NonTrivial(text)
		}
	case 2: // a column
		col := c.Col(c.Ident())
		if c.Chance(1, 2) {
			col.Primary, col.Unique, col.Key, col.AutoInc = c.Chance(1, 3), c.Chance(1, 3), c.Chance(1, 3), c.Chance(1, 3)
		}
		_, o := indentation(c)
		text := sql(c, obs.BuildColumn(col), o...)
		c.Note("formatted", text)
		got, err := ref.ReadColumn(text)
		if err != nil {
			c.Failf("invalid SQL: %s", err)
		}
		if col.Primary {
			// KEY means PRIMARY KEY
			col.Key = false
		}
		if a, b := col.String(), got.String(); a != b {
			c.Failf("formatted SQL denotes something else:\n    want %s\n    got  %s", a, b)
		}
		c.Class("column")
		c.NonTrivial(text)
	case 3: // an index
		t, x := tableWithIndex(c, s)
		if x == nil {
			return
		}
		_, o := indentation(c)
		text := sql(c, obs.BuildIndex(x, "table#"+t.Name), o...)
		c.Note("formatted", text)
		got, err := ref.ReadIndex(text)
		if err != nil {
			c.Failf("invalid SQL: %s", err)
		}
		if a, b := x.String(), got.String(); a != b {
			c.Failf("formatted SQL denotes something else:\n    want %s\n    got  %s", a, b)
		}
		c.Class("index")
		c.NonTrivial(text)
	case 4: // a reference
		t := c.Table(gen.Migratable, s, map[string]bool{})
		r := c.Ref(s, t, c.Range(1, 3))
		for i := range r.Cols {
			if c.Chance(1, 6) {
				r.Cols[i].Len = ref.P(c.Uint())
			}
		}
		m := obs.BuildReference(r)
		text := sql(c, m)
		c.Note("formatted", text)
		got, err := ref.ReadReference(text)
		if err != nil {
			c.Failf("invalid SQL: %s", err)
		}
		want := &ref.Index{Ref: r}
		if a, b := want.String(), (&ref.Index{Ref: got}).String(); a != b {
			c.Failf("formatted SQL denotes something else:\n    want %s\n    got  %s", a, b)
		}
		c.Class("reference")
		c.NonTrivial(text)
	case 5: // an option, a database, a type
		switch c.N(3) {
		case 0:
			opt := c.Option(c.N(21))
			text := sql(c, obs.BuildOption(opt))
			c.Note("formatted", text)
			got, err := ref.ReadOption(text)
			if err != nil {
				c.Failf("invalid SQL: %s", err)
			}
			if a, b := opt.String(), got.String(); a != b {
				c.Failf("formatted SQL denotes something else:\n    want %s\n    got  %s", a, b)
			}
			c.Class("option")
			c.NonTrivial(text)
		case 1:
			name, not := c.Ident(), c.Bool()
			text := sql(c, model.NewDatabase(name).SetIfNotExists(not))
			c.Note("formatted", text)
			got, err := ref.ReadStmt(text)
			if err != nil {
				c.Failf("invalid SQL: %s", err)
			}
			if got.Kind != "CREATE DATABASE" || got.Name != name || got.IfNot != not {
				c.Failf("formatted SQL denotes something else")
			}
			c.Class("database")
			c.NonTrivial(text)
		case 2:
			ti := gen.Types[c.N(len(gen.Types))].Name()
			if text := sql(c, obs.Type(ti)); text != ti {
				c.Failf("type %s is written as %q", ti, text)
			}
			c.Class("type")
			c.NonTrivial(ti)
		}
	case 6: // what can not be expressed
		v, what := inexpressible(c, s)
		_, o := indentation(c)
		var buf bytes.Buffer
		if err := format.SQL(&buf, v, o...); err == nil {
			c.Note("formatted", buf.String())
			c.Failf("%s is formatted without an error", what)
		}
		if buf.Len() > 0 {
			c.Note("formatted", buf.String())
			c.Failf("%s is refused, but something is written", what)
		}
		c.Class("can not be expressed")
		c.NonTrivial(what)
	case 7: // the statements of a schema one by one are the same as the pieces of the table
		for _, t := range s.Tables {
			if t.HasLike {
				continue
			}
			m := obs.BuildTable(t)
			var b strings.Builder
			b.WriteString("CREATE TABLE " + gen.Backquote(t.Name) + " (")
			sep := ""
			for col := range m.Columns() {
				b.WriteString(sep + sql(c, col))
				sep = ","
			}
			for x := range m.Indexes() {
				b.WriteString(sep + sql(c, x))
				sep = ","
			}
			b.WriteString(")")
			sep = ""
			for o := range m.Options() {
				b.WriteString(sep + sql(c, o))
				sep = ","
			}
			c.Note("pieces", Clip(b.String(), 3000))
			got, err := ref.ReadStmt(b.String())
			if err != nil {
				c.Failf("invalid SQL: %s", err)
			}
			want := t.Clone()
			want.Temp, want.IfNotExists = false, false
			if d := ref.CompareTables(want, got.Table, ref.Exactly); d != "" {
				c.Failf("the pieces denote something else: %s", d)
			}
			c.NonTrivial(b.String())
		}
		c.Class("pieces")
	}
}

// tableWithIndex returns a table and a key for it.
func tableWithIndex(c *C, s *ref.Schema) (*ref.Table, *ref.Index) {
	t := c.Table(gen.Conf{MaxTables: 1, MaxCols: 6, MaxIdx: 0}, s, map[string]bool{})
	return t, c.Index(t, s, gen.Full)
}

// inexpressible returns an object that has no form in SQL.
func inexpressible(c *C, s *ref.Schema) (interface{}, string) {
	col := c.Col(c.Ident())
	t := c.Table(gen.Conf{MaxTables: 1, MaxCols: 4, MaxIdx: 2}, s, map[string]bool{})
	t.HasLike, t.Like = false, ""
	var piece interface{}
	what := ""
	var idx model.Index
	var mc model.TableColumn
	switch c.N(9) {
	case 0:
		mc = obs.BuildColumn(col)
		mc.SetType(pick(c, model.ColumnTypeInvalid, model.ColumnTypeMax, model.ColumnTypeMax+1, model.ColumnType(-1)))
		what = "a column with an invalid type"
	case 1:
		col.Values = nil
		mc = obs.BuildColumn(col)
		mc.SetType(model.ColumnTypeEnum)
		what = "an ENUM column without values"
	case 2:
		col.Values = nil
		mc = obs.BuildColumn(col)
		mc.SetType(model.ColumnTypeSet)
		what = "a SET column without values"
	case 3:
		idx = model.NewIndex(obs.Kind(pick(c, ref.Normal, ref.Primary, ref.Unique, ref.Fulltext, ref.Spatial, ref.Foreign)), "table#"+t.Name)
		if c.Bool() {
			idx.SetName("x")
		}
		what = "an index without columns"
	case 4:
		idx = model.NewIndex(pick(c, model.IndexKindInvalid, model.IndexKindForeignKey+1, model.IndexKind(-1)), "table#"+t.Name)
		idx.AddColumns(model.NewIndexColumn("a"))
		what = "an index of an invalid kind"
	case 5, 6:
		x := &ref.Index{Kind: ref.Foreign, Symbol: ref.P("s"), Cols: []ref.IdxCol{{Name: t.Cols[0].Name}}}
		idx = obs.BuildIndex(x, "table#"+t.Name)
		r := model.NewReference()
		r.SetTableName("b")
		what = "a reference without columns"
		if c.Bool() {
			what = "a reference with an unknown option"
			r.AddColumns(model.NewIndexColumn("a"))
			o := pick(c, model.ReferenceOptionNoAction+1, model.ReferenceOption(-1))
			if c.Bool() {
				r.SetOnDelete(o)
			} else {
				r.SetOnUpdate(o)
			}
		}
		idx.SetReference(r)
		if c.Chance(1, 3) {
			return r, what
		}
	case 7:
		m := model.NewTable(c.Ident())
		if c.Bool() {
			m.AddOption(model.NewTableOption("ENGINE", "InnoDB", false))
		}
		piece, what = m, "a table without columns"
	case 8:
		return pick[interface{}](c, nil, "CREATE TABLE a (b INT)", 5, struct{}{}, []byte("x"), error(nil)), "something that is not a model"
	}
	switch {
	case mc != nil:
		piece = mc
	case idx != nil:
		piece = idx
	}
	if c.Bool() {
		// as a part of a table
		m := obs.BuildTable(t)
		switch {
		case mc != nil:
			m.AddColumn(mc)
			piece = m
		case idx != nil:
			m.AddIndex(idx)
			piece = m
		}
		what += " in a table"
	}
	if st, ok := piece.(model.Stmt); ok && c.Chance(1, 3) {
		if _, ok := st.(model.Table); ok {
			return model.Stmts{st}, what + " in a list"
		}
	}
	return piece, what
}

func pick[X any](c *C, l ...X) X { return l[c.N(len(l))] }
