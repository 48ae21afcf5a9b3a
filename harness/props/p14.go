package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/schemalex/schemalex/model"

	"verifharness/gen"
	"verifharness/obs"
	"verifharness/pbt"
	"verifharness/ref"
)

func init() {
	register(&Prop{
		ID:    "P14",
		Rule:  "a column or table was normalized; distinct definitions are counted",
		Run:   p14,
		Quick: 300000, Thorough: 6000000,
	})
}

// anyCol returns a column as it can be built through the API: properties are
// not bound to types.
func anyCol(c *C, name string) *ref.Col {
	col := c.Col(name)
	if c.Chance(1, 2) {
		return col
	}
	if c.Chance(1, 3) {
		v := col.Values
		col.Type = gen.Types[c.N(len(gen.Types))].Name()
		col.Values = v
	}
	if c.Chance(1, 3) {
		col.Len, col.Dec = nil, nil
		if c.Bool() {
			col.Len = ref.P(c.Uint())
			if c.Bool() {
				col.Dec = ref.P(c.Uint())
			}
		}
	}
	flip := func(b *bool) {
		if c.Chance(1, 5) {
			*b = !*b
		}
	}
	flip(&col.Unsigned)
	flip(&col.Zerofill)
	flip(&col.Binary)
	flip(&col.AutoInc)
	flip(&col.Unique)
	flip(&col.Primary)
	flip(&col.Key)
	str := func(p **string) {
		if c.Chance(1, 6) {
			*p = ref.P(c.Str())
		}
	}
	str(&col.Charset)
	str(&col.Collate)
	str(&col.AutoUpdate)
	str(&col.Comment)
	if c.Chance(1, 3) {
		col.Null = c.N(3)
	}
	if c.Chance(1, 3) {
		col.Default = &ref.Default{Quoted: c.Bool()}
		switch c.N(3) {
		case 0:
			col.Default.Val = c.Number()
		case 1:
			col.Default.Val = pbt.Pick(c.T, "TRUE", "FALSE", "NULL", "", "true", "1", "CURRENT_TIMESTAMP", "1e5", "-1.5", " 1", "1 ", "0x10")
		case 2:
			col.Default.Val = c.Str()
		}
	}
	return col
}

func dumpCol(col model.TableColumn) string {
	return fmt.Sprintf("%s id=%q table=%q", obs.Column(col), col.ID(), col.TableID())
}

// spoilCol changes everything about a column.
func spoilCol(col model.TableColumn) {
	col.SetTableID("table#spoilt").SetType(model.ColumnTypeJSON).SetLength(model.NewLength("77")).SetCharacterSet("spoilt").
		SetCollation("spoilt").SetDefault("spoilt", !col.IsQuotedDefault()).SetComment("spoilt").SetAutoUpdate("spoilt").
		SetEnumValues([]string{"spoilt"}).SetSetValues([]string{"spoilt"}).SetNullState(model.NullStateNull).
		SetAutoIncrement(!col.IsAutoIncrement()).SetBinary(!col.IsBinary()).SetKey(!col.IsKey()).SetPrimary(!col.IsPrimary()).
		SetUnique(!col.IsUnique()).SetUnsigned(!col.IsUnsigned()).SetZeroFill(!col.IsZeroFill())
}

func p14(c *C) {
	switch c.Weighted(5, 4, 2, 2) {
	case 0:
		p14col(c)
	case 1:
		p14table(c)
	case 2:
		p14parsed(c)
	case 3:
		p14same(c)
	}
}

func p14col(c *C) {
	col := anyCol(c, c.Ident())
	c.Class("column")
	c.Class(col.Type)
	c.Note("column", col.String())
	c.NonTrivial(col.String())
	m := obs.BuildColumn(col)
	if c.Bool() {
		m.SetTableID("table#" + c.Ident())
	}
	before := dumpCol(m)

	nl, nd := col.Native()
	got := &ref.Col{}
	if l := m.NativeLength(); l != nil {
		got.Len = ref.P(l.Length())
		if l.HasDecimal() {
			got.Dec = ref.P(l.Decimal())
		}
	}
	if a, b := (&ref.Col{Len: nl, Dec: nd}).String(), got.String(); a != b {
		c.Failf("the implied length is wrong:\nexpected %s\ngot      %s", a, b)
	}
	if s := dumpCol(m); s != before {
		c.Failf("asking for the implied length changes the column:\n%s", firstLine(before, s))
	}

	want := col.Normalize()
	n, modified := m.Normalize()
	if s := dumpCol(m); s != before {
		c.Failf("normalizing changes the column:\n%s", firstLine(before, s))
	}
	if a, b := want.String(), obs.Column(n).String(); a != b {
		c.Failf("the normalized column is not what is expected:\nexpected %s\ngot      %s", a, b)
	}
	if n.TableID() != m.TableID() || n.ID() != m.ID() {
		c.Failf("the normalized column is %s, not %s", dumpCol(n), before)
	}
	if changes := want.String() != col.String(); changes != modified {
		c.Failf("normalizing returns modified = %v, but whether it changes the column is %v", modified, changes)
	}
	if !modified && n != m {
		c.Failf("the column is not modified, but another one is returned")
	}
	if modified {
		c.Class("modified")
	}
	after := dumpCol(n)
	if n2, again := n.Normalize(); again || n2 != n {
		c.Failf("normalizing again returns modified = %v:\n%s", again, firstLine(after, dumpCol(n2)))
	}
	if n3, _ := m.Normalize(); dumpCol(n3) != after {
		c.Failf("normalizing the same column again gives something else:\n%s", firstLine(after, dumpCol(n3)))
	}
	if modified {
		if c.Bool() {
			spoilCol(n)
			if s := dumpCol(m); s != before {
				c.Failf("changing the normalized column changes the original:\n%s", firstLine(before, s))
			}
		} else {
			spoilCol(m)
			if s := dumpCol(n); s != after {
				c.Failf("changing the original changes the normalized column:\n%s", firstLine(after, s))
			}
		}
	}
}

func dumpTable(t model.Table) string {
	var b strings.Builder
	obs.DumpTable(&b, t)
	return b.String()
}

// anyTable returns a table as it can be built through the API.
func anyTable(c *C) *ref.Table {
	s := &ref.Schema{}
	t := c.Table(gen.Conf{MaxTables: 1, MaxCols: 8, MaxIdx: 5, Temp: true, Opts: true, Like: true, Unnamed: true, OddIdx: true}, s, map[string]bool{})
	if t.HasLike && len(t.Cols) == 0 {
		if c.Bool() {
			return t
		}
		// both is possible through the API
		u := c.Table(gen.Conf{MaxTables: 1, MaxCols: 8, MaxIdx: 5, Temp: true, Opts: true, Unnamed: true, OddIdx: true}, s, map[string]bool{})
		u.HasLike, u.Like = true, t.Like
		t = u
		c.Class("like with columns")
	}
	used := map[string]bool{}
	for i, col := range t.Cols {
		for used[col.Name] {
			col.Name += "x"
		}
		used[col.Name] = true
		if c.Chance(1, 3) {
			t.Cols[i] = anyCol(c, col.Name)
		}
	}
	for _, x := range t.Idx {
		// keys of the same name
		if c.Chance(1, 8) && x.Kind != ref.Foreign {
			x.Name = ref.P(t.Cols[c.N(len(t.Cols))].Name)
		}
		if c.Chance(1, 8) {
			y := t.Idx[c.N(len(t.Idx))]
			if x.Kind == ref.Foreign && x.Symbol != nil && y.Name != nil && *y.Name != "" {
				x.Symbol = ref.P(*y.Name)
			}
		}
		if c.Chance(1, 10) {
			x.Using = pbt.Pick(c.T, "", "BTREE", "HASH")
		}
	}
	return t
}

func p14table(c *C) {
	t := anyTable(c)
	c.Class("table")
	c.Note("table", t.String())
	c.NonTrivial(t.String())
	m := obs.BuildTable(t)
	before := dumpTable(m)
	want := t.Normalize()
	n, modified := m.Normalize()
	if s := dumpTable(m); s != before {
		c.Failf("normalizing changes the table:\n%s", firstLine(before, s))
	}
	if a, b := want.String(), obs.Table(n).String(); a != b {
		c.Failf("the normalized table is not what is expected:\n%s", firstLine(a, b))
	}
	after := dumpTable(n)
	if s := dumpTable(obs.BuildTable(want)); s != after {
		c.Failf("the normalized table is not like one that is built that way:\n%s", firstLine(s, after))
	}
	if changes := want.String() != t.String(); changes != modified {
		c.Failf("normalizing returns modified = %v, but whether it changes the table is %v", modified, changes)
	}
	if !modified && n != m {
		c.Failf("the table is not modified, but another one is returned")
	}
	if modified {
		c.Class("modified")
	}
	if n2, again := n.Normalize(); again || n2 != n {
		c.Failf("normalizing again returns modified = %v:\n%s", again, firstLine(after, dumpTable(n2)))
	}
	if n3, _ := m.Normalize(); dumpTable(n3) != after {
		c.Failf("normalizing the same table again gives something else:\n%s", firstLine(after, dumpTable(n3)))
	}
	if modified {
		if c.Bool() {
			spoilTable(n)
			if s := dumpTable(m); s != before {
				c.Failf("changing the normalized table changes the original:\n%s", firstLine(before, s))
			}
		} else {
			spoilTable(m)
			if s := dumpTable(n); s != after {
				c.Failf("changing the original changes the normalized table:\n%s", firstLine(after, s))
			}
		}
	}
}

// spoilTable changes everything about a table but its keys.
func spoilTable(t model.Table) {
	t.SetIfNotExists(!t.IsIfNotExists()).SetTemporary(!t.IsTemporary()).SetLikeTable("spoilt")
	for col := range t.Columns() {
		spoilCol(col)
	}
	t.AddColumn(model.NewTableColumn("spoilt")).AddIndex(model.NewIndex(model.IndexKindNormal, "spoilt")).
		AddOption(model.NewTableOption("spoilt", "spoilt", true))
}

// p14parsed: the parser returns normalized tables.
func p14parsed(c *C) {
	s := c.Schema(gen.Full)
	src := c.Render(s, style(c)).Src
	c.Class("parsed")
	c.Note("text", Clip(src, 4000))
	c.NonTrivial(src)
	stmts := mustParse(c, "the text", src)
	before := obs.Dump(stmts)
	for _, st := range stmts {
		t := st.(model.Table)
		if n, modified := t.Normalize(); modified || n != t {
			c.Failf("table %q is not normalized by the parser:\n%s", t.Name(), firstLine(dumpTable(t), dumpTable(n)))
		}
		for col := range t.Columns() {
			if n, modified := col.Normalize(); modified || n != col {
				c.Failf("column %q is not normalized by the parser:\n%s", col.Name(), firstLine(dumpCol(col), dumpCol(n)))
			}
		}
		for x := range t.Indexes() {
			if n, modified := x.Normalize(); modified || n != x {
				c.Failf("key %s is changed by normalization", obs.Index(x))
			}
		}
	}
	if s := obs.Dump(stmts); s != before {
		c.Failf("normalizing changes the schema:\n%s", firstLine(before, s))
	}
}

// p14same: equivalent tables have the same normalized form, apart from the
// order of their keys.
func p14same(c *C) {
	s := c.Schema(gen.Full)
	e := c.Equivalent(s)
	c.Class("equivalent")
	c.Note("schema", s.String())
	c.Note("equivalent", e.String())
	if a, b := s.String(), e.String(); a != b {
		c.NonTrivial(a + b)
	}
	canon := func(t *ref.Table) string {
		n, _ := obs.BuildTable(t).Normalize()
		l := []string{}
		o := obs.Table(n)
		for _, x := range o.Idx {
			l = append(l, x.Sig())
		}
		sort.Strings(l)
		o.Idx, o.Opts = nil, nil
		return o.String() + strings.Join(l, "\n")
	}
	for _, t := range s.Tables {
		u := e.Table(t.Name)
		if u == nil {
			continue
		}
		x := *u
		x.Temp, x.IfNotExists = t.Temp, t.IfNotExists
		if a, b := canon(t), canon(&x); a != b {
			c.Failf("two tables that mean the same are normalized differently:\n%s", firstLine(a, b))
		}
	}
}
