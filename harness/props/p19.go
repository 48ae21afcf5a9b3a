package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/schemalex/schemalex/model"

	"verifharness/gen"
	"verifharness/obs"
	"verifharness/pbt"
	"verifharness/ref"
)

func init() {
	register(&Prop{
		ID:    "P19",
		Rule:  "the ids of two definitions were compared; distinct pairs are counted",
		Run:   p19,
		Quick: 500000, Thorough: 8000000,
	})
}

// twist changes a name a little.
func twist(c *C, s string) string {
	switch c.N(9) {
	case 0:
		return s + "x"
	case 1:
		if s != "" {
			return s[:len(s)-1]
		}
		return " "
	case 2:
		if u := strings.ToUpper(s); u != s {
			return u
		}
		return strings.ToLower(s)
	case 3:
		return s + pbt.Pick(c.T, " ", ".", "`", "#", "\"", "'", "\x00", "(", ")", "-", "\\", "=", ",")
	case 4:
		return pbt.Pick(c.T, " ", ".", "`", "#", "\"", "table#", "none", "-") + s
	case 5:
		return fmt.Sprintf("%q", s)
	case 6:
		b := []byte(s)
		if len(b) > 1 {
			i := c.N(len(b) - 1)
			b[i], b[i+1] = b[i+1], b[i]
		}
		return string(b)
	case 7:
		return s + s
	}
	return c.Ident()
}

// thing is a definition of a key along with what is not part of ref.Index.
type thing struct {
	x     *ref.Index
	table string
	opts  []optRec
}

func (t *thing) sig() string { return fmt.Sprintf("%q %q %s", t.table, t.opts, t.x.Sig()) }

func (o optRec) String() string { return fmt.Sprintf("%q=%q(%v)", o.key, o.val, o.quoted) }

func (t *thing) build() model.Index {
	m := obs.BuildIndex(t.x, t.table)
	for _, o := range t.opts {
		m.AddOption(model.NewIndexOption(o.key, o.val, o.quoted))
	}
	return m
}

func (t *thing) clone() *thing {
	return &thing{x: t.x.Clone(), table: t.table, opts: append([]optRec(nil), t.opts...)}
}

// edit changes a part of the definition, or moves text from one part to another.
func (t *thing) edit(c *C) {
	x := t.x
	name := func(p *string) {
		if p != nil {
			*p = twist(c, *p)
		}
	}
	opt := func(p **string) {
		switch {
		case *p == nil:
			*p = ref.P(pbt.Pick(c.T, c.Ident(), "none", "", "-", "<nil>", "\"\""))
		case c.Chance(1, 3):
			*p = nil
		default:
			name(*p)
		}
	}
	cols := func(l *[]ref.IdxCol, dir bool) {
		if len(*l) == 0 {
			*l = append(*l, ref.IdxCol{Name: c.Ident()})
			return
		}
		i := c.N(len(*l))
		y := &(*l)[i]
		switch c.N(10) {
		case 0:
			name(&y.Name)
		case 1:
			if y.Len == nil {
				y.Len = ref.P(c.Uint())
			} else {
				y.Len = nil
			}
		case 2:
			y.Len = ref.P(c.Uint())
		case 3:
			if dir {
				y.Dir = pbt.Pick(c.T, "DESC", "ASC", "")
			}
		case 4:
			*l = append(*l, ref.IdxCol{Name: c.Ident()})
		case 5:
			*l = append((*l)[:i:i], (*l)[i+1:]...)
		case 6:
			// two columns become one whose name looks like them
			if i+1 < len(*l) {
				y.Name += pbt.Pick(c.T, ".", "`.`", "\".\"", ",", "", "-", ")", "#") + (*l)[i+1].Name
				*l = append((*l)[:i+1:i+1], (*l)[i+2:]...)
			}
		case 7:
			if i+1 < len(*l) {
				(*l)[i], (*l)[i+1] = (*l)[i+1], (*l)[i]
			}
		case 8:
			// the length or the direction becomes a part of the name
			if y.Len != nil {
				y.Name += pbt.Pick(c.T, "("+*y.Len+")", "-"+*y.Len, *y.Len)
				y.Len = nil
			} else if y.Dir != "" {
				y.Name, y.Dir = y.Name+" "+y.Dir, ""
			}
		case 9:
			*l = append(*l, (*l)[i])
		}
	}
	switch c.N(14) {
	case 0:
		name(&t.table)
	case 1:
		x.Kind = pbt.Pick(c.T, ref.Normal, ref.Primary, ref.Unique, ref.Fulltext, ref.Spatial, ref.Foreign)
	case 2:
		opt(&x.Name)
	case 3:
		opt(&x.Symbol)
	case 4:
		x.Using = pbt.Pick(c.T, "BTREE", "HASH", "")
	case 5, 6, 7:
		cols(&x.Cols, true)
	case 8:
		x.Name, x.Symbol = x.Symbol, x.Name
	case 9:
		if len(t.opts) > 0 && c.Bool() {
			o := &t.opts[c.N(len(t.opts))]
			switch c.N(4) {
			case 0:
				o.key = twist(c, o.key)
			case 1:
				o.val = twist(c, o.val)
			case 2:
				o.key, o.val = o.key+"="+o.val, ""
			case 3:
				t.opts = t.opts[:len(t.opts)-1]
			}
		} else {
			t.opts = append(t.opts, optRec{c.Ident(), c.Str(), false})
		}
	default:
		if x.Ref == nil {
			x.Ref = &ref.Ref{Table: c.Ident(), Cols: []ref.IdxCol{{Name: c.Ident()}}}
			return
		}
		r := x.Ref
		switch c.N(8) {
		case 0:
			name(&r.Table)
		case 1, 2:
			cols(&r.Cols, true)
		case 3:
			r.Match = pbt.Pick(c.T, "FULL", "PARTIAL", "SIMPLE", "")
		case 4:
			r.OnDelete = pbt.Pick(c.T, "CASCADE", "RESTRICT", "SET NULL", "NO ACTION", "")
		case 5:
			r.OnUpdate = pbt.Pick(c.T, "CASCADE", "RESTRICT", "SET NULL", "NO ACTION", "")
		case 6:
			r.OnDelete, r.OnUpdate = r.OnUpdate, r.OnDelete
		case 7:
			// from one list of columns to the other
			if c.Bool() && len(r.Cols) > 0 {
				x.Cols = append(x.Cols, r.Cols[0])
				r.Cols = r.Cols[1:]
			} else if c.Bool() {
				x.Ref = nil
			} else {
				x.Cols, r.Cols = r.Cols, x.Cols
			}
		}
	}
}

func p19(c *C) {
	if c.Chance(1, 40000) {
		p19many(c)
		return
	}
	switch c.Weighted(6, 2, 2) {
	case 0:
		p19keys(c)
	case 1:
		p19names(c)
	case 2:
		p19parsed(c)
	}
}

func p19keys(c *C) {
	a := &thing{table: "table#" + c.Ident()}
	_, x := tableWithIndex(c, &ref.Schema{})
	if x == nil {
		return
	}
	a.x = x
	if c.Chance(1, 5) {
		a.opts = append(a.opts, optRec{c.Ident(), c.Str(), false})
	}
	b := a.clone()
	for n := c.Weighted(2, 6, 2, 1); n > 0; n-- {
		b.edit(c)
	}
	c.Note("first", a.sig())
	c.Note("second", b.sig())
	c.NonTrivial(a.sig() + "\n" + b.sig())
	ma, mb := a.build(), b.build()
	same := a.sig() == b.sig()
	if (ma.ID() == mb.ID()) != same {
		c.Failf("two keys are the same: %v, but their ids are\n%s\n%s", same, ma.ID(), mb.ID())
	}
	if same {
		c.Class("same keys")
	} else {
		c.Class("different keys")
	}
	if id := ma.ID(); id != a.build().ID() || id != ma.Clone().ID() {
		c.Failf("a key and its clone do not have the same id: %s %s %s", id, a.build().ID(), ma.Clone().ID())
	}
	if a.x.Ref != nil && b.x.Ref != nil {
		same := (&ref.Index{Ref: a.x.Ref}).Sig() == (&ref.Index{Ref: b.x.Ref}).Sig()
		if i, j := ma.Reference().ID(), mb.Reference().ID(); (i == j) != same {
			c.Failf("two references are the same: %v, but their ids are\n%s\n%s", same, i, j)
		}
		c.Class("references")
	}
	// looking them up
	t := model.NewTable("t")
	var l []model.Index
	for i, n := 0, c.Range(1, 4); i < n; i++ {
		y := a.clone()
		for ; i > 0 && c.Chance(3, 4); y.edit(c) {
		}
		l = append(l, y.build())
	}
	for _, i := range c.Perm(len(l)) {
		t.AddIndex(l[i])
	}
	has := false
	for _, y := range l {
		has = has || y.ID() == mb.ID()
		z, ok := t.LookupIndex(y.ID())
		if !ok || z.ID() != y.ID() {
			c.Failf("index %s is not found", y.ID())
		}
	}
	z, ok := t.LookupIndex(mb.ID())
	if ok != has || ok && obs.Index(z).Sig() != obs.Index(mb).Sig() {
		c.Failf("looking for %s: %v, but expected %v", mb.ID(), ok, has)
	}
}

// p19many: a lot of keys that differ in one part. The ids of some of them are
// equal if they do not tell much about the keys.
func p19many(c *C) {
	a := &thing{table: "table#" + c.Ident()}
	_, x := tableWithIndex(c, &ref.Schema{})
	if x == nil {
		return
	}
	a.x = x
	if c.Chance(1, 4) {
		x.Name = nil
	}
	parts := []struct {
		name string
		set  func(s string)
	}{
		{"the name of a column", func(s string) { x.Cols[len(x.Cols)-1].Name = s }},
		{"the length of a column", func(s string) { x.Cols[0].Len = &s }},
		{"the name of the table", func(s string) { a.table = "table#" + s }},
		{"the symbol", func(s string) { x.Symbol = &s }},
		{"the name", func(s string) { x.Name = &s }},
		{"an option", func(s string) { a.opts = []optRec{{"WITH PARSER", s, true}} }},
	}
	if x.Ref != nil {
		parts = append(parts, []struct {
			name string
			set  func(s string)
		}{
			{"the name of the other table", func(s string) { x.Ref.Table = s }},
			{"the name of a column of the other table", func(s string) { x.Ref.Cols[0].Name = s }},
		}...)
	}
	p := parts[c.N(len(parts))]
	n := c.N(120000)
	first := c.N(1000)
	c.Note("keys", fmt.Sprintf("%d like %s, which differ in %s: %d and so on", n, a.sig(), p.name, first))
	c.Class("many keys")
	c.NonTrivial(fmt.Sprint(n, a.sig(), p.name))
	ids := make(map[string]int, n)
	for i := first; i < first+n; i++ {
		p.set(fmt.Sprint(i))
		m := a.build()
		if j, ok := ids[m.ID()]; ok {
			c.Failf("the keys with %s %d and %d have the same id %s", p.name, j, i, m.ID())
		}
		ids[m.ID()] = i
		if r := m.Reference(); r != nil && strings.Contains(p.name, "other") {
			id := r.ID()
			if j, ok := ids[id]; ok {
				c.Failf("the references with %s %d and %d have the same id %s", p.name, j, i, id)
			}
			ids[id] = i
		}
	}
}

// p19names: objects that have a name, and nothing else to tell them apart.
func p19names(c *C) {
	a := c.Ident()
	b := a
	for n := c.Weighted(2, 6, 1); n > 0; n-- {
		b = twist(c, b)
	}
	kinds := []struct {
		name string
		make func(string) model.Stmt
	}{
		{"table", func(n string) model.Stmt {
			t := model.NewTable(n)
			if c.Bool() {
				t.SetTemporary(c.Bool()).SetIfNotExists(c.Bool()).AddColumn(model.NewTableColumn("x"))
			}
			return t
		}},
		{"column", func(n string) model.Stmt {
			col := model.NewTableColumn(n)
			if c.Bool() {
				col.SetType(model.ColumnTypeInt).SetNullState(model.NullStateNotNull).SetTableID("table#x")
			}
			return col
		}},
		{"database", func(n string) model.Stmt { return model.NewDatabase(n).SetIfNotExists(c.Bool()) }},
		{"table option", func(n string) model.Stmt { return model.NewTableOption(n, c.Str(), c.Bool()) }},
		{"index option", func(n string) model.Stmt { return model.NewIndexOption(n, c.Str(), c.Bool()) }},
	}
	i := c.N(len(kinds))
	j := i
	if c.Chance(1, 3) {
		j = c.N(len(kinds))
	}
	c.Class(kinds[i].name + " and " + kinds[j].name)
	x := kinds[i].make(a)
	if c.Chance(1, 4) {
		// a name that looks like the id of something else
		b = x.ID()
		if k := strings.IndexByte(b, '#'); k >= 0 && c.Bool() {
			b = b[c.N(k+2):]
		}
		if c.Chance(1, 4) {
			b = kinds[c.N(len(kinds))].make(b).ID()
		}
	}
	y := kinds[j].make(b)
	c.NonTrivial(fmt.Sprintf("%s %q, %s %q", kinds[i].name, a, kinds[j].name, b))
	same := i == j && a == b
	if (x.ID() == y.ID()) != same {
		c.Failf("%s %q and %s %q are the same: %v, but their ids are %q and %q", kinds[i].name, a, kinds[j].name, b, same, x.ID(), y.ID())
	}
	l := model.Stmts{x}
	if z, ok := l.Lookup(y.ID()); ok != same || ok && z != x {
		c.Failf("looking for %q in a list with %q: %v", y.ID(), x.ID(), ok)
	}
	ca, cb := model.NewIndexColumn(a), model.NewIndexColumn(b)
	if (ca.ID() == cb.ID()) != (a == b) {
		c.Failf("index columns %q and %q have ids %q and %q", a, b, ca.ID(), cb.ID())
	}
	// columns of a table
	t := model.NewTable("t")
	t.AddColumn(model.NewTableColumn(a))
	col := model.NewTableColumn(b)
	if a != b {
		if _, ok := t.LookupColumn(col.ID()); ok {
			c.Failf("column %q is found in a table with column %q", b, a)
		}
		t.AddColumn(col)
		if p, ok := t.LookupColumnBefore(col.ID()); !ok || p.Name() != a {
			c.Failf("the column before %q is not %q", b, a)
		}
	}
	if z, ok := t.LookupColumn(col.ID()); !ok || z.Name() != b {
		c.Failf("column %q is not found", b)
	}
	if z, ok := t.LookupColumn(model.NewTableColumn(a).ID()); !ok || z.Name() != a {
		c.Failf("column %q is not found", a)
	}
}

// p19parsed: the keys of two tables of the same name are compared.
func p19parsed(c *C) {
	s := &ref.Schema{}
	t := c.Table(gen.Conf{MaxTables: 1, MaxCols: 6, MaxIdx: 5, Unnamed: true}, s, map[string]bool{})
	s.Tables = append(s.Tables, t)
	u := t
	v := s.Clone()
	u = v.Tables[0]
	for n := c.N(4); n > 0 && len(u.Idx) > 0; n-- {
		c.EditIndex(u.Idx[c.N(len(u.Idx))], u, v, gen.Full)
	}
	gen.Repair(u)
	a, b := c.Render(s, style(c)).Src, c.Render(v, style(c)).Src
	c.Note("first", a)
	c.Note("second", b)
	ids := func(what, src string) (map[string]string, []string) {
		m := map[string]string{}
		stmts := mustParse(c, what, src)
		var l []string
		for x := range stmts[0].(model.Table).Indexes() {
			s := obs.Index(x).Sig()
			m[s] = x.ID()
			l = append(l, s)
		}
		sort.Strings(l)
		return m, l
	}
	ia, la := ids("the first", a)
	ib, lb := ids("the second", b)
	for _, x := range la {
		for _, y := range lb {
			if (ia[x] == ib[y]) != (x == y) {
				c.Failf("two keys are the same: %v, but their ids are %s and %s:\n%s\n%s", x == y, ia[x], ib[y], x, y)
			}
		}
	}
	if len(la) > 0 && len(lb) > 0 {
		c.Class("parsed")
		c.NonTrivial(a + b)
	}
}
