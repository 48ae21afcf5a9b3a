package gen

import (
	"verifharness/pbt"
	"verifharness/ref"
)

// Edit returns another version of the schema. If reorder is not set, columns
// that are kept keep their relative order.
func (g *G) Edit(from *ref.Schema, cf Conf, reorder bool) *ref.Schema {
	s := from.Clone()
	used := map[string]bool{}
	for _, t := range s.Tables {
		used[fold(t.Name)] = true
	}
	lo := 1
	if g.Chance(1, 15) {
		lo = 0
	}
	g.Many(lo, 16, func(int) { g.edit(s, cf, used, reorder) })
	if g.Chance(1, 100) {
		g.BulkEdit(s, cf, used)
	}
	for _, t := range s.Tables {
		Repair(t)
	}
	return s
}

func (g *G) edit(s *ref.Schema, cf Conf, used map[string]bool, reorder bool) {
	k := g.Weighted(30, 2, 3, 2, 1)
	if len(s.Tables) == 0 {
		k = 2
	}
	switch k {
	case 0:
		g.EditTable(s.Tables[g.N(len(s.Tables))], s, cf, reorder)
	case 1:
		i := g.N(len(s.Tables))
		s.Tables = append(s.Tables[:i:i], s.Tables[i+1:]...)
	case 2:
		t := g.Table(cf, s, used)
		i := g.N(len(s.Tables) + 1)
		s.Tables = append(s.Tables[:i:i], append([]*ref.Table{t}, s.Tables[i:]...)...)
	case 3:
		var l []*ref.Table
		for _, i := range g.Perm(len(s.Tables)) {
			l = append(l, s.Tables[i])
		}
		s.Tables = l
	case 4:
		// the same table under another name
		t := s.Tables[g.N(len(s.Tables))].Clone()
		t.Name = g.Fresh(used)
		s.Tables = append(s.Tables, t)
	}
}

// EditTable changes something in the table.
func (g *G) EditTable(t *ref.Table, s *ref.Schema, cf Conf, reorder bool) {
	if t.HasLike {
		switch {
		case g.Bool():
			t.Like = g.Ident()
		default:
			t.HasLike, t.Like = false, ""
			t.Cols = []*ref.Col{g.Col("a")}
		}
		return
	}
	cols := map[string]bool{}
	for _, c := range t.Cols {
		cols[fold(c.Name)] = true
	}
	w := []int{4, 5, 10, 4, 5, 8, 1, 1, 1, 1, 1}
	if !reorder {
		w[9] = 0
	}
	if !cf.Like {
		w[10] = 0
	}
	switch g.Weighted(w...) {
	case 0: // drop columns
		for n := 1 + g.Weighted(3, 1); n > 0 && len(t.Cols) > 1; n-- {
			i := g.N(len(t.Cols))
			t.Cols = append(t.Cols[:i:i], t.Cols[i+1:]...)
		}
	case 1: // add columns
		g.Many(1, 5, func(int) {
			c := g.Col(g.Fresh(cols))
			i := g.N(len(t.Cols) + 1)
			t.Cols = append(t.Cols[:i:i], append([]*ref.Col{c}, t.Cols[i:]...)...)
		})
	case 2:
		g.EditCol(t.Cols[g.N(len(t.Cols))])
	case 3:
		if len(t.Idx) > 0 {
			i := g.N(len(t.Idx))
			t.Idx = append(t.Idx[:i:i], t.Idx[i+1:]...)
		}
	case 4:
		g.AddIndex(t, s, cf)
	case 5:
		if len(t.Idx) > 0 {
			g.EditIndex(t.Idx[g.N(len(t.Idx))], t, s, cf)
		}
	case 6: // another order of keys
		var l []*ref.Index
		for _, i := range g.Perm(len(t.Idx)) {
			l = append(l, t.Idx[i])
		}
		t.Idx = l
	case 7:
		t.Opts = g.Options()
	case 8: // all columns are replaced
		for i := range t.Cols {
			t.Cols[i] = g.Col(g.Fresh(cols))
		}
		t.Idx = nil
		g.Many(0, 3, func(int) { g.AddIndex(t, s, cf) })
	case 9:
		var l []*ref.Col
		for _, i := range g.Perm(len(t.Cols)) {
			l = append(l, t.Cols[i])
		}
		t.Cols = l
	case 10:
		*t = ref.Table{Name: t.Name, HasLike: true, Like: g.Ident()}
	}
}

// EditCol changes an attribute of the column.
func (g *G) EditCol(c *ref.Col) {
	if g.Chance(1, 5) {
		// hardly at all
		d := c.Default
		switch {
		case c.Comment != nil && (d == nil || g.Bool()):
			c.Comment = ref.P(g.Tweak(*c.Comment))
			return
		case d != nil && d.Quoted && !ref.Numeric(c.Type):
			c.Default = &ref.Default{Val: g.Tweak(d.Val), Quoted: true}
			return
		case len(c.Values) > 0:
			i := g.N(len(c.Values))
			c.Values[i] = g.Tweak(c.Values[i])
			return
		}
	}
	switch g.N(14) {
	case 0:
		g.SetType(c)
		g.SetDefault(c)
	case 1:
		g.SetLen(c)
	case 2:
		if info(c.Type).has('u') {
			c.Unsigned = !c.Unsigned
		}
	case 3:
		if info(c.Type).has('u') {
			c.Zerofill = !c.Zerofill
		}
	case 4:
		if info(c.Type).has('c') {
			c.Binary = !c.Binary
		}
	case 5:
		if info(c.Type).has('c') || info(c.Type).has('s') {
			c.Charset = g.optStr(charsets)
		}
	case 6:
		if info(c.Type).has('c') || info(c.Type).has('s') {
			c.Collate = g.optStr(collations)
		}
	case 7:
		c.Null = (c.Null + g.Range(1, 2)) % 3
	case 8, 9:
		if d := c.Default; d != nil && d.Quoted && !ref.Numeric(c.Type) && g.Bool() {
			c.Default = &ref.Default{Val: g.Tweak(d.Val), Quoted: true}
		} else {
			g.SetDefault(c)
		}
		if c.Default != nil {
			c.AutoInc = false
		}
	case 10:
		if numericInt(c.Type) {
			c.AutoInc = !c.AutoInc
			c.Default = nil
		}
	case 11:
		if g.Chance(1, 3) {
			c.Comment = nil
		} else if c.Comment != nil && g.Bool() {
			c.Comment = ref.P(g.Tweak(*c.Comment))
		} else {
			c.Comment = ref.P(g.Str())
		}
	case 12:
		if c.Type == "TIMESTAMP" || c.Type == "DATETIME" {
			if c.AutoUpdate != nil {
				c.AutoUpdate = nil
			} else {
				c.AutoUpdate = ref.P("CURRENT_TIMESTAMP")
			}
		}
	case 13:
		if info(c.Type).has('v') {
			i := g.N(len(c.Values))
			switch g.N(4) {
			case 0:
				c.Values = append(c.Values, g.Str())
			case 1:
				if g.Bool() {
					c.Values[i] = g.Tweak(c.Values[i])
				} else {
					c.Values[i] = g.Str()
				}
			case 2:
				if len(c.Values) > 1 {
					c.Values = append(c.Values[:i:i], c.Values[i+1:]...)
				}
			case 3:
				j := g.N(len(c.Values))
				c.Values[i], c.Values[j] = c.Values[j], c.Values[i]
			}
			return
		}
		// a key declared along with the column
		c.Unique = !c.Unique
	}
}

func (g *G) optStr(l []string) *string {
	if g.Chance(1, 3) {
		return nil
	}
	return ref.P(l[g.N(len(l))])
}

// free tells whether no key has this symbol, and no more than one this name.
func free(t *ref.Table, name string) bool {
	n := 0
	for _, x := range t.Normalize().Idx {
		if x.Symbol != nil && fold(*x.Symbol) == fold(name) {
			return false
		}
		if x.Name != nil && fold(*x.Name) == fold(name) {
			n++
		}
	}
	return n <= 1
}

// EditIndex changes an attribute of the key.
func (g *G) EditIndex(x *ref.Index, t *ref.Table, s *ref.Schema, cf Conf) {
	taken := names(t)
	switch g.N(12) {
	case 0:
		if x.Kind != ref.Primary {
			x.Name = ref.P(g.Fresh(taken))
		}
	case 1:
		if x.Kind == ref.Foreign || x.Kind == ref.Unique || x.Kind == ref.Primary {
			if x.Name != nil && g.Chance(1, 4) && (x.Symbol == nil || *x.Symbol != *x.Name) && free(t, *x.Name) {
				x.Symbol = ref.P(*x.Name)
			} else {
				x.Symbol = ref.P(g.Fresh(taken))
			}
		}
	case 2:
		switch x.Kind {
		case ref.Primary, ref.Normal, ref.Unique:
			x.Using = pbt.Pick(g.T, "", "BTREE", "HASH")
		case ref.Fulltext:
			if g.Chance(1, 3) {
				x.Parser = nil
			} else {
				x.Parser = ref.P(pbt.Pick(g.T, "ngram", "mecab", g.Ident()))
			}
		}
	case 3, 4:
		n := len(x.Cols)
		x.Cols = g.idxCols(t, x.Kind, cf)
		if x.Ref != nil && len(x.Cols) != n {
			x.Ref = g.Ref(s, t, len(x.Cols))
		}
	case 5:
		if i, j := g.N(len(x.Cols)), g.N(len(x.Cols)); i != j {
			x.Cols[i], x.Cols[j] = x.Cols[j], x.Cols[i]
		}
	case 6:
		if x.Kind == ref.Primary || x.Kind == ref.Normal || x.Kind == ref.Unique {
			c := &x.Cols[g.N(len(x.Cols))]
			c.Len = nil
			if g.Bool() {
				c.Len = ref.P(g.Uint())
			}
		}
	case 7:
		if x.Kind == ref.Primary || x.Kind == ref.Normal || x.Kind == ref.Unique || g.Chance(1, 3) {
			c := &x.Cols[g.N(len(x.Cols))]
			c.Dir = pbt.Pick(g.T, "", "DESC", "ASC")
		}
	case 8:
		switch x.Kind {
		case ref.Normal:
			x.Kind = ref.Unique
		case ref.Unique:
			x.Kind, x.Symbol = ref.Normal, nil
		case ref.Fulltext:
			x.Kind, x.Parser = ref.Spatial, nil
		case ref.Spatial:
			x.Kind = ref.Fulltext
		}
	case 9, 10, 11:
		if x.Ref == nil {
			break
		}
		switch g.N(7) {
		case 6:
			x.Ref.Cols[g.N(len(x.Ref.Cols))].Dir = pbt.Pick(g.T, "", "DESC", "ASC")
		case 0:
			x.Ref.Table = g.Ident()
		case 1:
			x.Ref.Match = pbt.Pick(g.T, "", "FULL", "PARTIAL", "SIMPLE")
		case 2:
			x.Ref.OnDelete = pbt.Pick(g.T, "", "CASCADE", "RESTRICT", "SET NULL", "NO ACTION")
		case 3:
			x.Ref.OnUpdate = pbt.Pick(g.T, "", "CASCADE", "RESTRICT", "SET NULL", "NO ACTION")
		case 4:
			x.Ref.Cols[g.N(len(x.Ref.Cols))].Name = g.Ident()
		case 5:
			i, j := g.N(len(x.Ref.Cols)), g.N(len(x.Ref.Cols))
			x.Ref.Cols[i], x.Ref.Cols[j] = x.Ref.Cols[j], x.Ref.Cols[i]
		}
	}
}

// Repair removes whatever makes the table inconsistent: keys of columns that do
// not exist, names that are used twice, a second primary key.
func Repair(t *ref.Table) {
	if t.HasLike {
		return
	}
	pk := false
	taken := map[string]bool{} // names of keys
	syms := map[string]bool{}  // names of foreign keys
	for _, c := range t.Cols {
		if c.Primary || c.Key {
			if pk {
				c.Primary, c.Key = false, false
			}
			pk = true
		}
		if c.Unique {
			if taken[fold(c.Name)] {
				c.Unique = false
			}
			taken[fold(c.Name)] = true
		}
	}
	idx := t.Idx
	t.Idx = nil
	for _, x := range idx {
		var cols, refs []ref.IdxCol
		for i, c := range x.Cols {
			if t.Col(c.Name) == nil {
				continue
			}
			cols = append(cols, c)
			if x.Ref != nil && i < len(x.Ref.Cols) {
				refs = append(refs, x.Ref.Cols[i])
			}
		}
		if len(cols) == 0 || x.Kind == ref.Primary && pk {
			continue
		}
		x.Cols = cols
		if x.Ref != nil {
			x.Ref.Cols = refs
		}
		if x.Kind == ref.Foreign {
			n := x.Symbol
			if n == nil {
				n = x.Name
			}
			if n != nil {
				if syms[fold(*n)] {
					continue
				}
				syms[fold(*n)] = true
			}
		} else {
			n := x.Name
			if n == nil && x.Kind == ref.Unique {
				n = x.Symbol
			}
			if n != nil {
				if taken[fold(*n)] {
					continue
				}
				taken[fold(*n)] = true
			}
			if x.Symbol != nil {
				if syms[fold(*x.Symbol)] {
					continue
				}
				syms[fold(*x.Symbol)] = true
			}
		}
		if sigs(t)[x.Sig()] {
			continue
		}
		pk = pk || x.Kind == ref.Primary
		t.Idx = append(t.Idx, x)
	}
}

// Equivalent returns a schema that means the same.
func (g *G) Equivalent(s *ref.Schema) *ref.Schema {
	n := s.Clone()
	if g.Bool() {
		var l []*ref.Table
		for _, i := range g.Perm(len(n.Tables)) {
			l = append(l, n.Tables[i])
		}
		n.Tables = l
	}
	for _, t := range n.Tables {
		g.equivalentTable(t)
	}
	return n
}

func (g *G) equivalentTable(t *ref.Table) {
	if t.HasLike {
		return
	}
	norm := t.Normalize()
	if g.Chance(1, 4) {
		// the canonical form itself
		t.Cols, t.Idx = norm.Cols, norm.Idx
	} else {
		for i, c := range t.Cols {
			g.equivalentCol(c, norm.Cols[i])
		}
	}
	// keys declared along with a column or separately
	for _, c := range t.Cols {
		if (c.Primary || c.Key) && g.Chance(1, 3) {
			c.Primary, c.Key = false, false
			t.Idx = append(t.Idx, &ref.Index{Kind: ref.Primary, Cols: []ref.IdxCol{{Name: c.Name}}})
		}
		if c.Unique && g.Chance(1, 3) {
			c.Unique = false
			t.Idx = append(t.Idx, &ref.Index{Kind: ref.Unique, Name: ref.P(c.Name), Cols: []ref.IdxCol{{Name: c.Name}}})
		}
		switch {
		case c.Key && g.Bool():
			c.Key, c.Primary = false, true
		case c.Primary && g.Bool():
			c.Key, c.Primary = true, false
		}
		if c.Primary && g.Chance(1, 8) {
			// twice the same
			c.Key = true
		}
	}
	idx := t.Idx
	t.Idx = nil
	for _, x := range idx {
		if len(x.Cols) == 1 && x.Cols[0].Len == nil && x.Cols[0].Dir != "DESC" && x.Using == "" && x.Symbol == nil && g.Chance(1, 3) {
			c := t.Col(x.Cols[0].Name)
			switch {
			case c == nil:
			case x.Kind == ref.Primary && x.Name == nil && !c.Unique:
				if g.Bool() {
					c.Key = true
				} else {
					c.Primary = true
				}
				continue
			case x.Kind == ref.Unique && x.Name != nil && *x.Name == c.Name && !c.Key && !c.Unique:
				c.Unique = true
				continue
			}
		}
		t.Idx = append(t.Idx, x)
	}
	// the index of a foreign key may be declared
	for _, x := range norm.Idx {
		if x.Kind == ref.Normal && !sigs(&ref.Table{Idx: t.Idx})[x.Sig()] && g.Chance(1, 3) {
			t.Idx = append(t.Idx, x.Clone())
		}
	}
	for _, x := range t.Idx {
		for i := range x.Cols {
			c := &x.Cols[i]
			if c.Dir == "" && g.Chance(1, 6) {
				c.Dir = "ASC"
			} else if c.Dir == "ASC" && g.Chance(1, 2) {
				c.Dir = ""
			}
		}
		if x.Ref != nil && g.Chance(1, 4) {
			// a direction means nothing here
			x.Ref.Cols[g.N(len(x.Ref.Cols))].Dir = pbt.Pick(g.T, "", "ASC", "DESC")
		}
	}
	if g.Bool() {
		var l []*ref.Index
		for _, i := range g.Perm(len(t.Idx)) {
			l = append(l, t.Idx[i])
		}
		t.Idx = l
	}
}

// equivalentCol makes things explicit or implicit.
func (g *G) equivalentCol(c, norm *ref.Col) {
	if c.Len == nil && norm.Len != nil && (info(c.Type).has('l') || info(c.Type).has('d') || info(c.Type).has('D')) && g.Chance(1, 2) {
		c.Len, c.Dec = ref.P(*norm.Len), nil
		if norm.Dec != nil {
			c.Dec = ref.P(*norm.Dec)
		}
	} else if c.Len != nil && g.Chance(1, 4) {
		// the length may be the implied one
		d := c.Clone()
		d.Len, d.Dec = nil, nil
		if d.Normalize().String() == norm.String() {
			c.Len, c.Dec = nil, nil
		}
	}
	if c.Null == ref.NullYes && g.Chance(1, 2) {
		c.Null = ref.NullNone
	} else if c.Null == ref.NullNone && g.Chance(1, 4) {
		c.Null = ref.NullYes
	}
	if c.Default == nil && norm.Default != nil && g.Chance(1, 2) {
		d := *norm.Default
		c.Default = &d
	} else if c.Default != nil && g.Chance(1, 3) {
		d := c.Clone()
		d.Default = nil
		if d.Normalize().String() == norm.String() {
			c.Default = nil
		}
	}
	if d := c.Default; d != nil && ref.Numeric(c.Type) && g.Chance(1, 3) {
		e := c.Clone()
		e.Default.Quoted = !d.Quoted
		if e.Normalize().String() == norm.String() {
			c.Default = e.Default
		}
	}
	// another type with the same meaning
	if g.Chance(1, 3) {
		for _, ti := range Types {
			if ti.name == c.Type || ref.Synonym(ti.name) != ref.Synonym(c.Type) || ti.name[:1] == "B" && ti.name[1:] == "OOL" {
				continue
			}
			d := c.Clone()
			d.Type = ti.name
			if d.Len != nil && d.Dec == nil && ti.has('D') {
				continue
			}
			if (ti.name == "BOOL" || ti.name == "BOOLEAN") && (d.Len != nil || d.Unsigned || d.Zerofill) {
				continue
			}
			if d.Normalize().String() == norm.String() {
				c.Type = ti.name
				break
			}
		}
	}
	if (c.Type == "TINYINT") && c.Len != nil && *c.Len == "1" && c.Dec == nil && !c.Unsigned && !c.Zerofill && g.Chance(1, 2) {
		d := c.Clone()
		d.Type, d.Len = pbt.Pick(g.T, "BOOL", "BOOLEAN"), nil
		if d.Normalize().String() == norm.String() {
			*c = *d
		}
	}
}

// Align removes differences in the letter case of names between the two
// versions, which MySQL does not take for differences.
func Align(from, to *ref.Schema) {
	for _, t := range to.Tables {
		for _, o := range from.Tables {
			if fold(o.Name) != fold(t.Name) {
				continue
			}
			t.Name = o.Name
			if t.HasLike || o.HasLike {
				continue
			}
			as := map[string]string{}
			for _, c := range o.Cols {
				as[fold(c.Name)] = c.Name
			}
			for _, c := range t.Cols {
				n, ok := as[fold(c.Name)]
				if !ok || n == c.Name {
					continue
				}
				for _, x := range t.Idx {
					for i := range x.Cols {
						if x.Cols[i].Name == c.Name {
							x.Cols[i].Name = n
						}
					}
				}
				c.Name = n
			}
			Repair(t)
		}
	}
}
