package gen

import (
	"fmt"
	"strings"

	"verifharness/pbt"
	"verifharness/ref"
)

// amount returns how many there are of something.
func (g *G) amount() int {
	if g.Chance(1, 12) {
		return 1030 + g.Range(-8, 3)
	}
	return pbt.Pick(g.T, 20, 40, 70, 130, 260, 520) + g.Range(-3, 3)
}

// simple columns that need no more choices
var simpleCols = []ref.Col{
	{Type: "INT"},
	{Type: "VARCHAR", Len: ref.P("255"), Null: ref.NullNot},
	{Type: "DATETIME", Default: &ref.Default{Val: "NULL"}},
	{Type: "ENUM", Values: []string{"a", "b"}, Comment: ref.P("x")},
	{Type: "DECIMAL", Len: ref.P("10"), Dec: ref.P("2"), Default: &ref.Default{Val: "1.5"}},
	{Type: "TEXT"},
	{Type: "BIGINT", Unsigned: true, Null: ref.NullNot, Default: &ref.Default{Val: "0"}},
}

func simpleCol(name string, i int) *ref.Col {
	c := *simpleCols[i%len(simpleCols)].Clone()
	c.Name = name
	return &c
}

// numbered returns a name with a number that is not used yet.
func numbered(prefix string, i int, used map[string]bool) string {
	n := fmt.Sprintf("%s%d", prefix, i)
	for used[fold(n)] {
		n += "_"
	}
	used[fold(n)] = true
	return n
}

// Bulk makes the schema a large one in some respect.
func (g *G) Bulk(s *ref.Schema, cf Conf, used map[string]bool) {
	prefix := pbt.Pick(g.T, "p", "zz", "A", "b c")
	kind := g.N(9)
	var t *ref.Table
	for _, u := range s.Tables {
		if !u.HasLike && (t == nil || g.Bool()) {
			t = u
		}
	}
	if t == nil {
		kind = 0
	}
	n := g.amount()
	switch kind {
	case 0, 1: // tables
		var l []*ref.Table
		for i := 0; i < n; i++ {
			u := &ref.Table{Name: numbered(prefix, i, used)}
			for j := 0; j <= i%3; j++ {
				u.Cols = append(u.Cols, simpleCol(fmt.Sprintf("c%d", j), i+j))
			}
			switch i % 4 {
			case 1:
				u.Idx = append(u.Idx, &ref.Index{Kind: ref.Normal, Name: ref.P("k"), Cols: []ref.IdxCol{{Name: "c0"}}})
			case 2:
				u.Idx = append(u.Idx, &ref.Index{Kind: ref.Foreign, Symbol: ref.P(numbered("fk", i, map[string]bool{})), Cols: []ref.IdxCol{{Name: "c0"}},
					Ref: &ref.Ref{Table: "other", Cols: []ref.IdxCol{{Name: "id"}}}})
			case 3:
				u.Cols[0].Null, u.Cols[0].Default = ref.NullNot, nil
				u.Idx = append(u.Idx, &ref.Index{Kind: ref.Primary, Cols: []ref.IdxCol{{Name: "c0"}}})
			}
			l = append(l, u)
		}
		i := g.N(len(s.Tables) + 1)
		s.Tables = append(s.Tables[:i:i], append(l, s.Tables[i:]...)...)
	case 2, 3: // columns
		cols := map[string]bool{}
		for _, c := range t.Cols {
			cols[fold(c.Name)] = true
		}
		var l []*ref.Col
		for i := 0; i < n; i++ {
			l = append(l, simpleCol(numbered(prefix, i, cols), i))
		}
		i := g.N(len(t.Cols) + 1)
		t.Cols = append(t.Cols[:i:i], append(l, t.Cols[i:]...)...)
	case 4: // keys
		taken := names(t)
		for i := 0; i < min(n, 70); i++ {
			c := t.Cols[i%len(t.Cols)]
			t.Idx = append(t.Idx, &ref.Index{Kind: ref.Normal, Name: ref.P(numbered(prefix, i, taken)), Cols: []ref.IdxCol{{Name: c.Name}}})
		}
	case 7: // keys of all kinds
		taken := names(t)
		for i := 0; i < min(n, 70); i++ {
			x := &ref.Index{Kind: pbt.Pick(g.T, ref.Normal, ref.Unique, ref.Foreign, ref.Foreign), Cols: []ref.IdxCol{{Name: t.Cols[i%len(t.Cols)].Name}}}
			name := ref.P(numbered(prefix, i, taken))
			if x.Kind == ref.Foreign {
				name = ref.P(numbered(prefix+t.Name, i, taken))
				x.Symbol, x.Ref = name, &ref.Ref{Table: "other", Cols: []ref.IdxCol{{Name: "id"}}}
			} else {
				x.Name = name
			}
			t.Idx = append(t.Idx, x)
		}
	case 8: // a key of many columns
		cols := map[string]bool{}
		for _, c := range t.Cols {
			cols[fold(c.Name)] = true
		}
		x := &ref.Index{Kind: pbt.Pick(g.T, ref.Normal, ref.Unique, ref.Foreign), Name: ref.P(numbered(prefix, 0, names(t)))}
		if x.Kind == ref.Foreign {
			x.Symbol, x.Name, x.Ref = ref.P(numbered(prefix+t.Name, 0, names(t))), nil, &ref.Ref{Table: "other"}
		}
		for i := 0; i < min(n, 140); i++ {
			c := simpleCol(numbered(prefix, i, cols), i)
			t.Cols = append(t.Cols, c)
			x.Cols = append(x.Cols, ref.IdxCol{Name: c.Name})
			if x.Ref != nil {
				x.Ref.Cols = append(x.Ref.Cols, ref.IdxCol{Name: c.Name})
			}
		}
		t.Idx = append(t.Idx, x)
	case 5: // a long list of values
		cols := map[string]bool{}
		for _, c := range t.Cols {
			cols[fold(c.Name)] = true
		}
		c := &ref.Col{Name: numbered(prefix, 0, cols), Type: pbt.Pick(g.T, "ENUM", "SET")}
		for i := 0; i < n; i++ {
			c.Values = append(c.Values, fmt.Sprintf("%s %d", prefix, i))
		}
		t.Cols = append(t.Cols, c)
	case 6: // a long text
		c := t.Cols[g.N(len(t.Cols))]
		part := g.join(strParts, 1, 3) + "x"
		m := pbt.Pick(g.T, 300, 1024, 2048, 4096, 8192, 16384, 65536) + g.Range(-3, 3)
		v := strings.Repeat(part, m/len(part)+1)
		if g.Bool() {
			c.Comment = ref.P(v)
		} else if len(c.Values) > 0 {
			c.Values[g.N(len(c.Values))] = v
		} else {
			c.Comment = ref.P(v)
		}
	}
}

// BulkEdit changes many things of the schema in the same way.
func (g *G) BulkEdit(s *ref.Schema, cf Conf, used map[string]bool) {
	step, kind := 1+g.N(4), g.N(6)
	if kind < 2 {
		g.Bulk(s, cf, used)
		return
	}
	if kind == 5 {
		var l []*ref.Table
		for i, t := range s.Tables {
			if i%step != 0 {
				l = append(l, t)
			}
		}
		s.Tables = l
		return
	}
	for _, t := range s.Tables {
		if t.HasLike {
			continue
		}
		switch kind {
		case 2: // columns are changed
			for i, c := range t.Cols {
				if i%step == 0 {
					c.Comment = ref.P("changed")
				}
			}
		case 3: // columns are dropped
			var l []*ref.Col
			for i, c := range t.Cols {
				if i%step != 0 || len(l) == 0 && i == len(t.Cols)-1 {
					l = append(l, c)
				}
			}
			t.Cols = l
		case 4: // keys are dropped
			t.Idx = nil
		}
	}
}
