// Package obs reads models of the code under test through their public API,
// and builds them.
package obs

import (
	"fmt"
	"strings"

	"github.com/schemalex/schemalex/model"

	"verifharness/ref"
)

func ptr(has bool, s string) *string {
	if !has {
		return nil
	}
	return &s
}

// Column reads a column.
func Column(c model.TableColumn) *ref.Col {
	n := &ref.Col{
		Name:       c.Name(),
		Type:       c.Type().String(),
		Unsigned:   c.IsUnsigned(),
		Zerofill:   c.IsZeroFill(),
		Binary:     c.IsBinary(),
		Charset:    ptr(c.HasCharacterSet(), c.CharacterSet()),
		Collate:    ptr(c.HasCollation(), c.Collation()),
		AutoUpdate: ptr(c.HasAutoUpdate(), c.AutoUpdate()),
		AutoInc:    c.IsAutoIncrement(),
		Unique:     c.IsUnique(),
		Primary:    c.IsPrimary(),
		Key:        c.IsKey(),
	}
	if c.HasLength() {
		l := c.Length()
		n.Len = ptr(true, l.Length())
		n.Dec = ptr(l.HasDecimal(), l.Decimal())
	}
	switch c.NullState() {
	case model.NullStateNull:
		n.Null = ref.NullYes
	case model.NullStateNotNull:
		n.Null = ref.NullNot
	}
	if c.HasDefault() {
		n.Default = &ref.Default{Val: c.Default(), Quoted: c.IsQuotedDefault()}
	}
	if c.HasComment() {
		n.Comment = ptr(true, c.Comment())
	}
	if c.HasEnumValues() {
		for v := range c.EnumValues() {
			n.Values = append(n.Values, v)
		}
	}
	if c.HasSetValues() {
		for v := range c.SetValues() {
			n.Values = append(n.Values, v)
		}
	}
	return n
}

func idxCols(c model.ColumnContainer) []ref.IdxCol {
	l := []ref.IdxCol{}
	for col := range c.Columns() {
		n := ref.IdxCol{Name: col.Name(), Len: ptr(col.HasLength(), col.Length())}
		switch {
		case col.IsAscending():
			n.Dir = "ASC"
		case col.IsDescending():
			n.Dir = "DESC"
		}
		if col.HasSortDirection() != (n.Dir != "") {
			n.Dir += "(inconsistent)"
		}
		l = append(l, n)
	}
	return l
}

// Reference reads a reference.
func Reference(r model.Reference) *ref.Ref {
	n := &ref.Ref{Table: r.TableName(), Cols: idxCols(r)}
	for _, m := range []struct {
		on bool
		s  string
	}{{r.MatchFull(), "FULL"}, {r.MatchPartial(), "PARTIAL"}, {r.MatchSimple(), "SIMPLE"}} {
		if m.on {
			n.Match += m.s
		}
	}
	n.OnDelete, n.OnUpdate = Action(r.OnDelete()), Action(r.OnUpdate())
	return n
}

// Action names a reference option.
func Action(o model.ReferenceOption) string {
	switch o {
	case model.ReferenceOptionNone:
		return ""
	case model.ReferenceOptionRestrict:
		return "RESTRICT"
	case model.ReferenceOptionCascade:
		return "CASCADE"
	case model.ReferenceOptionSetNull:
		return "SET NULL"
	case model.ReferenceOptionNoAction:
		return "NO ACTION"
	}
	return fmt.Sprintf("(unknown action %d)", o)
}

// Index reads an index.
func Index(x model.Index) *ref.Index {
	n := &ref.Index{
		Symbol: ptr(x.HasSymbol(), x.Symbol()),
		Name:   ptr(x.HasName(), x.Name()),
		Cols:   idxCols(x),
	}
	for _, k := range []struct {
		on bool
		s  string
	}{{x.IsPrimaryKey(), ref.Primary}, {x.IsNormal(), ref.Normal}, {x.IsUnique(), ref.Unique},
		{x.IsFullText(), ref.Fulltext}, {x.IsSpatial(), ref.Spatial}, {x.IsForeignKey(), ref.Foreign}} {
		if k.on {
			n.Kind += k.s
		}
	}
	if x.IsBtree() {
		n.Using += "BTREE"
	}
	if x.IsHash() {
		n.Using += "HASH"
	}
	if x.HasType() != (n.Using != "") {
		n.Using += "(inconsistent)"
	}
	for o := range x.Options() {
		if o.Key() == "WITH PARSER" && n.Parser == nil && o.NeedQuotes() {
			n.Parser = ptr(true, o.Value())
		} else {
			n.Kind += fmt.Sprintf("(option %q=%q %v)", o.Key(), o.Value(), o.NeedQuotes())
		}
	}
	if r := x.Reference(); r != nil {
		n.Ref = Reference(r)
	}
	return n
}

// Option reads a table option.
func Option(o model.TableOption) ref.Opt {
	return ref.Opt{Key: o.Key(), Val: o.Value(), Quoted: o.NeedQuotes()}
}

// Table reads a table.
func Table(t model.Table) *ref.Table {
	n := &ref.Table{Name: t.Name(), Temp: t.IsTemporary(), IfNotExists: t.IsIfNotExists(), HasLike: t.HasLikeTable(), Like: t.LikeTable()}
	for c := range t.Columns() {
		n.Cols = append(n.Cols, Column(c))
	}
	for x := range t.Indexes() {
		n.Idx = append(n.Idx, Index(x))
	}
	for o := range t.Options() {
		n.Opts = append(n.Opts, Option(o))
	}
	return n
}

// Schema reads a list of statements. Anything but a table is an error.
func Schema(stmts model.Stmts) (*ref.Schema, error) {
	s := &ref.Schema{}
	for i, st := range stmts {
		t, ok := st.(model.Table)
		if !ok {
			return nil, fmt.Errorf("statement %d is a %T, not a table", i, st)
		}
		s.Tables = append(s.Tables, Table(t))
	}
	return s, nil
}

// Dump describes everything that can be seen through the API, including ids,
// the results of lookups and the internal consistency of the model.
func Dump(stmts model.Stmts) string {
	var b strings.Builder
	for i, st := range stmts {
		fmt.Fprintf(&b, "stmt %d %T id %q\n", i, st, st.ID())
		if t, ok := st.(model.Table); ok {
			DumpTable(&b, t)
		}
	}
	return b.String()
}

// DumpTable describes everything that can be seen of a table.
func DumpTable(b *strings.Builder, t model.Table) {
	fmt.Fprintf(b, "%s id=%q\n", Table(t).Head(), t.ID())
	for c := range t.Columns() {
		fmt.Fprintf(b, "  col %s id=%q table=%q\n", Column(c), c.ID(), c.TableID())
		if n, ok := t.LookupColumnOrder(c.ID()); ok {
			fmt.Fprintf(b, "    order %d", n)
		}
		if p, ok := t.LookupColumnBefore(c.ID()); ok {
			fmt.Fprintf(b, " before %q", p.Name())
		}
		b.WriteByte('\n')
	}
	for x := range t.Indexes() {
		fmt.Fprintf(b, "  idx %s id=%q\n", Index(x), x.ID())
		for c := range x.Columns() {
			fmt.Fprintf(b, "    col id=%q\n", c.ID())
		}
		if r := x.Reference(); r != nil {
			fmt.Fprintf(b, "    ref id=%q %s\n", r.ID(), r.String())
		}
	}
	for o := range t.Options() {
		fmt.Fprintf(b, "  opt %s id=%q\n", Option(o), o.ID())
	}
}
