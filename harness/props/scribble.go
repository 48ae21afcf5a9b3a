package props

import (
	"github.com/schemalex/schemalex/model"
)

// scribble changes everything in the models that can be changed.
func scribble(m model.Stmts) {
	for i, s := range m {
		switch t := s.(type) {
		case model.Table:
			var cols []model.TableColumn
			for x := range t.Columns() {
				cols = append(cols, x)
			}
			for _, x := range cols {
				scribbleColumn(x)
			}
			var idx []model.Index
			for x := range t.Indexes() {
				idx = append(idx, x)
			}
			for _, x := range idx {
				scribbleIndex(x)
			}
			t.SetTemporary(!t.IsTemporary()).SetIfNotExists(!t.IsIfNotExists())
			t.AddColumn(model.NewTableColumn("scribble").SetType(model.ColumnTypeInt))
			t.AddIndex(model.NewIndex(model.IndexKindNormal, t.ID()).SetName("scribble"))
			t.AddOption(model.NewTableOption("COMMENT", "scribble", true))
			t.SetLikeTable("scribble")
		case model.Database:
			t.SetIfNotExists(!t.IsIfNotExists())
		}
		m[i] = model.NewTable("scribble")
	}
}

func scribbleColumn(x model.TableColumn) {
	if x.HasLength() {
		x.Length().SetDecimal("77")
	}
	if l := x.NativeLength(); l != nil {
		l.SetDecimal("78")
	}
	x.SetTableID("scribble")
	x.SetLength(model.NewLength("79"))
	x.SetType(model.ColumnTypeGEOMETRY)
	x.SetCharacterSet("scribble").SetCollation("scribble").SetDefault("scribble", true).SetComment("scribble").SetAutoUpdate("scribble")
	x.SetEnumValues([]string{"scribble"}).SetSetValues([]string{"scribble"})
	x.SetNullState(model.NullStateNotNull)
	x.SetAutoIncrement(!x.IsAutoIncrement()).SetBinary(!x.IsBinary()).SetKey(!x.IsKey()).SetPrimary(!x.IsPrimary())
	x.SetUnique(!x.IsUnique()).SetUnsigned(!x.IsUnsigned()).SetZeroFill(!x.IsZeroFill())
}

func scribbleIndex(x model.Index) {
	for c := range x.Columns() {
		c.SetLength("80")
		c.SetSortDirection(model.SortDirectionDescending)
	}
	if r := x.Reference(); r != nil {
		for c := range r.Columns() {
			c.SetLength("81")
		}
		r.AddColumns(model.NewIndexColumn("scribble"))
		r.SetTableName("scribble").SetMatch(model.ReferenceMatchPartial).SetOnDelete(model.ReferenceOptionNoAction).SetOnUpdate(model.ReferenceOptionSetNull)
	}
	x.AddColumns(model.NewIndexColumn("scribble"))
	x.AddOption(model.NewIndexOption("WITH PARSER", "scribble", false))
	x.SetName("scribble").SetSymbol("scribble").SetType(model.IndexTypeHash)
	x.SetReference(model.NewReference().SetTableName("scribble"))
}

// overwrite fills the buffer with something else.
func overwrite(b []byte) {
	for i := range b {
		b[i] = '\''
	}
}
