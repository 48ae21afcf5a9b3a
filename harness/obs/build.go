package obs

import (
	"fmt"

	"github.com/schemalex/schemalex/model"

	"verifharness/ref"
)

var typeByName = map[string]model.ColumnType{}

func init() {
	for c := model.ColumnTypeInvalid + 1; c < model.ColumnTypeMax; c++ {
		typeByName[c.String()] = c
	}
}

// Type returns the column type with the given name.
func Type(name string) model.ColumnType { return typeByName[name] }

// BuildColumn makes a column through the API.
func BuildColumn(c *ref.Col) model.TableColumn {
	m := model.NewTableColumn(c.Name)
	m.SetType(Type(c.Type))
	if c.Len != nil {
		l := model.NewLength(*c.Len)
		if c.Dec != nil {
			l.SetDecimal(*c.Dec)
		}
		m.SetLength(l)
	}
	if c.Unsigned {
		m.SetUnsigned(true)
	}
	if c.Zerofill {
		m.SetZeroFill(true)
	}
	if c.Binary {
		m.SetBinary(true)
	}
	if c.Charset != nil {
		m.SetCharacterSet(*c.Charset)
	}
	if c.Collate != nil {
		m.SetCollation(*c.Collate)
	}
	if c.AutoUpdate != nil {
		m.SetAutoUpdate(*c.AutoUpdate)
	}
	switch c.Null {
	case ref.NullYes:
		m.SetNullState(model.NullStateNull)
	case ref.NullNot:
		m.SetNullState(model.NullStateNotNull)
	}
	if c.Default != nil {
		m.SetDefault(c.Default.Val, c.Default.Quoted)
	}
	if c.AutoInc {
		m.SetAutoIncrement(true)
	}
	if c.Unique {
		m.SetUnique(true)
	}
	if c.Primary {
		m.SetPrimary(true)
	}
	if c.Key {
		m.SetKey(true)
	}
	if c.Comment != nil {
		m.SetComment(*c.Comment)
	}
	if len(c.Values) > 0 {
		v := append([]string(nil), c.Values...)
		if c.Type == "SET" {
			m.SetSetValues(v)
		} else {
			m.SetEnumValues(v)
		}
	}
	return m
}

func buildIdxCols(c model.ColumnContainer, l []ref.IdxCol) {
	for _, x := range l {
		m := model.NewIndexColumn(x.Name)
		if x.Len != nil {
			m.SetLength(*x.Len)
		}
		switch x.Dir {
		case "ASC":
			m.SetSortDirection(model.SortDirectionAscending)
		case "DESC":
			m.SetSortDirection(model.SortDirectionDescending)
		}
		c.AddColumns(m)
	}
}

// Kind returns the index kind with the given name.
func Kind(k string) model.IndexKind {
	switch k {
	case ref.Primary:
		return model.IndexKindPrimaryKey
	case ref.Normal:
		return model.IndexKindNormal
	case ref.Unique:
		return model.IndexKindUnique
	case ref.Fulltext:
		return model.IndexKindFullText
	case ref.Spatial:
		return model.IndexKindSpatial
	case ref.Foreign:
		return model.IndexKindForeignKey
	}
	panic(fmt.Sprintf("unknown kind %q", k))
}

// BuildAction returns the reference option with the given name.
func BuildAction(s string) model.ReferenceOption {
	switch s {
	case "":
		return model.ReferenceOptionNone
	case "RESTRICT":
		return model.ReferenceOptionRestrict
	case "CASCADE":
		return model.ReferenceOptionCascade
	case "SET NULL":
		return model.ReferenceOptionSetNull
	case "NO ACTION":
		return model.ReferenceOptionNoAction
	}
	panic(fmt.Sprintf("unknown action %q", s))
}

// BuildReference makes a reference through the API.
func BuildReference(r *ref.Ref) model.Reference {
	m := model.NewReference()
	m.SetTableName(r.Table)
	buildIdxCols(m, r.Cols)
	switch r.Match {
	case "FULL":
		m.SetMatch(model.ReferenceMatchFull)
	case "PARTIAL":
		m.SetMatch(model.ReferenceMatchPartial)
	case "SIMPLE":
		m.SetMatch(model.ReferenceMatchSimple)
	}
	m.SetOnDelete(BuildAction(r.OnDelete))
	m.SetOnUpdate(BuildAction(r.OnUpdate))
	return m
}

// BuildIndex makes an index through the API.
func BuildIndex(x *ref.Index, table string) model.Index {
	m := model.NewIndex(Kind(x.Kind), table)
	if x.Symbol != nil {
		m.SetSymbol(*x.Symbol)
	}
	if x.Name != nil {
		m.SetName(*x.Name)
	}
	switch x.Using {
	case "BTREE":
		m.SetType(model.IndexTypeBtree)
	case "HASH":
		m.SetType(model.IndexTypeHash)
	}
	buildIdxCols(m, x.Cols)
	if x.Parser != nil {
		m.AddOption(model.NewIndexOption("WITH PARSER", *x.Parser, true))
	}
	if x.Ref != nil {
		m.SetReference(BuildReference(x.Ref))
	}
	return m
}

// BuildOption makes a table option through the API.
func BuildOption(o ref.Opt) model.TableOption {
	return model.NewTableOption(o.Key, o.Val, o.Quoted)
}

// BuildTable makes a table through the API.
func BuildTable(t *ref.Table) model.Table {
	m := model.NewTable(t.Name)
	m.SetTemporary(t.Temp)
	m.SetIfNotExists(t.IfNotExists)
	if t.HasLike {
		m.SetLikeTable(t.Like)
	}
	for _, c := range t.Cols {
		m.AddColumn(BuildColumn(c))
	}
	for _, x := range t.Idx {
		m.AddIndex(BuildIndex(x, m.ID()))
	}
	for _, o := range t.Opts {
		m.AddOption(BuildOption(o))
	}
	return m
}
