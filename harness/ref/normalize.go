package ref

import "regexp"

// NativeLen is the implied display length of the type, without a sign.
var nativeLen = map[string][2]string{ // signed, unsigned
	"BOOL":      {"1", "1"},
	"BOOLEAN":   {"1", "1"},
	"TINYINT":   {"4", "3"},
	"SMALLINT":  {"6", "5"},
	"MEDIUMINT": {"9", "8"},
	"INT":       {"11", "10"},
	"INTEGER":   {"11", "10"},
	"BIGINT":    {"20", "20"},
	"DECIMAL":   {"10", "10"},
	"NUMERIC":   {"10", "10"},
}

var synonym = map[string]string{
	"BOOL": "TINYINT", "BOOLEAN": "TINYINT", "INTEGER": "INT", "NUMERIC": "DECIMAL", "REAL": "DOUBLE",
}

// Synonym is the base type of a type.
func Synonym(typ string) string {
	if s, ok := synonym[typ]; ok {
		return s
	}
	return typ
}

var numeric = map[string]bool{
	"TINYINT": true, "SMALLINT": true, "MEDIUMINT": true, "INT": true, "INTEGER": true, "BIGINT": true,
	"FLOAT": true, "DOUBLE": true, "DECIMAL": true, "NUMERIC": true, "REAL": true, "BOOL": true, "BOOLEAN": true,
}

// Numeric tells whether the type is a number.
func Numeric(typ string) bool { return numeric[typ] }

var noDefault = map[string]bool{
	"TINYTEXT": true, "TEXT": true, "MEDIUMTEXT": true, "LONGTEXT": true,
	"TINYBLOB": true, "BLOB": true, "MEDIUMBLOB": true, "LONGBLOB": true,
}

// NoDefault tells whether the type can not have a default value.
func NoDefault(typ string) bool { return noDefault[typ] }

var number = regexp.MustCompile(`^([-+]?[0-9]+(\.[0-9]*)?|\.[0-9]+)([eE]-?[0-9]+)?$`)

// Native is the implied length of the column.
func (c *Col) Native() (l, dec *string) {
	s, ok := nativeLen[c.Type]
	if !ok {
		return nil, nil
	}
	l = P(s[0])
	if c.Unsigned {
		l = P(s[1])
	}
	if c.Type == "DECIMAL" || c.Type == "NUMERIC" {
		dec = P("0")
	}
	return
}

// Normalize is the canonical form of the column. Keys are left alone.
func (c *Col) Normalize() *Col {
	n := c.Clone()
	if n.Len == nil {
		n.Len, n.Dec = c.Native()
	}
	n.Type = Synonym(c.Type)
	if n.Null == NullYes {
		n.Null = NullNone
	}
	switch {
	case n.Default == nil:
		if !noDefault[c.Type] && n.Null != NullNot {
			n.Default = &Default{Val: "NULL"}
		}
	case (c.Type == "BOOL" || c.Type == "BOOLEAN") && n.Default.Val == "TRUE":
		n.Default = &Default{Val: "1"}
	case (c.Type == "BOOL" || c.Type == "BOOLEAN") && n.Default.Val == "FALSE":
		n.Default = &Default{Val: "0"}
	case numeric[c.Type] && n.Default.Quoted && number.MatchString(n.Default.Val):
		n.Default = &Default{Val: upper(n.Default.Val)}
	}
	return n
}

func upper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

// Normalize is the canonical form of the table.
func (t *Table) Normalize() *Table {
	n := t.Clone()
	var inline []*Index
	for i, c := range n.Cols {
		m := c.Normalize()
		if m.Primary || m.Key {
			inline = append(inline, &Index{Kind: Primary, Cols: []IdxCol{{Name: m.Name}}})
			m.Primary, m.Key = false, false
		}
		if m.Unique {
			inline = append(inline, &Index{Kind: Unique, Name: P(m.Name), Cols: []IdxCol{{Name: m.Name}}})
			m.Unique = false
		}
		n.Cols[i] = m
	}
	names := map[string]bool{}
	for _, x := range inline {
		if x.Name != nil {
			names[*x.Name] = true
		}
	}
	for _, x := range n.Idx {
		if x.Kind != Foreign && x.Name != nil {
			names[*x.Name] = true
		}
	}
	idx := inline
	for _, x := range n.Idx {
		if x.Kind == Foreign && x.Symbol != nil && !names[*x.Symbol] {
			idx = append(idx, &Index{Kind: Normal, Name: cloneP(x.Symbol), Using: x.Using, Cols: cloneIdxCols(x.Cols)})
		}
		idx = append(idx, x)
	}
	n.Idx = idx
	return n
}

// Normalize is the canonical form of the schema.
func (s *Schema) Normalize() *Schema {
	n := &Schema{}
	for _, t := range s.Tables {
		n.Tables = append(n.Tables, t.Normalize())
	}
	return n
}
