// Package ref is an independent model of MySQL schemas: what the statements
// mean, how they are normalized, compared and executed. It shares no code with
// the code under test.
package ref

import (
	"fmt"
	"strconv"
	"strings"
)

// Schema is a list of tables in order of declaration.
type Schema struct{ Tables []*Table }

// Table is a table. Strings are what the text denotes, not how it is spelled.
type Table struct {
	Name        string
	Temp        bool
	IfNotExists bool
	HasLike     bool
	Like        string
	Cols        []*Col
	Idx         []*Index
	Opts        []Opt
}

// Null states.
const (
	NullNone = iota
	NullYes
	NullNot
)

// Default is a default value, a quoted string or a bare word.
type Default struct {
	Val    string
	Quoted bool
}

// Col is a column.
type Col struct {
	Name       string
	Type       string
	Len, Dec   *string
	Unsigned   bool
	Zerofill   bool
	Binary     bool
	Charset    *string
	Collate    *string
	AutoUpdate *string
	Null       int
	Default    *Default
	AutoInc    bool
	Unique     bool
	Primary    bool
	Key        bool
	Comment    *string
	Values     []string
}

// Index kinds.
const (
	Primary  = "PRIMARY"
	Normal   = "NORMAL"
	Unique   = "UNIQUE"
	Fulltext = "FULLTEXT"
	Spatial  = "SPATIAL"
	Foreign  = "FOREIGN"
)

// IdxCol is a column of an index.
type IdxCol struct {
	Name string
	Len  *string
	Dir  string // "", ASC, DESC
}

// Index is a key.
type Index struct {
	Kind   string
	Symbol *string
	Name   *string
	Using  string // "", BTREE, HASH
	Cols   []IdxCol
	Parser *string
	Ref    *Ref
}

// Ref is the REFERENCES clause of a foreign key.
type Ref struct {
	Table    string
	Cols     []IdxCol
	Match    string // "", FULL, PARTIAL, SIMPLE
	OnDelete string // "", RESTRICT, CASCADE, SET NULL, NO ACTION
	OnUpdate string
}

// Opt is a table option. Key is the canonical spelling.
type Opt struct {
	Key    string
	Val    string
	Quoted bool
}

func P(s string) *string { return &s }

func cloneP(p *string) *string {
	if p == nil {
		return nil
	}
	s := *p
	return &s
}

func (c *Col) Clone() *Col {
	n := *c
	n.Len, n.Dec = cloneP(c.Len), cloneP(c.Dec)
	n.Charset, n.Collate = cloneP(c.Charset), cloneP(c.Collate)
	n.AutoUpdate, n.Comment = cloneP(c.AutoUpdate), cloneP(c.Comment)
	if c.Default != nil {
		d := *c.Default
		n.Default = &d
	}
	n.Values = append([]string(nil), c.Values...)
	return &n
}

func cloneIdxCols(l []IdxCol) []IdxCol {
	n := make([]IdxCol, len(l))
	for i, c := range l {
		n[i] = IdxCol{Name: c.Name, Len: cloneP(c.Len), Dir: c.Dir}
	}
	return n
}

func (x *Index) Clone() *Index {
	n := *x
	n.Symbol, n.Name, n.Parser = cloneP(x.Symbol), cloneP(x.Name), cloneP(x.Parser)
	n.Cols = cloneIdxCols(x.Cols)
	if x.Ref != nil {
		r := *x.Ref
		r.Cols = cloneIdxCols(x.Ref.Cols)
		n.Ref = &r
	}
	return &n
}

func (t *Table) Clone() *Table {
	n := *t
	n.Cols, n.Idx = nil, nil
	for _, c := range t.Cols {
		n.Cols = append(n.Cols, c.Clone())
	}
	for _, x := range t.Idx {
		n.Idx = append(n.Idx, x.Clone())
	}
	n.Opts = append([]Opt(nil), t.Opts...)
	return &n
}

func (s *Schema) Clone() *Schema {
	n := &Schema{}
	for _, t := range s.Tables {
		n.Tables = append(n.Tables, t.Clone())
	}
	return n
}

func (s *Schema) Table(name string) *Table {
	for _, t := range s.Tables {
		if t.Name == name {
			return t
		}
	}
	return nil
}

func (t *Table) Col(name string) *Col {
	for _, c := range t.Cols {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func (t *Table) ColPos(name string) int {
	for i, c := range t.Cols {
		if c.Name == name {
			return i
		}
	}
	return -1
}

func q(p *string) string {
	if p == nil {
		return "-"
	}
	return strconv.Quote(*p)
}

// String is a complete, unambiguous description of the column.
func (c *Col) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q %s", c.Name, c.Type)
	if c.Len != nil {
		fmt.Fprintf(&b, " len=%s", q(c.Len))
	}
	if c.Dec != nil {
		fmt.Fprintf(&b, " dec=%s", q(c.Dec))
	}
	for _, v := range c.Values {
		fmt.Fprintf(&b, " value=%q", v)
	}
	flag := func(on bool, s string) {
		if on {
			b.WriteString(" " + s)
		}
	}
	str := func(p *string, s string) {
		if p != nil {
			fmt.Fprintf(&b, " %s=%q", s, *p)
		}
	}
	flag(c.Unsigned, "UNSIGNED")
	flag(c.Zerofill, "ZEROFILL")
	flag(c.Binary, "BINARY")
	str(c.Charset, "charset")
	str(c.Collate, "collate")
	str(c.AutoUpdate, "onupdate")
	flag(c.Null == NullYes, "NULL")
	flag(c.Null == NullNot, "NOTNULL")
	if c.Default != nil {
		fmt.Fprintf(&b, " default=%q quoted=%v", c.Default.Val, c.Default.Quoted)
	}
	flag(c.AutoInc, "AUTO_INCREMENT")
	flag(c.Unique, "UNIQUE")
	flag(c.Primary, "PRIMARY")
	flag(c.Key, "KEY")
	str(c.Comment, "comment")
	return b.String()
}

func idxColsString(l []IdxCol, ignoreAsc bool) string {
	var b strings.Builder
	for _, c := range l {
		fmt.Fprintf(&b, "[%q", c.Name)
		if c.Len != nil {
			fmt.Fprintf(&b, " len=%q", *c.Len)
		}
		if c.Dir != "" && !(ignoreAsc && c.Dir == "ASC") {
			b.WriteString(" " + c.Dir)
		}
		b.WriteString("]")
	}
	return b.String()
}

// str describes the reference. Sort directions mean nothing in a reference
// (the server ignores them), so they are left out unless exact is wanted.
func (r *Ref) str(exact bool) string {
	l := cloneIdxCols(r.Cols)
	if !exact {
		for i := range l {
			l[i].Dir = ""
		}
	}
	return fmt.Sprintf("REFERENCES %q %s match=%q ondelete=%q onupdate=%q", r.Table, idxColsString(l, false), r.Match, r.OnDelete, r.OnUpdate)
}

func (x *Index) str(ignoreAsc bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s symbol=%s name=%s using=%q %s", x.Kind, q(x.Symbol), q(x.Name), x.Using, idxColsString(x.Cols, ignoreAsc))
	if x.Parser != nil {
		fmt.Fprintf(&b, " parser=%q", *x.Parser)
	}
	if x.Ref != nil {
		b.WriteString(" " + x.Ref.str(!ignoreAsc))
	}
	return b.String()
}

// String describes the index exactly as declared.
func (x *Index) String() string { return x.str(false) }

// Sig describes what the index is; two indexes are the same if and only
// if they have the same Sig.
func (x *Index) Sig() string { return x.str(true) }

func (o Opt) String() string { return fmt.Sprintf("%s = %q quoted=%v", o.Key, o.Val, o.Quoted) }

// Head describes the table apart from its members.
func (t *Table) Head() string {
	s := fmt.Sprintf("TABLE %q temp=%v ifnotexists=%v", t.Name, t.Temp, t.IfNotExists)
	if t.HasLike {
		s += fmt.Sprintf(" like=%q", t.Like)
	}
	return s
}

func (t *Table) String() string {
	var b strings.Builder
	b.WriteString(t.Head() + "\n")
	for _, c := range t.Cols {
		b.WriteString("  col " + c.String() + "\n")
	}
	for _, x := range t.Idx {
		b.WriteString("  idx " + x.String() + "\n")
	}
	for _, o := range t.Opts {
		b.WriteString("  opt " + o.String() + "\n")
	}
	return b.String()
}

func (s *Schema) String() string {
	var b strings.Builder
	for _, t := range s.Tables {
		b.WriteString(t.String())
	}
	return b.String()
}

// Decode returns what the body of a MySQL string literal denotes, after its
// doubled quotes have been replaced.
func Decode(s string) string {
	if !strings.Contains(s, `\`) {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c != '\\' || i+1 >= len(s) {
			b.WriteByte(c)
			continue
		}
		i++
		switch s[i] {
		case '0':
			b.WriteByte(0)
		case 'b':
			b.WriteByte(8)
		case 'n':
			b.WriteByte('\n')
		case 'r':
			b.WriteByte('\r')
		case 't':
			b.WriteByte('\t')
		case 'Z':
			b.WriteByte(26)
		case '%', '_':
			b.WriteByte('\\')
			b.WriteByte(s[i])
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}
