package gen

import (
	"strings"

	"verifharness/pbt"
	"verifharness/ref"
)

// Flags of types: see kinds.
type typeInfo struct {
	name string
	// l optional length, D both length and decimals or none, d optional length and decimals,
	// u unsigned and zerofill, c character attributes, v values
	flags string
}

// Types are the supported column types and what the parser accepts after them.
var Types = []typeInfo{
	{"INT", "lu"}, {"VARCHAR", "lc"}, {"TINYINT", "lu"}, {"SMALLINT", "lu"}, {"MEDIUMINT", "lu"}, {"INTEGER", "lu"}, {"BIGINT", "lu"},
	{"BIT", "l"}, {"REAL", "Du"}, {"DOUBLE", "Du"}, {"FLOAT", "Du"}, {"DECIMAL", "du"}, {"NUMERIC", "du"},
	{"DATE", ""}, {"TIME", "l"}, {"TIMESTAMP", "l"}, {"DATETIME", "l"}, {"YEAR", ""},
	{"CHAR", "lc"}, {"BINARY", "l"}, {"VARBINARY", "l"},
	{"TINYBLOB", ""}, {"BLOB", ""}, {"MEDIUMBLOB", ""}, {"LONGBLOB", ""},
	{"TINYTEXT", "c"}, {"TEXT", "lc"}, {"MEDIUMTEXT", "c"}, {"LONGTEXT", "c"},
	{"ENUM", "vs"}, {"SET", "vs"}, {"BOOLEAN", ""}, {"BOOL", ""}, {"JSON", ""}, {"GEOMETRY", ""},
}

// Name of the type.
func (ti typeInfo) Name() string { return ti.name }

func (ti typeInfo) has(c byte) bool {
	for i := 0; i < len(ti.flags); i++ {
		if ti.flags[i] == c {
			return true
		}
	}
	return false
}

func info(name string) typeInfo {
	for _, ti := range Types {
		if ti.name == name {
			return ti
		}
	}
	return typeInfo{name, ""}
}

// Conf says what schemas to generate.
type Conf struct {
	MaxTables, MaxCols, MaxIdx int
	Like                       bool // tables may be declared LIKE another one
	Temp                       bool // TEMPORARY, IF NOT EXISTS
	Opts                       bool // table options
	Unnamed                    bool // keys may be unnamed
	OddIdx                     bool // keys may refer to columns that do not exist, repeat columns
}

// Full generates everything.
var Full = Conf{MaxTables: 6, MaxCols: 12, MaxIdx: 6, Like: true, Temp: true, Opts: true, Unnamed: true}

// Migratable generates what a migration can express.
var Migratable = Conf{MaxTables: 4, MaxCols: 8, MaxIdx: 5, Opts: true, Unnamed: true}

var charsets = []string{"utf8", "utf8mb4", "latin1", "binary", "ascii", "UTF8", "sjis", "utf8mb3", "cp932", "ucs2", "utf16", "utf32", "eucjpms", "LATIN1", "Utf8mb4"}
var collations = []string{"utf8_bin", "utf8mb4_general_ci", "latin1_swedish_ci", "binary", "utf8mb4_0900_ai_ci", "UTF8_BIN", "utf8_general_ci", "utf8mb3_general_ci", "utf8mb4_bin", "ascii_general_ci", "utf8mb4_unicode_ci", "ujis_japanese_ci"}

// Schema returns a schema.
func (g *G) Schema(cf Conf) *ref.Schema {
	s := &ref.Schema{}
	used := map[string]bool{}
	lo := 1
	if g.Chance(1, 30) {
		lo = 0
	}
	g.Many(lo, cf.MaxTables, func(int) { s.Tables = append(s.Tables, g.Table(cf, s, used)) })
	if g.Chance(1, 250) {
		g.Bulk(s, cf, used)
	}
	return s
}

// Table returns a new table for the schema.
func (g *G) Table(cf Conf, s *ref.Schema, used map[string]bool) *ref.Table {
	t := &ref.Table{Name: g.Fresh(used)}
	if cf.Temp {
		t.Temp = g.Chance(1, 12)
		t.IfNotExists = g.Chance(1, 12)
	}
	if cf.Like && g.Chance(1, 15) {
		t.HasLike = true
		t.Like = g.Ident()
		return t
	}
	cols := map[string]bool{}
	pk := false
	g.Many(1, cf.MaxCols, func(int) {
		c := g.Col(g.Fresh(cols))
		g.inlineKey(c, &pk)
		t.Cols = append(t.Cols, c)
	})
	g.Many(0, cf.MaxIdx, func(int) { g.AddIndex(t, s, cf) })
	if cf.Opts {
		t.Opts = g.Options()
	}
	return t
}

// inlineKey declares keys along with the column.
func (g *G) inlineKey(c *ref.Col, pk *bool) {
	k := g.Weighted(16, 2, 1, 1, 1)
	c.Unique = k == 3 || k == 4
	if *pk {
		return
	}
	c.Primary = k == 1 || k == 4
	c.Key = k == 2
	*pk = c.Primary || c.Key
}

// Col returns a column.
func (g *G) Col(name string) *ref.Col {
	c := &ref.Col{Name: name}
	g.SetType(c)
	if g.Chance(1, 3) {
		c.Null = g.Range(1, 2)
	}
	g.SetDefault(c)
	if numericInt(c.Type) && g.Chance(1, 6) {
		c.AutoInc = true
		c.Default = nil
	}
	if g.Chance(1, 5) {
		c.Comment = ref.P(g.Str())
	}
	if (c.Type == "TIMESTAMP" || c.Type == "DATETIME") && g.Chance(1, 4) {
		c.AutoUpdate = ref.P(pbt.Pick(g.T, "CURRENT_TIMESTAMP", "LOCALTIME", "LOCALTIMESTAMP"))
	}
	return c
}

func numericInt(t string) bool {
	switch t {
	case "INT", "INTEGER", "TINYINT", "SMALLINT", "MEDIUMINT", "BIGINT":
		return true
	}
	return false
}

// SetType gives the column a type along with everything that depends on it.
func (g *G) SetType(c *ref.Col) {
	ti := Types[0]
	if g.Chance(3, 4) {
		ti = Types[g.N(len(Types))]
	}
	c.Type = ti.name
	c.Len, c.Dec, c.Values, c.Charset, c.Collate = nil, nil, nil, nil, nil
	c.Unsigned, c.Zerofill, c.Binary = false, false, false
	c.Default, c.AutoInc, c.AutoUpdate = nil, false, nil
	g.SetLen(c)
	if ti.has('u') {
		c.Unsigned = g.Chance(1, 4)
		c.Zerofill = g.Chance(1, 6)
	}
	if ti.has('c') {
		c.Binary = g.Chance(1, 8)
	}
	if ti.has('c') || ti.has('s') {
		if g.Chance(1, 6) {
			c.Charset = ref.P(charsets[g.N(len(charsets))])
		}
		if g.Chance(1, 6) {
			c.Collate = ref.P(collations[g.N(len(collations))])
		}
	}
	if ti.has('v') {
		g.Many(1, 5, func(int) { c.Values = append(c.Values, g.Str()) })
	}
}

// SetLen gives the column another length.
func (g *G) SetLen(c *ref.Col) {
	ti := info(c.Type)
	c.Len, c.Dec = nil, nil
	switch {
	case ti.has('l') && g.Bool():
		c.Len = ref.P(g.Uint())
	case ti.has('D') && g.Bool():
		c.Len, c.Dec = ref.P(g.Uint()), ref.P(g.Uint())
	case ti.has('d') && g.Bool():
		c.Len = ref.P(g.Uint())
		if g.Bool() {
			c.Dec = ref.P(g.Uint())
		}
	}
}

// SetDefault gives the column another default value.
func (g *G) SetDefault(c *ref.Col) {
	c.Default = nil
	if ref.NoDefault(c.Type) && g.Chance(5, 6) || g.Bool() {
		return
	}
	switch c.Type {
	case "BOOL", "BOOLEAN":
		c.Default = &ref.Default{Val: pbt.Pick(g.T, "0", "1", "TRUE", "FALSE", "NULL")}
		if c.Default.Val < "9" && g.Chance(1, 3) {
			c.Default.Quoted = true
		}
		return
	case "TIMESTAMP", "DATETIME", "DATE", "TIME", "YEAR":
		switch g.N(4) {
		case 0:
			c.Default = &ref.Default{Val: "CURRENT_TIMESTAMP"}
			return
		case 1:
			c.Default = &ref.Default{Val: "NOW()"}
			return
		}
	}
	switch g.Weighted(3, 3, 2, 1) {
	case 0:
		c.Default = &ref.Default{Val: g.Str(), Quoted: true}
	case 1:
		c.Default = &ref.Default{Val: g.Number()}
	case 2:
		c.Default = &ref.Default{Val: g.Number(), Quoted: true}
		if g.Chance(1, 4) {
			c.Default.Val = pbt.Pick(g.T, "1e5", "1.5e-3", "1e", "--1", "1 ", "0x1F", "1e+5", "١", "-", ".", "1.2.3")
		}
	default:
		c.Default = &ref.Default{Val: pbt.Pick(g.T, "NULL", "TRUE", "FALSE")}
	}
}

// names returns the names of keys that are taken in the normalized table.
func names(t *ref.Table) map[string]bool {
	m := map[string]bool{}
	for _, x := range t.Normalize().Idx {
		if x.Name != nil {
			m[fold(*x.Name)] = true
		}
		if x.Symbol != nil {
			m[fold(*x.Symbol)] = true
		}
	}
	return m
}

func sigs(t *ref.Table) map[string]bool {
	m := map[string]bool{}
	for _, x := range t.Normalize().Idx {
		m[x.Sig()] = true
	}
	return m
}

func hasPK(t *ref.Table) bool {
	for _, x := range t.Normalize().Idx {
		if x.Kind == ref.Primary {
			return true
		}
	}
	return false
}

// AddIndex adds a key to the table, unless it turns out to be impossible.
func (g *G) AddIndex(t *ref.Table, s *ref.Schema, cf Conf) {
	x := g.Index(t, s, cf)
	if x != nil {
		t.Idx = append(t.Idx, x)
	}
}

// Index returns a key that fits into the table.
func (g *G) Index(t *ref.Table, s *ref.Schema, cf Conf) *ref.Index {
	taken := names(t)
	x := &ref.Index{}
	switch g.Weighted(5, 3, 4, 4, 2, 2) {
	case 0:
		x.Kind = ref.Normal
	case 1:
		x.Kind = ref.Primary
		if hasPK(t) {
			x.Kind = ref.Normal
		}
	case 2:
		x.Kind = ref.Unique
	case 3:
		x.Kind = ref.Foreign
	case 4:
		x.Kind = ref.Fulltext
	case 5:
		x.Kind = ref.Spatial
	}
	x.Cols = g.idxCols(t, x.Kind, cf)
	named := func(num, den int) bool { return !cf.Unnamed || g.Chance(num, den) }
	switch x.Kind {
	case ref.Primary:
		if g.Chance(1, 6) {
			x.Symbol = ref.P(g.Fresh(taken))
		}
		g.using(x)
	case ref.Normal:
		if named(4, 5) {
			x.Name = ref.P(g.Fresh(taken))
		}
		g.using(x)
	case ref.Unique:
		if named(4, 5) {
			x.Name = ref.P(g.Fresh(taken))
		}
		if g.Chance(1, 6) {
			if x.Name != nil && g.Chance(1, 4) {
				x.Symbol = ref.P(*x.Name)
			} else {
				x.Symbol = ref.P(g.Fresh(taken))
			}
		}
		g.using(x)
	case ref.Fulltext, ref.Spatial:
		if named(4, 5) {
			x.Name = ref.P(g.Fresh(taken))
		}
		if x.Kind == ref.Fulltext && g.Chance(1, 3) {
			x.Parser = ref.P(pbt.Pick(g.T, "ngram", "mecab", g.Ident()))
		}
	case ref.Foreign:
		if named(3, 4) {
			// a key of the same name may have been declared before
			if b := g.backing(t); b != nil && g.Chance(1, 3) {
				x.Symbol = ref.P(*b.Name)
				x.Cols = nil
				for _, c := range b.Cols {
					x.Cols = append(x.Cols, ref.IdxCol{Name: c.Name})
				}
			} else {
				x.Symbol = ref.P(g.Fresh(taken))
			}
		}
		if g.Chance(1, 6) {
			if x.Symbol != nil && g.Chance(1, 4) {
				x.Name = ref.P(*x.Symbol)
			} else {
				x.Name = ref.P(g.Fresh(taken))
			}
		}
		x.Ref = g.Ref(s, t, len(x.Cols))
	}
	if sigs(t)[x.Sig()] {
		return nil
	}
	return x
}

// backing returns an index that a foreign key may take its name from.
func (g *G) backing(t *ref.Table) *ref.Index {
	symbols := map[string]bool{}
	for _, x := range t.Idx {
		if x.Symbol != nil {
			symbols[*x.Symbol] = true
		}
	}
	var l []*ref.Index
	for _, x := range t.Idx {
		if (x.Kind == ref.Normal || x.Kind == ref.Unique) && x.Name != nil && !symbols[*x.Name] {
			l = append(l, x)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[g.N(len(l))]
}

func (g *G) using(x *ref.Index) {
	if g.Chance(1, 4) {
		x.Using = pbt.Pick(g.T, "BTREE", "HASH")
	}
}

func (g *G) idxCols(t *ref.Table, kind string, cf Conf) []ref.IdxCol {
	n := 1 + g.Weighted(6, 3, 1)
	var l []ref.IdxCol
	perm := g.Perm(len(t.Cols))
	for i := 0; i < n; i++ {
		c := ref.IdxCol{}
		switch {
		case cf.OddIdx && g.Chance(1, 8):
			c.Name = g.Ident()
		case i < len(t.Cols):
			c.Name = t.Cols[perm[i]].Name
		default:
			continue
		}
		if kind != ref.Foreign && kind != ref.Fulltext && kind != ref.Spatial {
			if g.Chance(1, 6) {
				c.Len = ref.P(g.Uint())
			}
			if g.Chance(1, 5) {
				c.Dir = pbt.Pick(g.T, "ASC", "DESC")
			}
		} else if g.Chance(1, 12) {
			// of no use, but allowed
			if kind == ref.Fulltext && g.Chance(1, 3) {
				c.Len = ref.P(g.Uint())
			} else {
				c.Dir = pbt.Pick(g.T, "ASC", "DESC")
			}
		}
		l = append(l, c)
	}
	return l
}

// Ref returns a reference to some table.
func (g *G) Ref(s *ref.Schema, t *ref.Table, n int) *ref.Ref {
	r := &ref.Ref{}
	target := t
	switch g.Weighted(4, 2, 3) {
	case 0:
		if len(s.Tables) > 0 {
			target = s.Tables[g.N(len(s.Tables))]
		}
	case 1:
	case 2:
		target = nil
	}
	if target != nil && len(target.Cols) >= n {
		r.Table = target.Name
		p := g.Perm(len(target.Cols))
		for i := 0; i < n; i++ {
			r.Cols = append(r.Cols, ref.IdxCol{Name: target.Cols[p[i]].Name})
		}
	} else {
		r.Table = g.Ident()
		for i := 0; i < n; i++ {
			r.Cols = append(r.Cols, ref.IdxCol{Name: g.Ident()})
		}
	}
	for i := range r.Cols {
		if g.Chance(1, 8) {
			r.Cols[i].Dir = pbt.Pick(g.T, "ASC", "DESC")
		}
	}
	if g.Chance(1, 4) {
		r.Match = pbt.Pick(g.T, "FULL", "PARTIAL", "SIMPLE")
	}
	if g.Chance(1, 3) {
		r.OnDelete = g.Action()
	}
	if g.Chance(1, 3) {
		r.OnUpdate = g.Action()
	}
	return r
}

// Action returns a reference option.
func (g *G) Action() string {
	return pbt.Pick(g.T, "CASCADE", "RESTRICT", "SET NULL", "NO ACTION")
}

// NameOption tells whether the value of the option is a name, which may be
// quoted.
func NameOption(key string) bool {
	return key == "ENGINE" || key == "DEFAULT CHARACTER SET" || key == "DEFAULT COLLATE"
}

// bareOption tells whether the value of the option can be written without
// quotes.
func bareOption(o ref.Opt) bool {
	v := strings.ToUpper(o.Val)
	return !NameOption(o.Key) || CanBeBare(o.Val) || (o.Key == "ENGINE") == (v == "MEMORY") && (v == "MEMORY" || v == "BINARY")
}

// Options returns table options.
func (g *G) Options() []ref.Opt {
	var l []ref.Opt
	if g.Chance(2, 3) {
		return l
	}
	perm := g.Perm(len(optKinds))
	g.Many(1, len(optKinds), func(i int) { l = append(l, g.Option(perm[i])) })
	return l
}

var optKinds = []string{"ENGINE", "AUTO_INCREMENT", "DEFAULT CHARACTER SET", "DEFAULT COLLATE", "COMMENT", "AVG_ROW_LENGTH", "CHECKSUM",
	"CONNECTION", "DATA DIRECTORY", "DELAY_KEY_WRITE", "INDEX DIRECTORY", "INSERT_METHOD", "KEY_BLOCK_SIZE", "MAX_ROWS", "MIN_ROWS",
	"PACK_KEYS", "PASSWORD", "ROW_FORMAT", "STATS_AUTO_RECALC", "STATS_PERSISTENT", "STATS_SAMPLE_PAGES"}

// Option returns a table option of the given kind.
func (g *G) Option(i int) ref.Opt {
	o := ref.Opt{Key: optKinds[i]}
	odd := g.Chance(1, 8)
	switch o.Key {
	case "ENGINE":
		o.Val = pbt.Pick(g.T, "InnoDB", "MyISAM", "MEMORY", "innodb", "ARCHIVE", "Memory")
	case "DEFAULT CHARACTER SET":
		o.Val = charsets[g.N(len(charsets))]
	case "DEFAULT COLLATE":
		o.Val = collations[g.N(len(collations))]
	case "INSERT_METHOD":
		o.Val = pbt.Pick(g.T, "NO", "FIRST", "LAST")
	case "ROW_FORMAT":
		o.Val = pbt.Pick(g.T, "DYNAMIC", "DEFAULT", "FIXED", "COMPRESSED", "REDUNDANT", "COMPACT", "compact")
	case "PACK_KEYS", "STATS_AUTO_RECALC", "STATS_PERSISTENT":
		o.Val = pbt.Pick(g.T, "0", "1", "DEFAULT")
	case "COMMENT", "CONNECTION", "DATA DIRECTORY", "INDEX DIRECTORY", "PASSWORD":
		o.Val, o.Quoted = g.Str(), true
	default:
		o.Val = g.Uint()
	}
	if odd && NameOption(o.Key) {
		o.Val = g.Ident()
		for _, w := range reservedOnly {
			// the formatter does not know that it can not be bare
			if strings.EqualFold(w, o.Val) {
				o.Val += "x"
			}
		}
	}
	return o
}
