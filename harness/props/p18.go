package props

import (
	"fmt"
	"strings"

	"github.com/schemalex/schemalex/model"

	"verifharness/gen"
	"verifharness/obs"
	"verifharness/pbt"
	"verifharness/ref"
)

func init() {
	register(&Prop{
		ID:    "P18",
		Rule:  "a sequence of at least five calls was made; distinct sequences are counted",
		Run:   p18,
		Quick: 40000, Thorough: 2000000,
	})
}

// Records of what was done to an object, along with the object.

type colRec struct {
	m       model.TableColumn
	name    string
	tableID string
	typ     model.ColumnType
	len     *string
	dec     *string
	str     map[string]string // character set, collation, comment, update
	def     *ref.Default
	enum    []string
	set     []string
	null    model.NullState
	flag    map[string]bool
}

func newColRec(name string) *colRec {
	return &colRec{m: model.NewTableColumn(name), name: name, str: map[string]string{}, flag: map[string]bool{}}
}

func (r *colRec) clone(m model.TableColumn) *colRec {
	n := *r
	n.m = m
	n.str, n.flag = map[string]string{}, map[string]bool{}
	for k, v := range r.str {
		n.str[k] = v
	}
	for k, v := range r.flag {
		n.flag[k] = v
	}
	return &n
}

var colStrs = []string{"charset", "collation", "comment", "update"}
var colFlags = []string{"auto increment", "binary", "key", "primary", "unique", "unsigned", "zerofill"}

func (r *colRec) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "column %q table=%q type=%d null=%d", r.name, r.tableID, r.typ, r.null)
	if r.len != nil {
		fmt.Fprintf(&b, " length=%q", *r.len)
		if r.dec != nil {
			fmt.Fprintf(&b, ",%q", *r.dec)
		}
	}
	for _, k := range colStrs {
		if v, ok := r.str[k]; ok {
			fmt.Fprintf(&b, " %s=%q", k, v)
		}
	}
	if r.def != nil {
		fmt.Fprintf(&b, " default=%q %v", r.def.Val, r.def.Quoted)
	}
	fmt.Fprintf(&b, " enum=%q set=%q", r.enum, r.set)
	for _, k := range colFlags {
		if r.flag[k] {
			b.WriteString(" " + k)
		}
	}
	return b.String()
}

func drain(ch chan string) []string {
	var l []string
	for s := range ch {
		l = append(l, s)
	}
	return l
}

// seenCol is what can be seen of a column, in the form of colRec.String.
func seenCol(m model.TableColumn) string {
	r := &colRec{name: m.Name(), tableID: m.TableID(), typ: m.Type(), null: m.NullState(), str: map[string]string{}, flag: map[string]bool{
		"auto increment": m.IsAutoIncrement(), "binary": m.IsBinary(), "key": m.IsKey(), "primary": m.IsPrimary(),
		"unique": m.IsUnique(), "unsigned": m.IsUnsigned(), "zerofill": m.IsZeroFill()}}
	if m.HasLength() {
		r.len = ref.P(m.Length().Length())
		if m.Length().HasDecimal() {
			r.dec = ref.P(m.Length().Decimal())
		}
	}
	if m.HasCharacterSet() {
		r.str["charset"] = m.CharacterSet()
	}
	if m.HasCollation() {
		r.str["collation"] = m.Collation()
	}
	if m.HasComment() {
		r.str["comment"] = m.Comment()
	}
	if m.HasAutoUpdate() {
		r.str["update"] = m.AutoUpdate()
	}
	if m.HasDefault() {
		r.def = &ref.Default{Val: m.Default(), Quoted: m.IsQuotedDefault()}
	}
	r.enum, r.set = drain(m.EnumValues()), drain(m.SetValues())
	if m.HasEnumValues() != (len(r.enum) > 0) || m.HasSetValues() != (len(r.set) > 0) {
		r.name += "(inconsistent values)"
	}
	return r.String()
}

type icRec struct {
	m    model.IndexColumn
	name string
	len  *string
	dir  model.IndexColumnSortDirection
}

func (r *icRec) String() string {
	s := fmt.Sprintf("%q %d", r.name, r.dir)
	if r.len != nil {
		s += fmt.Sprintf(" (%q)", *r.len)
	}
	return s
}

func seenIC(m model.IndexColumn) string {
	r := &icRec{name: m.Name()}
	if m.HasLength() {
		r.len = ref.P(m.Length())
	}
	if m.IsAscending() {
		r.dir += model.SortDirectionAscending
	}
	if m.IsDescending() {
		r.dir += model.SortDirectionDescending
	}
	if m.HasSortDirection() != (r.dir != 0) {
		r.name += "(inconsistent direction)"
	}
	return r.String()
}

func (r *icRec) clone(m model.IndexColumn) *icRec {
	n := *r
	n.m = m
	return &n
}

type refRec struct {
	m        model.Reference
	table    string
	cols     []*icRec
	match    model.ReferenceMatch
	upd, del model.ReferenceOption
}

func (r *refRec) String() string {
	return fmt.Sprintf("reference %q %v match=%d delete=%d update=%d", r.table, r.cols, r.match, r.del, r.upd)
}

func seenCols(m model.ColumnContainer) string {
	l := []string{}
	for c := range m.Columns() {
		l = append(l, seenIC(c))
	}
	return "[" + strings.Join(l, " ") + "]"
}

func seenRef(m model.Reference) string {
	match := model.ReferenceMatchNone
	for _, x := range []struct {
		on bool
		m  model.ReferenceMatch
	}{{m.MatchFull(), model.ReferenceMatchFull}, {m.MatchPartial(), model.ReferenceMatchPartial}, {m.MatchSimple(), model.ReferenceMatchSimple}} {
		if x.on {
			match += x.m
		}
	}
	return fmt.Sprintf("reference %q %v match=%d delete=%d update=%d", m.TableName(), seenCols(m), match, m.OnDelete(), m.OnUpdate())
}

type optRec struct {
	key, val string
	quoted   bool
}

type idxRec struct {
	m      model.Index
	kind   model.IndexKind
	symbol *string
	name   *string
	typ    model.IndexType
	cols   []*icRec
	opts   []optRec
	ref    *refRec
}

func (r *idxRec) String() string { return r.str(fmt.Sprint(r.cols)) }

func (r *idxRec) str(cols string) string {
	s := fmt.Sprintf("index kind=%d type=%d %s %v", r.kind, r.typ, cols, r.opts)
	if r.symbol != nil {
		s += fmt.Sprintf(" symbol=%q", *r.symbol)
	}
	if r.name != nil {
		s += fmt.Sprintf(" name=%q", *r.name)
	}
	if r.ref != nil {
		s += " " + r.ref.String()
	}
	return s
}

func seenIdx(m model.Index) string {
	r := &idxRec{}
	for _, x := range []struct {
		on bool
		k  model.IndexKind
	}{{m.IsPrimaryKey(), model.IndexKindPrimaryKey}, {m.IsNormal(), model.IndexKindNormal}, {m.IsUnique(), model.IndexKindUnique},
		{m.IsFullText(), model.IndexKindFullText}, {m.IsSpatial(), model.IndexKindSpatial}, {m.IsForeignKey(), model.IndexKindForeignKey}} {
		if x.on {
			r.kind += x.k
		}
	}
	if m.IsBtree() {
		r.typ += model.IndexTypeBtree
	}
	if m.IsHash() {
		r.typ += model.IndexTypeHash
	}
	if m.HasType() != (r.typ != 0) {
		r.typ = -1
	}
	if m.HasSymbol() {
		r.symbol = ref.P(m.Symbol())
	}
	if m.HasName() {
		r.name = ref.P(m.Name())
	}
	for o := range m.Options() {
		r.opts = append(r.opts, optRec{o.Key(), o.Value(), o.NeedQuotes()})
	}
	s := r.str(seenCols(m))
	if x := m.Reference(); x != nil {
		s += " " + seenRef(x)
	}
	return s
}

type tabRec struct {
	m         model.Table
	name      string
	temp, ine bool
	like      *string
	cols      []*colRec
	idx       []*idxRec
	opts      []optRec
}

type dbRec struct {
	m    model.Database
	name string
	ine  bool
}

type snapshot struct {
	what string
	want []string
	got  func() []string
}

// world is everything that was made so far.
type world struct {
	c     *C
	log   []string
	cols  []*colRec
	lists [][]model.IndexColumn // that were added to indexes and references
	ics   []*icRec
	refs  []*refRec
	idx   []*idxRec
	tabs  []*tabRec
	dbs   []*dbRec
	snaps []snapshot
	stmts model.Stmts
	srecs []string // ids
}

func (w *world) logf(f string, a ...interface{}) {
	w.log = append(w.log, fmt.Sprintf(f, a...))
}

func p18(c *C) {
	w := &world{c: c}
	w.tabs = append(w.tabs, &tabRec{m: model.NewTable("t"), name: "t"})
	w.cols = append(w.cols, newColRec("a"))
	w.idx = append(w.idx, &idxRec{m: model.NewIndex(model.IndexKindNormal, "table#t"), kind: model.IndexKindNormal})
	w.refs = append(w.refs, &refRec{m: model.NewReference()})
	w.ics = append(w.ics, &icRec{m: model.NewIndexColumn("a"), name: "a"})
	w.dbs = append(w.dbs, &dbRec{m: model.NewDatabase("d"), name: "d"})
	defer func() {
		c.Note("calls", Clip(strings.Join(w.log, "\n"), 6000))
		for _, l := range w.log {
			if i := strings.IndexByte(l, '('); i > 0 {
				l = strings.TrimRight(strings.Map(func(r rune) rune {
					if r >= '0' && r <= '9' {
						return -1
					}
					return r
				}, l[:i]), "(")
			} else {
				l = strings.Fields(l)[0]
			}
			c.Class(strings.TrimRight(l, "0123456789"))
		}
		if len(w.log) >= 5 {
			c.NonTrivial(strings.Join(w.log, "\n"))
		}
	}()
	for n := pbt.Pick(c.T, 5, 10, 20, 40, 80) + c.N(10); n > 0; n-- {
		// a step can be left out, to make a sequence simpler
		c.Span(func() {
			if !c.Chance(39, 40) {
				return
			}
			w.step()
			w.check()
		})
	}
	for _, s := range w.snaps {
		w.same(s.what, strings.Join(s.want, "\n"), strings.Join(s.got(), "\n"))
	}
}

func any1[X any](c *C, l []X) X { return l[c.N(len(l))] }

// same compares what is recorded with what is seen.
func (w *world) same(what, want, got string) {
	if want != got {
		w.c.Failf("%s is not what the calls make it:\nexpected %s\ngot      %s", what, want, got)
	}
}

// name returns a name that may be in use already.
func (w *world) newName() string {
	if w.c.Chance(1, 3) {
		return pbt.Pick(w.c.T, "a", "b", "A", "", "a ", "`a`", "a#b", "tablecol#a")
	}
	return w.c.Ident()
}

func (w *world) step() {
	c := w.c
	switch c.Weighted(3, 3, 2, 1, 1, 1, 14, 5, 5, 7, 12, 2, 3, 4, 3) {
	case 0:
		if c.Chance(1, 150) {
			w.many()
			return
		}
		n := w.newName()
		w.cols = append(w.cols, newColRec(n))
		w.logf("col%d = NewTableColumn(%q)", len(w.cols)-1, n)
	case 1:
		k := model.IndexKind(c.Range(1, 6))
		t := any1(c, w.tabs)
		w.idx = append(w.idx, &idxRec{m: model.NewIndex(k, t.m.ID()), kind: k})
		w.logf("idx%d = NewIndex(%s, %q)", len(w.idx)-1, k, t.m.ID())
	case 2:
		n := w.newName()
		w.tabs = append(w.tabs, &tabRec{m: model.NewTable(n), name: n})
		w.logf("tab%d = NewTable(%q)", len(w.tabs)-1, n)
	case 3:
		w.refs = append(w.refs, &refRec{m: model.NewReference()})
		w.logf("ref%d = NewReference()", len(w.refs)-1)
	case 4:
		n := w.newName()
		w.ics = append(w.ics, &icRec{m: model.NewIndexColumn(n), name: n})
		w.logf("ic%d = NewIndexColumn(%q)", len(w.ics)-1, n)
	case 5:
		n := w.newName()
		w.dbs = append(w.dbs, &dbRec{m: model.NewDatabase(n), name: n})
		w.logf("db%d = NewDatabase(%q)", len(w.dbs)-1, n)
	case 6:
		w.setCol()
	case 7:
		w.setIC()
	case 8:
		w.setRef()
	case 9:
		w.setIdx()
	case 10:
		w.setTab()
	case 11:
		i := c.N(len(w.dbs))
		v := c.Bool()
		r := w.dbs[i].m.SetIfNotExists(v)
		w.chained(r == w.dbs[i].m)
		w.dbs[i].ine = v
		w.logf("db%d.SetIfNotExists(%v)", i, v)
	case 12:
		w.clone()
	case 13:
		w.iterate()
	case 14:
		var st model.Stmt
		switch c.N(4) {
		case 0:
			st = any1(c, w.tabs).m
		case 1:
			st = any1(c, w.dbs).m
		case 2:
			st = any1(c, w.cols).m
		case 3:
			st = any1(c, w.idx).m
		}
		w.stmts = append(w.stmts, st)
		w.logf("list = append(list, %s)", st.ID())
	}
}

// many makes a table with a lot of columns, or keys, or options.
func (w *world) many() {
	c := w.c
	t := &tabRec{m: model.NewTable("many"), name: "many"}
	n := pbt.Pick(c.T, 20, 70, 140, 300) + c.N(5)
	what := c.N(3)
	w.logf("tab%d = NewTable(\"many\") with %d %s", len(w.tabs), n, []string{"columns", "indexes", "options"}[what])
	for i := 0; i < n; i++ {
		switch what {
		case 0:
			r := newColRec(fmt.Sprintf("m%d", i))
			t.m.AddColumn(r.m)
			r.tableID = t.m.ID()
			t.cols = append(t.cols, r)
		case 1:
			r := &idxRec{m: model.NewIndex(model.IndexKindNormal, t.m.ID()), kind: model.IndexKindNormal, name: ref.P(fmt.Sprintf("m%d", i))}
			r.m.SetName(*r.name)
			t.m.AddIndex(r.m)
			t.idx = append(t.idx, r)
		case 2:
			o := optRec{fmt.Sprintf("m%d", i), "v", i%2 == 0}
			t.m.AddOption(model.NewTableOption(o.key, o.val, o.quoted))
			t.opts = append(t.opts, o)
		}
	}
	// one of them can be changed later
	if what == 0 {
		w.cols = append(w.cols, t.cols[c.N(n)])
	} else if what == 1 {
		w.idx = append(w.idx, t.idx[c.N(n)])
	}
	w.tabs = append(w.tabs, t)
}

func (w *world) chained(ok bool) {
	if !ok {
		w.c.Failf("a setter does not return its receiver")
	}
}

func (w *world) setCol() {
	c := w.c
	i := c.N(len(w.cols))
	r := w.cols[i]
	var ret model.TableColumn
	call := ""
	b := func() bool { return !c.Chance(1, 3) }
	switch c.N(19) {
	case 0:
		v := obs.Type(gen.Types[c.N(len(gen.Types))].Name())
		ret, r.typ, call = r.m.SetType(v), v, fmt.Sprintf("SetType(%s)", v)
	case 1:
		v := c.Uint()
		l := model.NewLength(v)
		r.len, r.dec = &v, nil
		call = fmt.Sprintf("SetLength(%q)", v)
		if c.Bool() {
			d := c.Uint()
			l.SetDecimal(d)
			r.dec = &d
			call = fmt.Sprintf("SetLength(%q,%q)", v, d)
		}
		ret = r.m.SetLength(l)
	case 2:
		v := c.Str()
		ret, r.str["charset"], call = r.m.SetCharacterSet(v), v, fmt.Sprintf("SetCharacterSet(%q)", v)
	case 3:
		v := c.Str()
		ret, r.str["collation"], call = r.m.SetCollation(v), v, fmt.Sprintf("SetCollation(%q)", v)
	case 4:
		v, q := c.Str(), c.Bool()
		ret, r.def, call = r.m.SetDefault(v, q), &ref.Default{Val: v, Quoted: q}, fmt.Sprintf("SetDefault(%q, %v)", v, q)
	case 5:
		v := c.Str()
		ret, r.str["comment"], call = r.m.SetComment(v), v, fmt.Sprintf("SetComment(%q)", v)
	case 6:
		v := c.Str()
		ret, r.str["update"], call = r.m.SetAutoUpdate(v), v, fmt.Sprintf("SetAutoUpdate(%q)", v)
	case 7, 8:
		var v []string
		c.Many(0, 4, func(int) { v = append(v, c.Str()) })
		if c.Bool() {
			ret, r.enum, call = r.m.SetEnumValues(append([]string(nil), v...)), v, fmt.Sprintf("SetEnumValues(%q)", v)
		} else {
			ret, r.set, call = r.m.SetSetValues(append([]string(nil), v...)), v, fmt.Sprintf("SetSetValues(%q)", v)
		}
	case 9:
		v := pbt.Pick(c.T, model.NullStateNotNull, model.NullStateNull, model.NullStateNone)
		ret, r.null, call = r.m.SetNullState(v), v, fmt.Sprintf("SetNullState(%d)", v)
	case 10:
		v := b()
		ret, r.flag["auto increment"], call = r.m.SetAutoIncrement(v), v, fmt.Sprintf("SetAutoIncrement(%v)", v)
	case 11:
		v := b()
		ret, r.flag["binary"], call = r.m.SetBinary(v), v, fmt.Sprintf("SetBinary(%v)", v)
	case 12:
		v := b()
		ret, r.flag["key"], call = r.m.SetKey(v), v, fmt.Sprintf("SetKey(%v)", v)
	case 13:
		v := b()
		ret, r.flag["primary"], call = r.m.SetPrimary(v), v, fmt.Sprintf("SetPrimary(%v)", v)
	case 14:
		v := b()
		ret, r.flag["unique"], call = r.m.SetUnique(v), v, fmt.Sprintf("SetUnique(%v)", v)
	case 15:
		v := b()
		ret, r.flag["unsigned"], call = r.m.SetUnsigned(v), v, fmt.Sprintf("SetUnsigned(%v)", v)
	case 16:
		v := b()
		ret, r.flag["zerofill"], call = r.m.SetZeroFill(v), v, fmt.Sprintf("SetZeroFill(%v)", v)
	case 17:
		v := pbt.Pick(c.T, "table#x", "table#t", "x")
		ret, r.tableID, call = r.m.SetTableID(v), v, fmt.Sprintf("SetTableID(%q)", v)
	case 18:
		// reading changes nothing
		r.m.Normalize()
		r.m.NativeLength()
		ret, call = r.m, "Normalize()"
	}
	w.chained(ret == r.m)
	w.logf("col%d.%s", i, call)
}

func (w *world) setIC() {
	c := w.c
	i := c.N(len(w.ics))
	r := w.ics[i]
	if c.Bool() {
		v := c.Uint()
		w.chained(r.m.SetLength(v) == r.m)
		r.len = &v
		w.logf("ic%d.SetLength(%q)", i, v)
		return
	}
	r.dir = pbt.Pick(c.T, model.SortDirectionDescending, model.SortDirectionAscending, model.SortDirectionNone)
	r.m.SetSortDirection(r.dir)
	w.logf("ic%d.SetSortDirection(%d)", i, r.dir)
}

// someICs returns columns to be added to an index or a reference.
// The slice belongs to the caller, who may use it again, and change it.
func (w *world) someICs() (l []*icRec, ms []model.IndexColumn, s string) {
	if len(w.lists) > 0 {
		switch w.c.Weighted(4, 1, 1) {
		case 1:
			k := w.c.N(len(w.lists))
			for _, m := range w.lists[k] {
				for _, r := range w.ics {
					if r.m == m {
						l = append(l, r)
						break
					}
				}
			}
			return l, w.lists[k], fmt.Sprintf(" list %d again", k)
		case 2:
			k := w.c.N(len(w.lists))
			for i := range w.lists[k] {
				w.lists[k][i] = w.ics[w.c.N(len(w.ics))].m
			}
			w.logf("list %d is changed", k)
		}
	}
	ms = make([]model.IndexColumn, 0, w.c.Range(0, 4))
	w.c.Many(0, 3, func(int) {
		i := w.c.N(len(w.ics))
		l = append(l, w.ics[i])
		ms = append(ms, w.ics[i].m)
		s += fmt.Sprintf(" ic%d", i)
	})
	w.lists = append(w.lists, ms)
	return
}

func (w *world) setRef() {
	c := w.c
	i := c.N(len(w.refs))
	r := w.refs[i]
	var ret model.Reference
	switch c.N(5) {
	case 0:
		l, ms, s := w.someICs()
		r.m.AddColumns(ms...)
		r.cols = append(append([]*icRec(nil), r.cols...), l...)
		w.logf("ref%d.AddColumns(%s)", i, s)
		ret = r.m
	case 1:
		v := w.newName()
		ret, r.table = r.m.SetTableName(v), v
		w.logf("ref%d.SetTableName(%q)", i, v)
	case 2:
		v := model.ReferenceMatch(c.N(4))
		ret, r.match = r.m.SetMatch(v), v
		w.logf("ref%d.SetMatch(%s)", i, v)
	case 3:
		v := model.ReferenceOption(c.N(5))
		ret, r.del = r.m.SetOnDelete(v), v
		w.logf("ref%d.SetOnDelete(%s)", i, v)
	case 4:
		v := model.ReferenceOption(c.N(5))
		ret, r.upd = r.m.SetOnUpdate(v), v
		w.logf("ref%d.SetOnUpdate(%s)", i, v)
	}
	w.chained(ret == r.m)
}

func (w *world) setIdx() {
	c := w.c
	i := c.N(len(w.idx))
	r := w.idx[i]
	var ret model.Index
	switch c.Weighted(4, 2, 2, 2, 2, 2) {
	case 0:
		l, ms, s := w.someICs()
		r.m.AddColumns(ms...)
		r.cols = append(append([]*icRec(nil), r.cols...), l...)
		w.logf("idx%d.AddColumns(%s)", i, s)
		ret = r.m
	case 1:
		v := w.newName()
		ret, r.name = r.m.SetName(v), &v
		w.logf("idx%d.SetName(%q)", i, v)
	case 2:
		v := w.newName()
		ret, r.symbol = r.m.SetSymbol(v), &v
		w.logf("idx%d.SetSymbol(%q)", i, v)
	case 3:
		v := model.IndexType(c.N(3))
		ret, r.typ = r.m.SetType(v), v
		w.logf("idx%d.SetType(%s)", i, v)
	case 4:
		j := c.N(len(w.refs))
		ret, r.ref = r.m.SetReference(w.refs[j].m), w.refs[j]
		w.logf("idx%d.SetReference(ref%d)", i, j)
	case 5:
		o := optRec{w.newName(), c.Str(), c.Bool()}
		ret = r.m.AddOption(model.NewIndexOption(o.key, o.val, o.quoted))
		r.opts = append(append([]optRec(nil), r.opts...), o)
		w.logf("idx%d.AddOption(%q, %q, %v)", i, o.key, o.val, o.quoted)
	}
	w.chained(ret == r.m)
}

func (w *world) setTab() {
	c := w.c
	i := c.N(len(w.tabs))
	r := w.tabs[i]
	var ret model.Table
	switch c.Weighted(8, 4, 2, 1, 1, 1, 1) {
	case 0:
		j := c.N(len(w.cols))
		col := w.cols[j]
		ret = r.m.AddColumn(col.m)
		w.logf("tab%d.AddColumn(col%d)", i, j)
		if col.tableID != "" {
			// a copy is added, which the table knows
			var last model.TableColumn
			for x := range r.m.Columns() {
				last = x
			}
			if last == nil || last == col.m {
				c.Failf("the column belongs to a table already, but no copy of it is added")
			}
			col = col.clone(last)
			w.cols = append(w.cols, col)
		}
		col.tableID = r.m.ID()
		r.cols = append(r.cols, col)
	case 1:
		j := c.N(len(w.idx))
		ret = r.m.AddIndex(w.idx[j].m)
		r.idx = append(r.idx, w.idx[j])
		w.logf("tab%d.AddIndex(idx%d)", i, j)
	case 2:
		o := optRec{w.newName(), c.Str(), c.Bool()}
		ret = r.m.AddOption(model.NewTableOption(o.key, o.val, o.quoted))
		r.opts = append(r.opts, o)
		w.logf("tab%d.AddOption(%q, %q, %v)", i, o.key, o.val, o.quoted)
	case 3:
		v := !c.Chance(1, 3)
		ret, r.temp = r.m.SetTemporary(v), v
		w.logf("tab%d.SetTemporary(%v)", i, v)
	case 4:
		v := !c.Chance(1, 3)
		ret, r.ine = r.m.SetIfNotExists(v), v
		w.logf("tab%d.SetIfNotExists(%v)", i, v)
	case 5:
		v := w.newName()
		ret, r.like = r.m.SetLikeTable(v), &v
		w.logf("tab%d.SetLikeTable(%q)", i, v)
	case 6:
		r.m.Normalize()
		ret = r.m
		w.logf("tab%d.Normalize()", i)
	}
	w.chained(ret == r.m)
}

// clone copies an object; the copy is changed and observed from then on.
func (w *world) clone() {
	c := w.c
	if c.Bool() {
		i := c.N(len(w.cols))
		n := w.cols[i].clone(w.cols[i].m.Clone())
		w.cols = append(w.cols, n)
		if n.m == w.cols[i].m {
			c.Failf("the clone of the column is the column itself")
		}
		w.logf("col%d = col%d.Clone()", len(w.cols)-1, i)
		return
	}
	i := c.N(len(w.idx))
	old := w.idx[i]
	n := *old
	n.m = old.m.Clone()
	if n.m == old.m {
		c.Failf("the clone of the index is the index itself")
	}
	w.logf("idx%d = idx%d.Clone()", len(w.idx), i)
	// the parts of the clone
	copied := func(l []*icRec, m model.ColumnContainer) []*icRec {
		var k []*icRec
		for x := range m.Columns() {
			if len(k) < len(l) {
				r := l[len(k)].clone(x)
				k = append(k, r)
				w.ics = append(w.ics, r)
				w.logf("ic%d = a column of it", len(w.ics)-1)
			}
		}
		return k
	}
	n.cols = copied(old.cols, n.m)
	if old.ref != nil {
		r := *old.ref
		r.m = n.m.Reference()
		if r.m == nil {
			c.Failf("the clone of the index has no reference")
		}
		w.logf("ref%d = the reference of it", len(w.refs))
		r.cols = copied(old.ref.cols, r.m)
		n.ref = &r
		w.refs = append(w.refs, &r)
	}
	w.idx = append(w.idx, &n)
}

// iterate starts an iteration that is completed in the end.
func (w *world) iterate() {
	c := w.c
	var s snapshot
	part := c.N(3)
	switch c.N(7) {
	case 0:
		i := c.N(len(w.tabs))
		ch := w.tabs[i].m.Columns()
		for _, r := range w.tabs[i].cols {
			s.want = append(s.want, r.name)
		}
		s.what = fmt.Sprintf("the iteration of columns of tab%d", i)
		s.got = func() (l []string) {
			for x := range ch {
				l = append(l, x.Name())
			}
			return
		}
		for ; part > 0 && len(s.want) > 0; part-- {
			w.same("the next column", s.want[0], (<-ch).Name())
			s.want = s.want[1:]
		}
	case 1:
		i := c.N(len(w.tabs))
		ch := w.tabs[i].m.Indexes()
		for _, r := range w.tabs[i].idx {
			s.want = append(s.want, fmt.Sprintf("%p", r.m))
		}
		s.what = fmt.Sprintf("the iteration of indexes of tab%d", i)
		s.got = func() (l []string) {
			for x := range ch {
				l = append(l, fmt.Sprintf("%p", x))
			}
			return
		}
	case 2:
		i := c.N(len(w.tabs))
		ch := w.tabs[i].m.Options()
		for _, r := range w.tabs[i].opts {
			s.want = append(s.want, fmt.Sprintf("%v", r))
		}
		s.what = fmt.Sprintf("the iteration of options of tab%d", i)
		s.got = func() (l []string) {
			for o := range ch {
				l = append(l, fmt.Sprintf("%v", optRec{o.Key(), o.Value(), o.NeedQuotes()}))
			}
			return
		}
	case 3:
		i := c.N(len(w.idx))
		ch := w.idx[i].m.Columns()
		for _, r := range w.idx[i].cols {
			s.want = append(s.want, r.name)
		}
		s.what = fmt.Sprintf("the iteration of columns of idx%d", i)
		s.got = func() (l []string) {
			for x := range ch {
				l = append(l, x.Name())
			}
			return
		}
	case 4:
		i := c.N(len(w.cols))
		set := c.Bool()
		ch, v := w.cols[i].m.EnumValues(), w.cols[i].enum
		if set {
			ch, v = w.cols[i].m.SetValues(), w.cols[i].set
		}
		s.want = append(s.want, v...)
		s.what = fmt.Sprintf("the iteration of values of col%d", i)
		s.got = func() []string { return drain(ch) }
	case 5:
		i := c.N(len(w.idx))
		ch := w.idx[i].m.Options()
		for _, r := range w.idx[i].opts {
			s.want = append(s.want, fmt.Sprintf("%v", r))
		}
		s.what = fmt.Sprintf("the iteration of options of idx%d", i)
		s.got = func() (l []string) {
			for o := range ch {
				l = append(l, fmt.Sprintf("%v", optRec{o.Key(), o.Value(), o.NeedQuotes()}))
			}
			return
		}
	case 6:
		i := c.N(len(w.refs))
		ch := w.refs[i].m.Columns()
		for _, r := range w.refs[i].cols {
			s.want = append(s.want, r.name)
		}
		s.what = fmt.Sprintf("the iteration of columns of ref%d", i)
		s.got = func() (l []string) {
			for x := range ch {
				l = append(l, x.Name())
			}
			return
		}
	}
	w.logf("iterate %s", strings.TrimPrefix(s.what, "the iteration of "))
	w.snaps = append(w.snaps, s)
}

// check compares everything with the records.
// printed checks the string form of a reference.
func (w *world) printed(i int, r *refRec) {
	want := &ref.Ref{Table: r.table}
	if r.table == "" {
		return
	}
	for _, x := range r.cols {
		if x.name == "" {
			return
		}
		want.Cols = append(want.Cols, ref.IdxCol{Name: x.name})
	}
	want.Match = []string{"", "FULL", "PARTIAL", "SIMPLE"}[r.match]
	actions := []string{"", "RESTRICT", "CASCADE", "SET NULL", "NO ACTION"}
	want.OnDelete, want.OnUpdate = actions[r.del], actions[r.upd]
	got, err := ref.ReadReference(r.m.String())
	if err != nil {
		w.c.Failf("ref%d is printed as %s: %s", i, r.m, err)
	}
	if a, b := (&ref.Index{Ref: want}).String(), (&ref.Index{Ref: got}).String(); a != b {
		w.c.Failf("ref%d is printed as %s:\n%s", i, r.m, firstLine(a, b))
	}
}

func (w *world) check() {
	c := w.c
	for i, r := range w.cols {
		w.same(fmt.Sprintf("col%d", i), r.String(), seenCol(r.m))
	}
	for i, r := range w.ics {
		w.same(fmt.Sprintf("ic%d", i), r.String(), seenIC(r.m))
	}
	for i, r := range w.refs {
		w.same(fmt.Sprintf("ref%d", i), r.String(), seenRef(r.m))
		if len(r.cols) > 0 && c.Chance(1, 4) {
			w.printed(i, r)
		}
	}
	for i, r := range w.idx {
		w.same(fmt.Sprintf("idx%d", i), r.String(), seenIdx(r.m))
		if r.ref == nil && r.m.Reference() != nil || r.ref != nil && r.m.Reference() != r.ref.m {
			c.Failf("the reference of idx%d is not the one that was set", i)
		}
	}
	for i, r := range w.dbs {
		w.same(fmt.Sprintf("db%d", i), fmt.Sprintf("%q %v", r.name, r.ine), fmt.Sprintf("%q %v", r.m.Name(), r.m.IsIfNotExists()))
	}
	for i, r := range w.tabs {
		w.checkTable(fmt.Sprintf("tab%d", i), r)
	}
	// the list of statements
	for i, st := range w.stmts {
		got, ok := w.stmts.Lookup(st.ID())
		if !ok {
			c.Failf("statement %d (%s) of the list is not found", i, st.ID())
		}
		if got.ID() != st.ID() {
			c.Failf("looking for %s finds %s", st.ID(), got.ID())
		}
		found := false
		for _, x := range w.stmts {
			found = found || x == got
		}
		if !found {
			c.Failf("looking for %s finds a statement that is not in the list", st.ID())
		}
	}
	have := map[string]bool{}
	for _, st := range w.stmts {
		have[st.ID()] = true
	}
	for _, r := range w.tabs {
		if _, ok := w.stmts.Lookup(r.m.ID()); ok != have[r.m.ID()] {
			c.Failf("looking for %s finds something: %v, but it is in the list: %v", r.m.ID(), ok, have[r.m.ID()])
		}
	}
}

func (w *world) checkTable(what string, r *tabRec) {
	c := w.c
	like, has := "", false
	if r.like != nil {
		like, has = *r.like, true
	}
	w.same(what, fmt.Sprintf("%q temporary=%v ifnotexists=%v like=%q %v", r.name, r.temp, r.ine, like, has),
		fmt.Sprintf("%q temporary=%v ifnotexists=%v like=%q %v", r.m.Name(), r.m.IsTemporary(), r.m.IsIfNotExists(), r.m.LikeTable(), r.m.HasLikeTable()))
	n := 0
	for x := range r.m.Columns() {
		if n >= len(r.cols) || x != r.cols[n].m {
			c.Failf("column %d of %s (%s) is not the one that was added", n, what, x.Name())
		}
		n++
	}
	w.same("the number of columns of "+what, itoa(len(r.cols)), itoa(n))
	n = 0
	for x := range r.m.Indexes() {
		if n >= len(r.idx) || x != r.idx[n].m {
			c.Failf("index %d of %s is not the one that was added", n, what)
		}
		n++
	}
	w.same("the number of indexes of "+what, itoa(len(r.idx)), itoa(n))
	var opts []optRec
	for o := range r.m.Options() {
		opts = append(opts, optRec{o.Key(), o.Value(), o.NeedQuotes()})
	}
	w.same("the options of "+what, fmt.Sprint(r.opts), fmt.Sprint(opts))

	// lookup; columns of the same name can be mistaken for each other
	byID := map[string][]int{}
	for i, x := range r.cols {
		byID[x.m.ID()] = append(byID[x.m.ID()], i)
	}
	for id, at := range byID {
		ok := func(i int) bool {
			for _, j := range at {
				if i == j {
					return true
				}
			}
			return false
		}
		i, found := r.m.LookupColumnOrder(id)
		if !found || !ok(i) {
			c.Failf("column %q of %s is found at %d (%v), but it is at %d", id, what, i, found, at)
		}
		col, found := r.m.LookupColumn(id)
		if !found || col != r.cols[i].m {
			c.Failf("looking for column %q of %s finds something else (%v)", id, what, found)
		}
		before, found := r.m.LookupColumnBefore(id)
		if found != (i > 0) || found && before != r.cols[i-1].m || !found && before != nil {
			c.Failf("the column before %q of %s, at %d, is found to be %v (%v)", id, what, i, before, found)
		}
	}
	for _, x := range w.cols {
		for _, id := range []string{x.m.ID(), x.name, x.m.ID() + " ", r.m.ID()} {
			if byID[id] != nil {
				continue
			}
			a, f1 := r.m.LookupColumn(id)
			_, f2 := r.m.LookupColumnOrder(id)
			b, f3 := r.m.LookupColumnBefore(id)
			if f1 || f2 || f3 || a != nil || b != nil {
				c.Failf("%s has no column %q, but looking for it finds something: %v %v %v", what, id, f1, f2, f3)
			}
		}
	}
	ids := map[string]bool{}
	for _, x := range r.idx {
		id := x.m.ID()
		ids[id] = true
		got, found := r.m.LookupIndex(id)
		if !found || got.ID() != id {
			c.Failf("index %s of %s is not found, but %v (%v)", id, what, got, found)
		}
		mine := false
		for _, y := range r.idx {
			mine = mine || y.m == got
		}
		if !mine {
			c.Failf("looking for index %s of %s finds an index that was not added", id, what)
		}
	}
	for _, x := range w.idx {
		if id := x.m.ID(); !ids[id] {
			if got, found := r.m.LookupIndex(id); found || got != nil {
				c.Failf("%s has no index %s, but looking for it finds something", what, id)
			}
		}
	}
}
