package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/model"

	"verifharness/gen"
	"verifharness/obs"
	"verifharness/pbt"
	"verifharness/ref"
)

func init() {
	register(&Prop{
		ID:    "P07",
		Rule:  "two different schemas were compared and the migration was executed by the model of a database (at least one statement), or it could not be expressed; distinct pairs are counted",
		Run:   p07,
		Quick: 120000, Thorough: 2000000,
		Known: knownMigrations,
	})
	register(&Prop{
		ID:    "P08",
		Rule:  "a schema with at least one table was compared with an equivalent, but different text; distinct pairs are counted",
		Run:   p08,
		Quick: 80000, Thorough: 2000000,
	})
	register(&Prop{
		ID:    "P09",
		Rule:  "two schemas that differ in a table, column or key were compared and the statements compared with those that are necessary; distinct pairs are counted",
		Run:   p09,
		Quick: 120000, Thorough: 2000000,
	})
	register(&Prop{
		ID:    "P10",
		Rule:  "a migration of at least two statements was read and its order checked, with and without transaction; distinct pairs are counted",
		Run:   p10,
		Quick: 60000, Thorough: 2000000,
	})
}

// pair is two versions of a schema.
type pair struct {
	from, to *ref.Schema
	a, b     string // their texts
	ma, mb   model.Stmts
}

// conf says what the schemas of a migration consist of.
func conf(c *C) gen.Conf {
	cf := gen.Migratable
	cf.Unnamed = c.Chance(1, 3)
	cf.Like = c.Chance(1, 6)
	cf.Temp = c.Chance(1, 10)
	return cf
}

// versions returns two versions of a schema.
func versions(c *C, reorder bool) *pair {
	cf := conf(c)
	p := &pair{from: c.Schema(cf)}
	if c.Chance(1, 10) {
		p.to = c.Schema(cf)
	} else {
		p.to = c.Edit(p.from, cf, reorder)
	}
	gen.Align(p.from, p.to)
	if c.Chance(1, 4) {
		p.from, p.to = p.to, p.from
	}
	st := gen.Style{Layout: c.Chance(1, 4), Spelling: c.Chance(1, 4)}
	p.a, p.b = c.Render(p.from, st).Src, c.Render(p.to, st).Src
	c.Note("from", Clip(p.a, 4000))
	c.Note("to", Clip(p.b, 4000))
	switch c.Weighted(4, 1) {
	case 0:
		p.ma, p.mb = mustParse(c, "from", p.a), mustParse(c, "to", p.b)
	case 1:
		p.ma, p.mb = built(p.from.Normalize()), built(p.to.Normalize())
		c.Class("built through the API")
	}
	return p
}

// migrate generates the migration.
func (p *pair) migrate(o ...diff.Option) (string, error) {
	var buf bytes.Buffer
	err := diff.Statements(&buf, p.ma, p.mb, o...)
	return buf.String(), err
}

func (p *pair) text() string { return p.a + "\n-- to:\n" + p.b }

// opClasses counts the statements.
func opClasses(c *C, l []*ref.Stmt) {
	for _, s := range l {
		if s.Kind == "ALTER TABLE" {
			c.Class(string(s.Op))
		} else {
			c.Class(s.Kind)
		}
	}
}

func p07(c *C) {
	p := versions(c, c.Chance(1, 4))
	txn := c.Chance(1, 3)
	if c.Chance(1, 12) {
		if what := spoilNew(c, p); what != "" {
			c.Note("spoilt", what)
			out, err := p.migrate(diff.WithTransaction(txn))
			if err == nil {
				c.Note("migration", Clip(out, 4000))
				c.Failf("no error although the new schema has %s", what)
			}
			if out != "" {
				c.Note("migration", Clip(out, 4000))
				c.Failf("something is written along with the error %s", err)
			}
			c.Class("new schema can not be expressed")
			c.NonTrivial(p.text() + what)
			return
		}
	}
	out, err := p.migrate(diff.WithTransaction(txn))
	if _, why := ref.Diff(p.from, p.to); why != nil {
		if err == nil {
			c.Note("migration", Clip(out, 4000))
			c.Failf("no error although the migration can not be expressed: %s", why)
		}
		if out != "" {
			c.Note("migration", Clip(out, 4000))
			c.Failf("something is written along with the error %s", err)
		}
		c.Class("can not be expressed")
		c.NonTrivial(p.text())
		return
	}
	if err != nil {
		c.Failf("the migration fails: %s", err)
	}
	c.Note("migration", Clip(out, 4000))
	stmts, err := ref.ReadScript(out)
	if err != nil {
		c.Failf("invalid SQL: %s", err)
	}
	db, want := &ref.DB{}, &ref.DB{}
	if err := want.Load(p.to); err != nil {
		c.Class("new schema is not consistent")
		return
	}
	if err := db.Load(p.from); err != nil {
		c.Class("old schema is not consistent")
		return
	}
	for _, s := range stmts {
		if err := db.Exec(s); err != nil {
			c.Failf("the migration fails on the old schema: %s", err)
		}
	}
	reordered := false
	for i, t := range want.Tables {
		old := p.from.Table(t.Name)
		if old == nil || ref.KeepsOrder(old, t) {
			continue
		}
		reordered = true
		want.Tables[i] = byName(t)
		for j, u := range db.Tables {
			if u.Name == t.Name {
				db.Tables[j] = byName(u)
			}
		}
	}
	if reordered {
		c.Class("columns in another order")
	}
	if d := ref.Compare(&ref.Schema{Tables: want.Tables}, &ref.Schema{Tables: db.Tables}, ref.How{}); d != "" {
		c.Failf("the migration leads to something else: %s", d)
	}
	opClasses(c, stmts)
	if len(stmts) > 0 {
		c.NonTrivial(p.text())
	}
}

// spoilNew rebuilds the models of both versions through the API and adds
// something to the new one that has no form in SQL.
func spoilNew(c *C, p *pair) string {
	from, to := p.from.Normalize(), p.to.Normalize()
	var l []*ref.Table
	for _, t := range to.Tables {
		if !t.HasLike {
			l = append(l, t)
		}
	}
	if len(l) == 0 {
		return ""
	}
	t := l[c.N(len(l))]
	i := c.N(len(t.Cols))
	var what string
	var spoil func(model.TableColumn)
	switch c.N(4) {
	case 0:
		what = "a column with an invalid type"
		spoil = func(col model.TableColumn) { col.SetType(model.ColumnTypeInvalid) }
	case 1:
		what = "an ENUM column without values"
		t.Cols[i].Values = nil
		spoil = func(col model.TableColumn) { col.SetType(model.ColumnTypeEnum) }
	case 2:
		what = "a key without columns"
		x := &ref.Index{Kind: pbt.Pick(c.T, ref.Normal, ref.Unique, ref.Fulltext, ref.Foreign), Name: ref.P(c.Ident())}
		if x.Kind == ref.Foreign {
			x.Symbol = ref.P(c.Ident())
			x.Ref = &ref.Ref{Table: c.Ident(), Cols: []ref.IdxCol{{Name: "a"}}}
		}
		addIdx(c, t, x)
	case 3:
		what = "a reference without columns"
		addIdx(c, t, &ref.Index{Kind: ref.Foreign, Symbol: ref.P(c.Ident()), Cols: []ref.IdxCol{{Name: t.Cols[i].Name}}, Ref: &ref.Ref{Table: c.Ident()}})
	}
	p.ma, p.mb = built(from), nil
	for _, u := range to.Tables {
		m := obs.BuildTable(u)
		if u == t && spoil != nil {
			n := 0
			for col := range m.Columns() {
				if n == i {
					spoil(col)
				}
				n++
			}
		}
		p.mb = append(p.mb, m)
	}
	return fmt.Sprintf("%s in table %q (column %q)", what, t.Name, t.Cols[i].Name)
}

// addIdx adds a key at any place.
func addIdx(c *C, t *ref.Table, x *ref.Index) {
	i := c.N(len(t.Idx) + 1)
	t.Idx = append(t.Idx[:i:i], append([]*ref.Index{x}, t.Idx[i:]...)...)
}

func byName(t *ref.Table) *ref.Table {
	n := t.Clone()
	sort.SliceStable(n.Cols, func(i, j int) bool { return n.Cols[i].Name < n.Cols[j].Name })
	return n
}

// knownMigrations are those that a real server refuses.
func knownMigrations() []Finding {
	try := func(id, what, from, to string, db *ref.DB) Finding {
		f := Finding{ID: id, What: what}
		var buf bytes.Buffer
		if diff.Strings(&buf, from, to) != nil {
			return f
		}
		stmts, err := ref.ReadScript(buf.String())
		if err != nil {
			return f
		}
		old, err := ref.ReadSchema(from)
		if err != nil || (&ref.DB{}).Load(old) != nil {
			return f
		}
		// what a server makes of the old schema
		strict := *db
		db.AutoInc, db.PrimaryNotNull = false, false
		if db.Load(old) != nil {
			return f
		}
		db.AutoInc, db.PrimaryNotNull = strict.AutoInc, strict.PrimaryNotNull
		for _, s := range stmts {
			if db.Exec(s) != nil {
				f.Still = true
			}
		}
		return f
	}
	return []Finding{
		try("auto-increment-before-key", "an AUTO_INCREMENT column is added before the key that it needs",
			"CREATE TABLE t (a INT NOT NULL);", "CREATE TABLE t (a INT NOT NULL, id INT NOT NULL AUTO_INCREMENT, PRIMARY KEY (id));", &ref.DB{AutoInc: true}),
		try("nullable-primary-key", "a column of a primary key without NOT NULL is written as DEFAULT NULL, which MySQL refuses",
			"", "CREATE TABLE t (id INT PRIMARY KEY);", &ref.DB{PrimaryNotNull: true}),
		try("implied-index-covered", "the index of a foreign key is assumed to exist although another index covers it, and dropped",
			"CREATE TABLE t (a INT, KEY k (a), CONSTRAINT s FOREIGN KEY (a) REFERENCES u (x));", "CREATE TABLE t (a INT, KEY k (a));", &ref.DB{Covered: true}),
	}
}

const frameOnly = "\nBEGIN;\n\nSET FOREIGN_KEY_CHECKS = 0;\n\nSET FOREIGN_KEY_CHECKS = 1;\n\nCOMMIT;"

func p08(c *C) {
	cf := conf(c)
	cf.Temp = false
	s := c.Schema(cf)
	a := c.Render(s, style(c)).Src
	c.Note("text", Clip(a, 4000))
	ma := mustParse(c, "text", a)
	var b string
	k := c.Weighted(6, 2, 2)
	if k == 1 && !serverable(s) {
		k = 0
	}
	switch k {
	case 0:
		b = c.Render(c.Equivalent(s), style(c)).Src
		c.Class("equivalent")
	case 1:
		b = gen.Server(s)
		c.Class("as the server reports it")
	case 2:
		_, o := indentation(c)
		b = formatted(c, ma, o...)
		c.Class("formatted")
	}
	c.Note("equivalent text", Clip(b, 4000))
	mb := mustParse(c, "equivalent text", b)
	for i, p := range []*pair{{ma: ma, mb: mb}, {ma: mb, mb: ma}} {
		out, err := p.migrate()
		if err != nil {
			c.Failf("comparing equivalent schemas fails: %s", err)
		}
		if out != "" {
			c.Note(fmt.Sprintf("migration %d", i), Clip(out, 3000))
			c.Failf("the migration of equivalent schemas is not empty")
		}
		out, err = p.migrate(diff.WithTransaction(true))
		if err != nil {
			c.Failf("comparing equivalent schemas fails: %s", err)
		}
		l, err := ref.ReadScript(out)
		if err != nil || kinds(l) != "BEGIN FK0 FK1 COMMIT" {
			c.Note("migration", Clip(out, 3000))
			c.Failf("there is more than the transaction frame (%v)", err)
		}
	}
	if len(s.Tables) > 0 && a != b {
		c.NonTrivial(a + "\n-- equivalent:\n" + b)
	}
}

func kinds(l []*ref.Stmt) string {
	var k []string
	for _, s := range l {
		k = append(k, s.Kind)
	}
	return strings.Join(k, " ")
}

// serverable tells whether the server would report the schema with the same names.
func serverable(s *ref.Schema) bool {
	for _, t := range s.Tables {
		if t.HasLike || t.Temp {
			return false
		}
		for _, x := range t.Idx {
			switch x.Kind {
			case ref.Foreign:
				if x.Symbol == nil || x.Name != nil {
					return false
				}
			case ref.Primary:
				if x.Symbol != nil || x.Name != nil {
					return false
				}
			default:
				if x.Name == nil || x.Symbol != nil {
					return false
				}
			}
		}
	}
	return true
}

func p09(c *C) {
	p := versions(c, c.Chance(1, 4))
	want, why := ref.Diff(p.from, p.to)
	if why != nil {
		c.Class("can not be expressed")
		return
	}
	out, err := p.migrate(diff.WithTransaction(c.Chance(1, 4)))
	if err != nil {
		c.Failf("the migration fails: %s", err)
	}
	c.Note("migration", Clip(out, 4000))
	stmts, err := ref.ReadScript(out)
	if err != nil {
		c.Failf("invalid SQL: %s", err)
	}
	stmts = unframe(stmts)
	for _, s := range stmts {
		if s.Kind == "ALTER TABLE" && s.Op == ref.OpChangeColumn && s.Arg != s.Col.Name {
			c.Failf("a column is renamed: %s", s)
		}
	}
	got := ref.Plain(stmts)
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(got) || i < len(want) && want[i] < got[i]:
			c.Failf("statement is missing: %s", want[i])
		case i >= len(want) || want[i] > got[i]:
			c.Failf("statement is not necessary: %s", got[i])
		}
	}
	opClasses(c, stmts)
	if len(want) > 0 {
		c.NonTrivial(p.text())
	}
}

// unframe removes the transaction.
func unframe(l []*ref.Stmt) []*ref.Stmt {
	if len(l) >= 4 && l[0].Kind == "BEGIN" && l[1].Kind == "FK0" && l[len(l)-2].Kind == "FK1" && l[len(l)-1].Kind == "COMMIT" {
		return l[2 : len(l)-2]
	}
	return l
}

func p10(c *C) {
	p := versions(c, c.Chance(1, 4))
	if _, why := ref.Diff(p.from, p.to); why != nil {
		c.Class("can not be expressed")
		return
	}
	plain, err := p.migrate()
	if err != nil {
		c.Failf("the migration fails: %s", err)
	}
	c.Note("migration", Clip(plain, 4000))
	framed, err := p.migrate(diff.WithTransaction(true))
	if err != nil {
		c.Failf("the migration with a transaction fails: %s", err)
	}
	if off, err := p.migrate(diff.WithTransaction(false)); err != nil || off != plain {
		c.Failf("WithTransaction(false) differs from no option at all: %v\n%s", err, firstLine(plain, off))
	}
	ps, err := ref.ReadScript(plain)
	if err != nil {
		c.Failf("invalid SQL: %s", err)
	}
	fs, err := ref.ReadScript(framed)
	if err != nil {
		c.Note("with transaction", Clip(framed, 4000))
		c.Failf("invalid SQL: %s", err)
	}
	if inner := unframe(fs); len(inner) != len(fs)-4 || fmt.Sprint(inner) != fmt.Sprint(ps) {
		c.Note("with transaction", Clip(framed, 4000))
		c.Failf("the transaction does not contain the same statements")
	}
	if err := ref.CheckOrder(ps, p.from); err != nil {
		c.Failf("%s", err)
	}
	opClasses(c, ps)
	if len(ps) > 1 {
		c.NonTrivial(p.text())
	}
}

func init() {
	register(&Prop{
		ID:    "P11",
		Rule:  "two texts, at least one of them with tables, were parsed, formatted, normalized and compared repeatedly and in between other work; distinct pairs are counted",
		Run:   p11,
		Quick: 20000, Thorough: 1000000,
	})
}

// results are those of all operations on two texts.
type results struct {
	errA, errB   string
	dumpA, dumpB string
	formA, formB string
	normA        string
	diff, txn    string
	dErr         string
}

func (r *results) differs(o *results) string {
	for _, x := range []struct{ what, a, b string }{
		{"parse error", r.errA, o.errA}, {"parse error", r.errB, o.errB},
		{"model", r.dumpA, o.dumpA}, {"model", r.dumpB, o.dumpB},
		{"formatted text", r.formA, o.formA}, {"formatted text", r.formB, o.formB},
		{"normalized form", r.normA, o.normA},
		{"migration", r.diff, o.diff}, {"migration", r.txn, o.txn}, {"error of the migration", r.dErr, o.dErr},
	} {
		if x.a != x.b {
			return x.what + " differs:\n" + firstLine(x.a, x.b)
		}
	}
	return ""
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func p11(c *C) {
	var a, b string
	if c.Chance(1, 4) {
		a, b = anyText(c), anyText(c)
	} else {
		p := versions(c, true)
		a, b = p.a, p.b
	}
	other := anyText(c)
	_, opts := indentation(c)
	txn := diff.WithTransaction(true)
	shared := schemalex.New()
	spoil, fail := c.Chance(1, 3), c.Chance(1, 4)
	noise := func() {
		if spoil {
			// what becomes of other results does not matter
			for _, s := range []string{a, other, b, a} {
				m, _ := shared.ParseString(s)
				if m != nil {
					diff.Statements(&bytes.Buffer{}, m, m)
				}
				scribble(m)
			}
		}
		shared.ParseString(other)
		diff.Strings(&bytes.Buffer{}, other, a, diff.WithParser(shared))
		if fail {
			m, _ := schemalex.New().ParseString(a)
			failures(c, m, a)
		}
	}
	run := func(p *schemalex.Parser, between func()) *results {
		r := &results{}
		// both are a part of something larger
		buf2 := append(append([]byte(a), b...), "; more"...)
		ba, bb := buf2[:len(a)], buf2[len(a):len(a)+len(b)]
		ma, err := p.Parse(ba)
		r.errA = errText(err)
		between()
		mb, err := p.Parse(bb)
		r.errB = errText(err)
		r.dumpA, r.dumpB = obs.Dump(ma), obs.Dump(mb)
		between()
		all := func(m model.Stmts) string {
			var buf bytes.Buffer
			for _, s := range m {
				if err := formatTo(&buf, s, opts); err != nil {
					buf.WriteString(err.Error())
				}
				buf.WriteString(";\n")
			}
			return buf.String()
		}
		r.formA, r.formB = all(ma), all(mb)
		list(c, ma, opts...)
		var n model.Stmts
		for _, s := range ma {
			if t, ok := s.(model.Table); ok {
				nt, _ := t.Normalize()
				n = append(n, nt)
			}
		}
		r.normA = obs.Dump(n)
		between()
		var buf bytes.Buffer
		r.dErr = errText(diff.Statements(&buf, ma, mb))
		r.diff = buf.String()
		buf.Reset()
		r.dErr += errText(diff.Statements(&buf, ma, mb, txn))
		r.txn = buf.String()
		// none of this changed anything
		if string(buf2) != a+b+"; more" {
			c.Failf("the text, or what comes after it, is changed")
		}
		// the models do not depend on the text any more
		overwrite(ba)
		overwrite(bb)
		if d := firstLine(r.dumpA, obs.Dump(ma)); d != "" {
			c.Failf("the first model is changed:\n%s", d)
		}
		if d := firstLine(r.dumpB, obs.Dump(mb)); d != "" {
			c.Failf("the second model is changed:\n%s", d)
		}
		if f := all(ma); f != r.formA {
			c.Failf("formatted again it differs:\n%s", firstLine(r.formA, f))
		}
		return r
	}
	nothing := func() {}
	first := run(schemalex.New(), nothing)
	noise()
	for i := 0; i < 3; i++ {
		if d := first.differs(run(shared, noise)); d != "" {
			c.Failf("the same input gives another result: %s", d)
		}
	}
	if first.dumpA+first.dumpB != "" {
		c.NonTrivial(a + "\n-- and:\n" + b)
	}
}
