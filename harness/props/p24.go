package props

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

func init() {
	register(&Prop{
		ID:    "P24",
		Rule:  "a text of at least 256 KB was processed, and the memory and processor time for it compared with what a text of the same kind that is 16 times smaller takes; distinct kinds of texts are counted",
		Run:   p24,
		Quick: 2400, Thorough: 60000,
		Slow: true,
	})
}

// shape is a kind of text that can be of any size.
type shape struct {
	what            string
	head, sep, tail string
	unit            []string // one after the other; @@ is a number
	refused         bool
	oneTable, noFmt bool
}

// of returns a text with n units.
func (s *shape) of(n int) string {
	var b strings.Builder
	b.WriteString(s.head)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(s.sep)
		}
		u := s.unit[i%len(s.unit)]
		for {
			j := strings.Index(u, "@@")
			if j < 0 {
				break
			}
			b.WriteString(u[:j])
			b.WriteString(strconv.Itoa(i))
			u = u[j+2:]
		}
		b.WriteString(u)
	}
	b.WriteString(s.tail)
	return b.String()
}

// member renders a column or a key, without the number in its name.
func member(c *C, t *ref.Table) string {
	s := c.RenderTable(t, gen.Style{}).Src
	i, j := strings.Index(s, "("), strings.LastIndex(s, ")")
	return s[i+1 : j]
}

func randomShape(c *C) *shape {
	k := c.Range(1, 3)
	units := func(f func() string) (l []string) {
		for i := 0; i < k; i++ {
			l = append(l, f())
		}
		return
	}
	body := func(what, head, sep, tail string, u ...string) *shape {
		return &shape{what: what, head: "CREATE TABLE `t` (" + head, sep: sep, tail: tail, unit: u}
	}
	plain := func() string {
		return pbt.Pick(c.T, "x", "word ", "é", "日本", "/", "*", "-- ", "a\n", "\n", " ", "0", "\\\\", "\t", "''", "\"\"", "``", "\\'", "\r\n", ";", "(", ",", "CREATE ", "\xff", "\x00")
	}
	clean := func(bad ...string) string {
		s := plain()
		for _, b := range bad {
			if strings.Contains(s, b) {
				return "z"
			}
		}
		return s
	}
	switch c.N(26) {
	case 0:
		return &shape{what: "tables", sep: ";\n", tail: ";", unit: units(func() string {
			cf := gen.Full
			cf.MaxCols, cf.MaxIdx = 3, 2
			t := c.Table(cf, &ref.Schema{}, map[string]bool{})
			t.Name = "t@@"
			for _, x := range t.Idx {
				if x.Symbol != nil {
					x.Symbol = ref.P("fk@@")
				}
			}
			return c.RenderTable(t, gen.Style{}).Src
		})}
	case 1, 2:
		return body("columns", "", ",", ")", units(func() string {
			x := c.Col("c@@")
			return member(c, &ref.Table{Name: "t", Cols: []*ref.Col{x}})
		})...)
	case 3, 4:
		return body("keys", "`a` INT, `b` INT,", ",", ")", units(func() string {
			t := &ref.Table{Name: "t", Cols: []*ref.Col{{Name: "a", Type: "INT"}, {Name: "b", Type: "INT"}}}
			x := c.Index(t, &ref.Schema{Tables: []*ref.Table{t}}, gen.Conf{Unnamed: true})
			if x.Name != nil {
				x.Name = ref.P("k@@")
			}
			if x.Symbol != nil {
				x.Symbol = ref.P("s@@")
			}
			t.Idx = []*ref.Index{x}
			s := member(c, t)
			if i := keyStart(s); i > 0 {
				return s[i:]
			}
			return "KEY `k@@` (`a`)"
		})...)
	case 5:
		return body("columns with inline keys", "", ",", ")", pbt.Pick(c.T, "`c@@` INT UNIQUE", "`c@@` INT UNIQUE KEY COMMENT 'x'", "`c@@` BIGINT KEY", "`c@@` INT PRIMARY KEY"))
	case 6:
		return body("options", "`a` INT) ", pbt.Pick(c.T, ", ", " ", ""), "", units(func() string {
			return pbt.Pick(c.T, "COMMENT = 'x@@' ", "MAX_ROWS = @@ ", "ENGINE = InnoDB ", "CHARACTER SET utf8 ", "DEFAULT COLLATE = x@@ ", "ROW_FORMAT = COMPACT ")
		})...)
	case 7, 8:
		w := pbt.Pick(c.T, "ENUM", "SET")
		return body("values", "`a` "+w+" (", pbt.Pick(c.T, ",", ", ", " ,\n"), "))", pbt.Pick(c.T, "'v@@'", "\"v@@\"", "'@@ '''", "'\\n@@'"))
	case 9:
		return body("columns of a key", "`a` INT, "+pbt.Pick(c.T, "KEY `k`", "PRIMARY KEY", "UNIQUE KEY", "FULLTEXT KEY `f`", "CONSTRAINT `s` FOREIGN KEY")+" (", ",", ")"+pbt.Pick(c.T, "", " REFERENCES `x` (`y`)")+")",
			pbt.Pick(c.T, "`c@@`", "c@@", "`c@@`(3)", "`c@@` DESC", "`a`"))
	case 10:
		return body("columns of a reference", "`a` INT, FOREIGN KEY (`a`) REFERENCES `x` (", ",", ") ON DELETE CASCADE)", pbt.Pick(c.T, "`c@@`", "c@@", "`c@@`(3)", "`a`"))
	case 11:
		return &shape{what: "comment", head: "/*", unit: units(func() string { return clean("*", "/") }), tail: "*/ CREATE TABLE t (a INT)"}
	case 12:
		return &shape{what: "line comment", head: pbt.Pick(c.T, "-- ", "#"), unit: units(func() string { return clean("\n") }), tail: "\nCREATE TABLE t (a INT)"}
	case 13:
		return body("comments", "`a` INT ", "", ")", pbt.Pick(c.T, "/* x */", "-- x\n", "#\n", "/**/", "/*@@*/ \n", "--\n"))
	case 14:
		return body("white space", "`a`", "", "INT)", units(func() string { return pbt.Pick(c.T, " ", "\n", "\t", "\r\n", "\v", "        ") })...)
	case 15:
		return body("string", "`a` INT COMMENT '", "", "')", units(func() string {
			s := clean("'")
			if s == "\\\\" && c.Bool() {
				return "''"
			}
			return s
		})...)
	case 16:
		return body("quoted name", "`", "", "` INT)", units(func() string { return clean("`") })...)
	case 17:
		return body("name", "n", "", " INT)", pbt.Pick(c.T, "a", "b1", "_", "x_y_"))
	case 18:
		return body("number", "`a` INT ("+pbt.Pick(c.T, "1", ""), "", "))", pbt.Pick(c.T, "0", "17", "9"))
	case 19:
		return &shape{what: "semicolons", unit: []string{pbt.Pick(c.T, ";", "; ", ";\n", " ;-- x\n", "/* x */;")}}
	case 20:
		return &shape{what: "ignored statements", sep: ";\n", tail: ";", unit: units(func() string {
			return pbt.Pick(c.T, "DROP TABLE `t@@`", "USE `x`", "SET a = @@", "SET NAMES 'utf8'", "CREATE DATABASE `d@@`", "CREATE DATABASE IF NOT EXISTS d@@")
		})}
	case 21:
		return &shape{what: "long ignored statement", head: pbt.Pick(c.T, "DROP TABLE ", "SET ", "USE "), sep: " ", tail: "; CREATE TABLE t (a INT)", unit: []string{pbt.Pick(c.T, "`t@@`,", "a = @@,", "'x'", "( )", "/* y */", "@x", "é", "+", "CREATE TABLE")}}
	case 22:
		return &shape{what: "tables that are declared LIKE another", sep: ";", unit: []string{"CREATE TABLE `t@@` LIKE `" + pbt.Pick(c.T, "x", "x@@") + "`"}}
	case 23:
		return body("default", "`a` TEXT DEFAULT '", "", "')", units(func() string { return clean("'") })...)
	case 24:
		return body("attributes", "`a` INT ", " ", ")", pbt.Pick(c.T, "NULL", "NOT NULL", "COMMENT 'x'", "DEFAULT 1", "UNSIGNED", "KEY"))
	default:
		return &shape{what: "the same table", sep: "; ", unit: []string{pbt.Pick(c.T, "CREATE TABLE t (a INT)", "create table t (a int primary key, b text)", "CREATE TEMPORARY TABLE IF NOT EXISTS t (a INT)")}}
	}
}

// keyStart finds the key in the members of a table with the columns a and b.
func keyStart(s string) int {
	if i := strings.Index(s, "`b`"); i >= 0 {
		if j := strings.Index(s[i:], ","); j >= 0 {
			return i + j + 1
		}
	}
	return -1
}

// effort is what something costs.
type effort struct {
	bytes, count float64
	cpu          time.Duration
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &u); err != nil {
		panic(err)
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// effortOf measures.
func effortOf(times int, f func()) effort {
	e := effort{math.Inf(1), math.Inf(1), time.Hour}
	for i := 0; i < times; i++ {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		start := cpuTime()
		f()
		d := cpuTime() - start
		runtime.ReadMemStats(&b)
		e.bytes = min(e.bytes, float64(b.TotalAlloc-a.TotalAlloc))
		e.count = min(e.count, float64(b.Mallocs-a.Mallocs))
		e.cpu = min(e.cpu, d)
	}
	return e
}

const (
	smallText = 24 << 10
	factor    = 16
)

func p24(c *C) {
	s := randomShape(c)
	if c.Chance(1, 6) {
		s.tail += pbt.Pick(c.T, " ?", "(", " FOO", "'", "/*", "; CREATE TABLE `t` (`x` FOO)")
	}
	n := smallText / (len(s.of(30))/30 + 1)
	c.Note("kind of text", s.what+"\n"+Clip(s.of(3), 2000))
	small, middle, large := s.of(n), s.of(4*n), s.of(factor*n)

	type op struct {
		name string
		run  func(string) func()
	}
	src := func(t string) schemalex.SchemaSource { return schemalex.NewReaderSource(strings.NewReader(t)) }
	ops := []op{
		{"parsing", func(t string) func() {
			return func() { schemalex.New().ParseString(t) }
		}},
		{"linting", func(t string) func() {
			return func() { lint.New().Run(context.Background(), src(t), io.Discard) }
		}},
		{"formatting", func(t string) func() {
			m, err := schemalex.New().ParseString(t)
			if err != nil {
				return nil
			}
			o := []format.Option{}
			if n%2 == 0 {
				o = append(o, format.WithIndent(" ", 2))
			}
			return func() {
				for _, st := range m {
					format.SQL(io.Discard, st, o...)
				}
			}
		}},
		{"walking the model", func(t string) func() {
			m, err := schemalex.New().ParseString(t)
			if err != nil {
				return nil
			}
			return func() { walk(m) }
		}},
		{"normalizing", func(t string) func() {
			m, err := schemalex.New().ParseString(t)
			if err != nil {
				return nil
			}
			return func() {
				for _, st := range m {
					if x, ok := st.(model.Table); ok {
						x.Normalize()
					}
				}
			}
		}},
		{"reading the text", func(t string) func() {
			return func() {
				var b bytes.Buffer
				src(t).WriteSchema(&b)
			}
		}},
	}
	o := ops[c.Weighted(6, 3, 3, 2, 2, 1)]
	f1, f2, f3 := o.run(small), o.run(middle), o.run(large)
	if f1 == nil || f2 == nil || f3 == nil {
		return
	}
	check := func(f func(), by, limit float64, cpuMin time.Duration, cpuLimit float64, again int) string {
		a := effortOf(again, f1)
		b := effortOf(again, f)
		const slack = 64 << 10
		if b.bytes > (a.bytes+slack)*limit || b.count > (a.count+200)*limit {
			return fmt.Sprintf("a text that is %.0f times as large takes %.0f times the memory (%.0f and %.0f bytes, %.0f and %.0f allocations)",
				by, b.bytes/a.bytes, a.bytes, b.bytes, a.count, b.count)
		}
		if b.cpu > cpuMin && float64(b.cpu) > float64(a.cpu+200*time.Microsecond)*cpuLimit {
			return fmt.Sprintf("a text that is %.0f times as large takes %.0f times as long (%s and %s of processor time)", by, float64(b.cpu)/float64(a.cpu), a.cpu, b.cpu)
		}
		return ""
	}
	fails := func(f func(), by, limit float64, cpuMin time.Duration, cpuLimit float64) {
		if check(f, by, limit, cpuMin, cpuLimit, 1) == "" {
			return
		}
		// it may have been something else
		if check(f, by, limit, cpuMin, cpuLimit, 2) == "" {
			return
		}
		if msg := check(f, by, limit, cpuMin, cpuLimit, 4); msg != "" {
			c.Failf("%s: %s", o.name, msg)
		}
	}
	// the first is to notice soon what would take very long
	fails(f2, 4, 12, time.Second, 11)
	fails(f3, factor, 2.5*factor, 100*time.Millisecond, 5*factor)
	if len(large) >= 256<<10 {
		c.Class(o.name)
		c.Class(s.what)
		c.NonTrivial(o.name + ": " + Clip(s.of(2), 300))
	}
}

// walk looks at everything in the model once.
func walk(m model.Stmts) {
	for _, st := range m {
		t, ok := st.(model.Table)
		if !ok {
			continue
		}
		t.ID()
		for x := range t.Columns() {
			id := x.ID()
			t.LookupColumn(id)
			t.LookupColumnOrder(id)
			t.LookupColumnBefore(id)
			for range x.EnumValues() {
			}
			for range x.SetValues() {
			}
			x.Clone()
		}
		for x := range t.Indexes() {
			x.ID()
			for y := range x.Columns() {
				y.ID()
			}
		}
		for x := range t.Options() {
			x.ID()
		}
	}
}
