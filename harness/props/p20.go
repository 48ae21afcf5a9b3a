package props

import (
	"bytes"
	"context"
	"fmt"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"

	"verifharness/gen"
	"verifharness/obs"
)

func init() {
	register(&Prop{
		ID:    "P20",
		Rule:  "at least two goroutines worked on shared objects at the same time; distinct inputs and assignments of work are counted",
		Run:   p20,
		Quick: 4000, Thorough: 150000,
		Leaks: true,
		Slow:  true,
	})
}

// task is work that a goroutine can do on the shared objects. It returns
// everything that can be seen of the result.
type task struct {
	name string
	do   func(s *sharedWorld) string
}

// sharedWorld is what the goroutines share.
type sharedWorld struct {
	texts []string
	all   []byte // all texts
	files []string
	p     *schemalex.Parser
	l     *lint.Linter
	stmts []model.Stmts // nil if the text is refused
	fopts []format.Option
}

func newSharedWorld(texts, files []string, fopts []format.Option) *sharedWorld {
	s := &sharedWorld{texts: texts, files: files, p: schemalex.New(), l: lint.New(), fopts: fopts}
	for _, t := range texts {
		s.all = append(s.all, t...)
		m, err := schemalex.New().ParseString(t)
		if err != nil {
			m = nil
		}
		s.stmts = append(s.stmts, m)
	}
	return s
}

// bytes is the i-th text, which is a part of a buffer that is shared.
func (s *sharedWorld) bytes(i int) []byte {
	from := 0
	for _, t := range s.texts[:i] {
		from += len(t)
	}
	return s.all[from : from+len(s.texts[i])]
}

// tasks lists what can be done with the i-th text, and the j-th.
func tasks(i, j int) []task {
	dump := func(m model.Stmts, err error) string { return errText(err) + "\n" + obs.Dump(m) }
	tables := func(s *sharedWorld) (l []model.Table) {
		for _, st := range s.stmts[i] {
			if t, ok := st.(model.Table); ok {
				l = append(l, t)
			}
		}
		return
	}
	return []task{
		{"parse", func(s *sharedWorld) string { return dump(s.p.ParseString(s.texts[i])) }},
		{"parse bytes", func(s *sharedWorld) string { return dump(s.p.Parse(s.bytes(i))) }},
		{"parse file", func(s *sharedWorld) string { return dump(s.p.ParseFile(s.files[i])) }},
		{"read model", func(s *sharedWorld) string { return obs.Dump(s.stmts[i]) }},
		{"format", func(s *sharedWorld) string {
			var b bytes.Buffer
			for _, st := range s.stmts[i] {
				b.WriteString(errText(format.SQL(&b, st, s.fopts...)))
			}
			return b.String()
		}},
		{"format parts", func(s *sharedWorld) string {
			var b bytes.Buffer
			for _, t := range tables(s) {
				for c := range t.Columns() {
					b.WriteString(errText(format.SQL(&b, c, s.fopts...)))
				}
				for x := range t.Indexes() {
					b.WriteString(errText(format.SQL(&b, x)))
					if r := x.Reference(); r != nil {
						b.WriteString(errText(format.SQL(&b, r)) + r.String())
					}
				}
			}
			return b.String()
		}},
		{"normalize", func(s *sharedWorld) string {
			var n model.Stmts
			for _, t := range tables(s) {
				m, _ := t.Normalize()
				n = append(n, m)
				for c := range t.Columns() {
					c.Normalize()
					c.Clone()
					c.NativeLength()
				}
				for x := range t.Indexes() {
					x.Normalize()
					x.Clone()
				}
			}
			return obs.Dump(n)
		}},
		{"look up", func(s *sharedWorld) string {
			var b strings.Builder
			for _, t := range tables(s) {
				_, ok := s.stmts[i].Lookup(t.ID())
				fmt.Fprint(&b, ok)
				for c := range t.Columns() {
					n, ok := t.LookupColumnOrder(c.ID())
					p, ok2 := t.LookupColumnBefore(c.ID())
					_, ok3 := t.LookupColumn(c.ID())
					fmt.Fprintln(&b, n, ok, ok2, ok3)
					if ok2 {
						fmt.Fprintln(&b, p.Name())
					}
				}
				for x := range t.Indexes() {
					y, ok := t.LookupIndex(x.ID())
					fmt.Fprintln(&b, y.ID(), ok)
				}
			}
			return b.String()
		}},
		{"look at a part", func(s *sharedWorld) string {
			// what is not looked at costs nothing
			var b strings.Builder
			for _, t := range tables(s) {
				for c := range t.Columns() {
					b.WriteString(c.Name())
					break
				}
				for x := range t.Indexes() {
					b.WriteString(x.Name())
					for c := range x.Columns() {
						b.WriteString(c.Name())
						break
					}
					break
				}
				for o := range t.Options() {
					b.WriteString(o.Key())
					break
				}
			}
			return b.String()
		}},
		{"compare models", func(s *sharedWorld) string {
			var b bytes.Buffer
			err := diff.Statements(&b, s.stmts[i], s.stmts[j], diff.WithTransaction(i < j))
			return errText(err) + b.String()
		}},
		{"compare texts with the shared parser", func(s *sharedWorld) string {
			var b bytes.Buffer
			err := diff.Strings(&b, s.texts[i], s.texts[j], diff.WithParser(s.p))
			return errText(err) + b.String()
		}},
		{"compare files", func(s *sharedWorld) string {
			var b bytes.Buffer
			err := diff.Files(&b, s.files[i], s.files[j])
			return errText(err) + b.String()
		}},
		{"lint", func(s *sharedWorld) string {
			var b bytes.Buffer
			var o []lint.Option
			for _, x := range s.fopts {
				o = append(o, lint.Option(x))
			}
			err := s.l.Run(context.Background(), fromText(s.texts[i]), &b, o...)
			return errText(err) + b.String()
		}},
		{"read file", func(s *sharedWorld) string {
			got, err := read(schemalex.NewLocalFileSource(s.files[i]))
			return errText(err) + got
		}},
	}
}

func p20(c *C) {
	if c.Chance(1, 12) {
		p20sources(c)
		return
	}
	var texts, files []string
	dir := c.Dir()
	add := func(s string) {
		files = append(files, c.File(dir, "f"+itoa(len(texts)), s))
		texts = append(texts, s)
	}
	p := versions(c, true)
	add(p.a)
	add(p.b)
	if c.Chance(1, 2) {
		add(anyText(c))
	}
	if c.Chance(1, 30) {
		big := c.Schema(gen.Full)
		c.Bulk(big, gen.Full, map[string]bool{})
		add(c.Render(big, gen.Style{}).Src)
		c.Class("large schema")
	}
	_, fopts := indentation(c)

	// who does what
	n := c.Range(2, 8)
	crowd, same := c.Chance(1, 15), c.N(20)
	if crowd {
		// many do the same at once
		n = c.Range(9, 40)
		c.Class("crowd")
	}
	work := make([][]task, n)
	desc := ""
	for g := range work {
		desc += fmt.Sprintf("goroutine %d:", g)
		for k := c.Range(1, 5); k > 0; k-- {
			l := tasks(c.N(len(texts)), c.N(len(texts)))
			t := l[c.N(len(l))]
			if crowd {
				t = l[same%len(l)]
			} else if g > 0 && c.Chance(1, 3) {
				t = work[0][0] // the same as another one
			}
			work[g] = append(work[g], t)
			desc += " " + t.name + ";"
			c.Class(t.name)
		}
		desc += "\n"
	}
	yields := make([]int, n)
	for g := range yields {
		yields[g] = c.N(4)
	}
	for i, s := range texts {
		c.Note(fmt.Sprintf("text %d", i), Clip(s, 3000))
	}
	c.Note("work", desc)
	c.NonTrivial(desc + strings.Join(texts, "\n"))

	want := make([][]string, n)
	alone := newSharedWorld(texts, files, fopts)
	for g, l := range work {
		for _, t := range l {
			want[g] = append(want[g], t.do(alone))
		}
	}
	// nobody has touched the shared objects before
	s := newSharedWorld(texts, files, fopts)
	got := make([][]string, n)
	fail := make([]string, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range work {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					buf := make([]byte, 8<<10)
					fail[g] = fmt.Sprintf("panic: %v\n%s", r, buf[:runtime.Stack(buf, false)])
				}
			}()
			<-start
			for i := 0; i < yields[g]; i++ {
				runtime.Gosched()
			}
			for _, t := range work[g] {
				got[g] = append(got[g], t.do(s))
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for g, l := range work {
		if fail[g] != "" {
			c.Failf("goroutine %d: %s", g, fail[g])
		}
		for k, t := range l {
			if want[g][k] != got[g][k] {
				c.Failf("goroutine %d gets another result of %q than alone:\n%s", g, t.name, firstLine(want[g][k], got[g][k]))
			}
		}
	}
	for i := range texts {
		if a, b := obs.Dump(alone.stmts[i]), obs.Dump(s.stmts[i]); a != b {
			c.Failf("the shared model of text %d is changed:\n%s", i, firstLine(a, b))
		}
	}
}

// p20sources reads different sources at the same time.
func p20sources(c *C) {
	n := c.Range(2, 5)
	type source struct {
		what string
		src  schemalex.SchemaSource
		want string
		bad  func() []string
	}
	var l []source
	dir := c.Dir()
	var stop []func()
	for i := 0; i < n; i++ {
		if c.Chance(1, 2) {
			s, d, _ := database(c)
			if c.Bool() {
				// with TLS
				d.params = append(d.params, tlsParams(c, s, filepath.Join(dir, itoa(i)))...)
			}
			addr := s.Start()
			stop = append(stop, func() { s.Stop() })
			l = append(l, source{"database", schemalex.NewMySQLSource(strings.TrimPrefix(d.uri(addr), "mysql://")), whole(s), func() []string { return s.Bad }})
			continue
		}
		text := content(c)
		p := put(c, filepath.Join(dir, itoa(i)), text, false)
		l = append(l, source{p.kind, p.src(), text, func() []string { return nil }})
	}
	defer func() {
		for _, f := range stop {
			f()
		}
	}()
	kinds := []string{}
	for _, s := range l {
		kinds = append(kinds, s.what)
	}
	sort.Strings(kinds)
	c.Class("sources")
	c.Note("sources", strings.Join(kinds, ", "))
	got, errs := make([]string, n), make([]error, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range l {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			got[i], errs[i] = read(l[i].src)
		}(i)
	}
	close(start)
	wg.Wait()
	for i, s := range l {
		if errs[i] != nil {
			c.Failf("source %d (%s) can not be read along with others: %s", i, s.what, errs[i])
		}
		if got[i] != s.want {
			c.Failf("source %d (%s) delivers something else when it is read along with others:\n%s", i, s.what, firstLine(s.want, got[i]))
		}
		if bad := s.bad(); len(bad) > 0 {
			c.Failf("source %d (%s) does something wrong when it is read along with others: %s", i, s.what, strings.Join(bad, "\n"))
		}
		c.NonTrivial(s.what + s.want)
	}
}
