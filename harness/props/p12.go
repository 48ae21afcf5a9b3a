package props

import (
	"bytes"
	"context"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/lint"

	"verifharness/fakemysql"
	"verifharness/gen"
	"verifharness/pbt"
)

func init() {
	register(&Prop{
		ID:    "P12",
		Rule:  "schemas were compared or linted through the library and through a command line tool, and the result or failure of all compared; distinct inputs are counted",
		Run:   p12,
		Quick: 12000, Thorough: 150000,
	})
}

// ran is the outcome of a command.
type ran struct {
	out, err string
	status   int
}

// tool runs a command line tool.
func tool(c *C, dir, stdin string, stdout *os.File, name string, args ...string) ran {
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(c.Env.Bin, name), args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if stdout != nil {
		cmd.Stdout = stdout
	}
	err := cmd.Run()
	r := ran{out: out.String(), err: errs.String()}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok || ctx.Err() != nil {
			c.Failf("running %s %q: %s", name, args, err)
		}
		r.status = ee.ExitCode()
	}
	return r
}

// textPair returns two texts, which need not be accepted.
func textPair(c *C) (a, b string) {
	cf := gen.Full
	from := c.Schema(cf)
	to := c.Edit(from, cf, true)
	st := gen.Style{Layout: c.Chance(1, 3), Spelling: c.Chance(1, 3), Ignored: c.Chance(1, 6)}
	a, b = c.Render(from, st).Src, c.Render(to, st).Src
	switch c.Weighted(12, 1, 1, 1) {
	case 1:
		a = anyText(c)
	case 2:
		b = anyText(c)
	case 3:
		b = a
	}
	if c.Bool() {
		a = larger(c, a)
	} else {
		b = larger(c, b)
	}
	return
}

// larger sometimes puts a lot of text before the text.
func larger(c *C, s string) string {
	if !c.Chance(1, 40) {
		return s
	}
	c.Class("large text")
	n := pbt.Pick(c.T, 5000, 33000, 66000, 140000, 1100000, 2300000) + c.N(2000)
	return "/*" + strings.Repeat(pbt.Pick(c.T, "x", "a comment\n", "日本 "), n)[:n] + " */" + s
}

func p12(c *C) {
	dir := c.Dir()
	c.Chdir(dir)
	if c.Chance(2, 5) {
		p12lint(c, dir)
		return
	}
	a, b := textPair(c)
	pa, pb := (*place)(nil), (*place)(nil)
	var bad func() []string
	if c.Chance(1, 10) {
		pa, bad = p12database(c, dir)
		a = pa.text
	} else if c.Chance(1, 10) {
		pb, bad = p12database(c, dir)
		b = pb.text
	}
	c.Note("from", Clip(a, 3000))
	c.Note("to", Clip(b, 3000))
	// as the command line understands it: transactions are the default
	targ := pbt.Pick(c.T, "", "-t", "-t=true", "-t=false", "-t=0")
	txn := !strings.HasPrefix(targ, "-t=f") && targ != "-t=0"
	opts := []diff.Option{diff.WithTransaction(txn)}
	if !txn && c.Bool() {
		opts = nil
	}
	want, failed := "", false
	fail := func(what string) func(string, error) {
		return func(out string, err error) {
			if (err != nil) != failed {
				c.Failf("%s: error is %v, comparing statements fails: %v", what, err, failed)
			}
			if out != want {
				c.Failf("%s gives another result than comparing statements:\n%s", what, firstLine(want, out))
			}
		}
	}
	var buf bytes.Buffer
	ma, err := schemalex.New().ParseString(a)
	if err == nil {
		mb, err2 := schemalex.New().ParseString(b)
		if err = err2; err == nil {
			err = diff.Statements(&buf, ma, mb, opts...)
		}
	}
	want, failed = buf.String(), err != nil
	if failed && want != "" {
		c.Failf("something is written along with the error %s", err)
	}
	with := opts
	if c.Bool() {
		with = append(with[:len(with):len(with)], diff.WithParser(schemalex.New()))
	}
	buf.Reset()
	err = diff.Strings(&buf, a, b, with...)
	fail("comparing strings")(buf.String(), err)

	fa, fb := c.File(dir, "a"+fileName(c), a), c.File(dir, "b"+fileName(c), b)
	buf.Reset()
	err = diff.Files(&buf, fa, fb, with...)
	fail("comparing files")(buf.String(), err)
	if c.Chance(1, 2) {
		// they are names, whatever they look like
		ra, rb := relativeName(c), relativeName(c)
		for ra == rb || exists(ra) || exists(rb) {
			ra, rb = ra+"x", rb+"y"
		}
		c.File(dir, ra, a)
		c.File(dir, rb, b)
		buf.Reset()
		err = diff.Files(&buf, ra, rb, with...)
		fail("comparing the files "+strconv.Quote(ra)+" and "+strconv.Quote(rb))(buf.String(), err)
		c.Class("relative names")
	}

	// any sources
	if pa == nil {
		pa = put(c, dir, a, true)
	}
	if pb != nil {
		// it is a database
	} else if pb = pa; a != b || pa.stdin || c.Bool() {
		pb = put(c, dir, b, !pa.stdin)
	} else {
		c.Class("a source and itself")
	}
	buf.Reset()
	err = diff.Sources(&buf, pa.src(), pb.src(), with...)
	fail("comparing "+pa.kind+" "+strconv.Quote(pa.arg)+" and "+pb.kind+" "+strconv.Quote(pb.arg))(buf.String(), err)
	c.Class(pa.kind + " and " + pb.kind)

	var args []string
	if targ != "" {
		args = append(args, targ)
	}
	name := pbt.Pick(c.T, "schemalex", "schemadiff")
	c.Class(name)
	p12tool(c, dir, name, args, []*place{pa, pb}, want, failed)
	if bad != nil {
		if l := bad(); len(l) > 0 {
			c.Failf("the server is asked in a wrong way: %s", strings.Join(l, "\n"))
		}
	}
	if failed {
		c.Class("failure")
	}
	c.NonTrivial(a + "\n-- and:\n" + b)
}

// p12database starts a server that other processes can reach.
func p12database(c *C, dir string) (*place, func() []string) {
	s, d, _ := database(c)
	if c.Chance(3, 4) {
		s.Tables = nil
		for _, t := range c.Schema(gen.Conf{MaxTables: 4, MaxCols: 6, MaxIdx: 3, Opts: true}).Normalize().Tables {
			s.Tables = append(s.Tables, fakemysql.Table{Name: t.Name, Def: gen.ServerTable(t)})
		}
	}
	network, at := "tcp", "127.0.0.1:0"
	if n := filepath.Join(dir, "my.sock"); len(n) < 100 && c.Bool() {
		network, at = "unix", n
	}
	addr, err := s.Listen(network, at)
	if err != nil {
		panic(err)
	}
	c.Cleanup(s.Stop)
	p := &place{kind: "database", arg: d.uri(addr), text: whole(s)}
	c.Note("database", p.arg)
	p.src = func() schemalex.SchemaSource {
		src, err := schemalex.NewSchemaSource(p.arg)
		if err != nil {
			c.Failf("source %q is refused: %s", p.arg, err)
		}
		return src
	}
	return p, s.Wrong
}

func exists(name string) bool {
	_, err := os.Lstat(name)
	return err == nil
}

func p12lint(c *C, dir string) {
	s := c.Schema(gen.Full)
	a := c.Render(s, gen.Style{Layout: c.Chance(1, 2), Spelling: c.Chance(1, 2), Ignored: c.Chance(1, 4)}).Src
	if c.Chance(1, 6) {
		a = anyText(c)
	}
	a = larger(c, a)
	pa := (*place)(nil)
	if c.Chance(1, 10) {
		pa, _ = p12database(c, dir)
		a = pa.text
	}
	c.Note("text", Clip(a, 3000))
	n := 2
	var args []string
	if c.Bool() {
		n = pbt.Pick(c.T, 2, 0, 1, 4, 8, 3, 16, 100, -1, -7)
		if c.Bool() {
			args = append(args, "-i", itoa(n))
		} else {
			args = append(args, pbt.Pick(c.T, "-i="+itoa(n), "--i="+itoa(n)))
		}
	}
	var buf bytes.Buffer
	err := lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(a)), &buf, lint.WithIndent(" ", n))
	want, failed := buf.String(), err != nil
	if failed && want != "" {
		c.Failf("something is written along with the error %s", err)
	}
	if pa == nil {
		pa = put(c, dir, a, true)
	}
	buf.Reset()
	err = lint.New().Run(context.Background(), pa.src(), &buf, lint.WithIndent(" ", n))
	if (err != nil) != failed || buf.String() != want {
		c.Failf("linting %s %q gives another result than linting a string: %v\n%s", pa.kind, pa.arg, err, firstLine(want, buf.String()))
	}
	c.Class("lint " + pa.kind)
	p12tool(c, dir, "schemalint", args, []*place{pa}, want, failed)
	if failed {
		c.Class("lint failure")
	}
	c.NonTrivial(a)
}

// p12tool runs the tool and expects the result.
func p12tool(c *C, dir, name string, args []string, places []*place, want string, failed bool) {
	stdin := ""
	srcs := make([]string, len(places))
	for i, p := range places {
		srcs[i] = p.arg
		if p.stdin {
			stdin = p.text
		}
	}
	// something else may be wrong
	wrong := false
	if c.Chance(1, 12) {
		wrong = true
		i := c.N(len(srcs))
		switch c.Weighted(3, 1, 1, 1, 1, 1) {
		case 0:
			srcs[i] = filepath.Join(dir, "no such file")
		case 1:
			srcs[i] = dir
		case 2:
			srcs[i] = "http://localhost/schema.sql"
		case 3:
			srcs[i] = "file://example.com/schema.sql"
		case 4:
			srcs = append(srcs, srcs[0])
		case 5:
			srcs = srcs[1:]
		}
		if len(srcs) == len(places) && c.Chance(1, 4) {
			// all of them
			for j := range srcs {
				srcs[j] = srcs[i]
			}
		}
		c.Class("wrong arguments")
	}
	bad := wrong || failed
	usage := len(srcs) != len(places)
	out := ""
	old, exists := "", false
	var full *os.File
	switch c.Weighted(4, 2, 2, 1, 1, 1) {
	case 1: // a new file
		out = filepath.Join(dir, "out"+fileName(c))
	case 2: // a file that is there, longer or shorter
		old, exists = strings.Repeat("something old\n", c.N(400)), true
		out = c.File(dir, "out"+fileName(c), old)
	case 3: // the input
		for i, p := range places {
			if p.path != "" && !wrong {
				out, old, exists = p.path, places[i].text, true
				c.Class("output is input")
			}
		}
	case 4: // can not be written
		out = pbt.Pick(c.T, dir, filepath.Join(dir, "no", "such", "directory"), "/dev/full")
		if !bad {
			if out == "/dev/full" && want == "" {
				out = dir
			}
			bad = true
			c.Class("output can not be written")
		}
	case 5:
		if !bad && want != "" {
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				panic(err)
			}
			defer f.Close()
			full, bad = f, true
			c.Class("standard output can not be written")
		}
	}
	if out != "" {
		arg := out
		if r, err := filepath.Rel(dir, out); err == nil && c.Chance(1, 4) {
			arg = r
		}
		if c.Chance(1, 3) {
			args = append(args, "-o="+arg)
		} else {
			args = append(args, "-o", arg)
		}
	}
	if c.Chance(1, 3) {
		args = append(args, "--")
	}
	args = append(args, srcs...)
	c.Note("command", name+" "+strings.Join(quoteAll(args), " "))
	r := tool(c, dir, stdin, full, name, args...)
	if r.status < 0 || strings.Contains(r.err, "panic: ") || strings.Contains(r.err, "goroutine 1 [") {
		c.Failf("it crashes, exit status is %d\n%s", r.status, Clip(r.err, 2000))
	}
	if (r.status != 0) != bad {
		c.Failf("exit status is %d, but failure is expected: %v\n%s", r.status, bad, Clip(r.err, 2000))
	}
	if bad {
		if strings.TrimSpace(r.err) == "" {
			c.Failf("it fails without a message")
		}
		if r.out != "" && !usage {
			c.Failf("it fails, but writes a result:\n%s", Clip(r.out, 2000))
		}
		if usage && strings.Contains(r.out, "`") {
			c.Failf("it fails, but writes a result:\n%s", Clip(r.out, 2000))
		}
		if fi, err := os.Stat(out); out != "" && err == nil && fi.Mode().IsRegular() {
			b, err := os.ReadFile(out)
			if err != nil {
				panic(err)
			}
			if len(b) > 0 && (!exists || string(b) != old) {
				c.Failf("it fails, but writes a result to the file:\n%s", Clip(string(b), 2000))
			}
		}
		return
	}
	got := r.out
	if out != "" {
		if r.out != "" {
			c.Failf("the result goes to a file, but standard output is\n%s", Clip(r.out, 2000))
		}
		b, err := os.ReadFile(out)
		if err != nil {
			c.Failf("it succeeds, but there is no output file: %s", err)
		}
		got = string(b)
	}
	if got != want {
		c.Failf("the tool gives another result than the library:\n%s", firstLine(want, got))
	}
	if r.err != "" {
		c.Failf("it succeeds, but writes to standard error:\n%s", Clip(r.err, 2000))
	}
	for _, p := range places {
		if p.path != "" && p.path != out {
			if b, err := os.ReadFile(p.path); err != nil || string(b) != p.text {
				c.Failf("the source file is changed: %v", err)
			}
		}
	}
}

func quoteAll(l []string) []string {
	q := make([]string, len(l))
	for i := range l {
		q[i] = strconv.Quote(l[i])
	}
	return q
}
