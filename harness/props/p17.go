package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"

	"verifharness/gen"
	"verifharness/obs"
	"verifharness/pbt"
)

func init() {
	register(&Prop{
		ID:    "P17",
		Rule:  "an operation was run with a reader or writer that failed at one byte at least; distinct inputs are counted",
		Run:   p17,
		Quick: 40000, Thorough: 1000000,
		Leaks: true,
	})
}

// wraps tells whether the error is the cause or wraps it.
func wraps(err, cause error) bool {
	if errors.Is(err, cause) {
		return true
	}
	for err != nil {
		if err == cause {
			return true
		}
		c, ok := err.(interface{ Cause() error })
		if !ok {
			return false
		}
		err = c.Cause()
	}
	return false
}

// temporary is an error that has every property that might be taken for an
// excuse.
type temporary struct{}

func (temporary) Error() string   { return "try again" }
func (temporary) Temporary() bool { return true }
func (temporary) Timeout() bool   { return true }
func (temporary) Ignorable() bool { return true }

// someError returns the cause of a failure.
func someError(c *C, what string) error {
	if c.Chance(3, 5) {
		return errors.New(what)
	}
	return pbt.Pick[error](c.T, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortWrite, io.ErrShortBuffer,
		temporary{}, context.Canceled, context.DeadlineExceeded, os.ErrDeadlineExceeded, os.ErrClosed, os.ErrNotExist, os.ErrExist,
		syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.ENOSPC, syscall.ECONNRESET,
		&os.PathError{Op: what, Path: "/x", Err: syscall.EIO}, &net.OpError{Op: what, Net: "tcp", Err: syscall.EPIPE})
}

// disk is a writer that fails after so many bytes.
type disk struct {
	buf   bytes.Buffer
	room  int
	how   int // see writeHow
	once  bool
	err   error
	fails int // writes that failed
	after int // writes after that
}

var writeHow = []string{"it is written in part", "nothing is written", "it is written, along with an error", "it is written in part, without an error"}

func (d *disk) Write(b []byte) (int, error) {
	if d.fails > 0 {
		d.after++
		if d.once {
			return d.buf.Write(b)
		}
		return 0, d.err
	}
	if d.buf.Len()+len(b) <= d.room {
		return d.buf.Write(b)
	}
	d.fails++
	if d.how == 3 {
		n := d.room - d.buf.Len()
		d.buf.Write(b[:n])
		return n, nil
	}
	switch d.how {
	case 1:
		return 0, d.err
	case 2:
		d.buf.Write(b)
		return len(b), d.err
	}
	n := d.room - d.buf.Len()
	d.buf.Write(b[:n])
	return n, d.err
}

// fullDisk runs the operation with writers that fail at some bytes of what it writes.
func fullDisk(c *C, what string, op func(io.Writer) error) {
	var buf bytes.Buffer
	if err := op(&buf); err != nil {
		if strings.HasPrefix(what, "comparing") {
			// that can not be migrated
			if buf.Len() > 0 {
				c.Failf("%s fails, but something has been written: %s\n%s", what, err, Clip(buf.String(), 1000))
			}
			c.Class("failing comparison")
			return
		}
		c.Failf("%s fails although nothing is wrong: %s", what, err)
	}
	want := buf.String()
	if want == "" {
		c.Class("nothing to write")
		return
	}
	cause := someError(c, "disk full")
	how, once := c.N(len(writeHow)), c.Chance(1, 3)
	if c.Chance(1, 10) {
		cause = io.EOF
	}
	try := func(n int) {
		d := &disk{room: n, how: how, once: once, err: cause}
		err := op(d)
		if err == nil {
			c.Failf("%s: writing fails after %d of %d bytes (%s), but no error is returned", what, n, len(want), writeHow[how])
		}
		if how == 3 {
			// there is no cause to wrap
		} else if !wraps(err, cause) {
			c.Failf("%s: writing fails after %d bytes (%s), but the error does not wrap the cause: %s", what, n, writeHow[how], err)
		}
		if !once && !strings.HasPrefix(want, d.buf.String()) {
			c.Failf("%s: what is written before the failure is not what should be:\n%s", what, firstLine(want, d.buf.String()))
		}
	}
	if len(want) <= 60 {
		for n := range want {
			try(n)
		}
	} else {
		for _, n := range []int{0, len(want) - 1, len(want) - 2} {
			try(n)
		}
		for i := 0; i < 8; i++ {
			n := c.N(len(want))
			if c.Chance(1, 3) {
				// between two parts
				if i := strings.IndexAny(want[n:], "\n;,"); i >= 0 {
					n += i
				}
			}
			try(n)
		}
	}
	// there is just enough room
	d := &disk{room: len(want), err: cause}
	if err := op(d); err != nil {
		c.Failf("%s fails although everything could be written: %s", what, err)
	}
	if d.buf.String() != want {
		c.Failf("%s gives another result the second time:\n%s", what, firstLine(want, d.buf.String()))
	}
	c.Class("failing writer: " + what)
	c.Class("failure: " + writeHow[how])
	if once {
		c.Class("failure: once")
	}
}

// torn is a reader that fails in the end.
type torn struct {
	s     string
	err   error
	along bool // with the last bytes
	max   int
	more  io.Reader // what follows the failure, if something does
	fails int
	idle  int // one of so many times nothing is returned
	calls int
}

func (r *torn) Read(b []byte) (int, error) {
	if r.calls++; r.idle > 0 && r.calls%r.idle == 0 {
		return 0, nil
	}
	if r.s == "" {
		if r.fails++; r.fails > 1 && r.more != nil {
			return r.more.Read(b)
		}
		return 0, r.err
	}
	n := min(len(b), len(r.s), r.max)
	copy(b, r.s[:n])
	r.s = r.s[n:]
	if r.s == "" && r.along {
		r.fails++
		return n, r.err
	}
	return n, nil
}

// idleness returns how often a reader has nothing to return yet; 0 is never.
func idleness(c *C) int {
	if c.Chance(1, 3) {
		return c.Range(2, 5)
	}
	return 0
}

// badSource is a source that fails after writing something.
type badSource struct {
	s   string
	err error
}

func (b badSource) WriteSchema(dst io.Writer) error {
	if _, err := io.WriteString(dst, b.s); err != nil {
		return err
	}
	return b.err
}

func p17(c *C) {
	switch c.Weighted(5, 6, 4, 3, 1) {
	case 0:
		p17format(c)
	case 1:
		p17write(c)
	case 2:
		p17read(c)
	case 3:
		p17copy(c)
	case 4:
		p17mysql(c)
	}
}

// fromText returns a source with the text.
func fromText(s string) schemalex.SchemaSource {
	return schemalex.NewReaderSource(strings.NewReader(s))
}

func p17format(c *C) {
	s := c.Schema(gen.Full)
	var v interface{}
	switch c.N(7) {
	case 0, 1:
		t := c.Table(gen.Full, s, map[string]bool{})
		v = obs.BuildTable(t)
		c.NonTrivial(t.String())
	case 2:
		col := c.Col(c.Ident())
		v = obs.BuildColumn(col)
		c.NonTrivial(col.String())
	case 3:
		_, x := tableWithIndex(c, s)
		if x == nil {
			return
		}
		v = obs.BuildIndex(x, "table#t")
		c.NonTrivial(x.String())
		if x.Ref != nil && c.Bool() {
			v = obs.BuildReference(x.Ref)
		}
	case 4:
		o := c.Option(c.N(21))
		v = obs.BuildOption(o)
		c.NonTrivial(o.String())
	case 5:
		n := c.Ident()
		v = model.NewDatabase(n).SetIfNotExists(c.Bool())
		c.NonTrivial(n)
	case 6:
		if c.Chance(1, 5) {
			ti := gen.Types[c.N(len(gen.Types))]
			v = obs.Type(ti.Name())
			c.NonTrivial(ti.Name())
			break
		}
		v = built(s)
		c.NonTrivial(s.String())
	}
	_, o := indentation(c)
	c.Note("object", fmt.Sprintf("%T", v))
	fullDisk(c, "formatting", func(w io.Writer) error { return format.SQL(w, v, o...) })
}

func p17write(c *C) {
	if c.Chance(1, 3) {
		src := c.Render(c.Schema(gen.Full), style(c)).Src
		c.Note("text", Clip(src, 4000))
		c.NonTrivial(src)
		var o []lint.Option
		_, fo := indentation(c)
		for _, x := range fo {
			o = append(o, lint.Option(x))
		}
		fullDisk(c, "linting", func(w io.Writer) error {
			return lint.New().Run(context.Background(), fromText(src), w, o...)
		})
		return
	}
	p := versions(c, c.Bool())
	c.NonTrivial(p.text())
	c.Note("versions", Clip(p.text(), 6000))
	var o []diff.Option
	if c.Bool() {
		o = append(o, diff.WithTransaction(c.Bool()))
	}
	switch c.N(4) {
	case 0:
		a, b := mustParse(c, "the first text", p.a), mustParse(c, "the second text", p.b)
		fullDisk(c, "comparing statements", func(w io.Writer) error { return diff.Statements(w, a, b, o...) })
	case 1:
		fullDisk(c, "comparing texts", func(w io.Writer) error { return diff.Strings(w, p.a, p.b, o...) })
	case 2:
		fullDisk(c, "comparing sources", func(w io.Writer) error { return diff.Sources(w, fromText(p.a), fromText(p.b), o...) })
	case 3:
		d := c.Dir()
		a, b := c.File(d, "a", p.a), c.File(d, "b", p.b)
		fullDisk(c, "comparing files", func(w io.Writer) error { return diff.Files(w, a, b, o...) })
	}
}

// nothing expects the operation to fail with nothing written.
func nothing(c *C, what string, cause error, op func(io.Writer) error) {
	var buf bytes.Buffer
	err := op(&buf)
	if err == nil {
		c.Failf("%s succeeds although a source can not be read:\n%s", what, Clip(buf.String(), 1000))
	}
	if cause != nil && !wraps(err, cause) {
		c.Failf("%s fails, but the error does not wrap the cause: %s", what, err)
	}
	if buf.Len() > 0 {
		c.Failf("%s fails, but something has been written:\n%s", what, Clip(buf.String(), 1000))
	}
	c.Class("failing source: " + what)
}

// p17read: one of the sources fails.
func p17read(c *C) {
	good := c.Render(c.Schema(gen.Full), style(c)).Src
	txt := c.Render(c.Schema(gen.Full), style(c))
	bad := txt.Src
	cause := someError(c, "read error")
	var src func() schemalex.SchemaSource
	kind := c.Weighted(4, 2, 2, 2, 1)
	isParse := false
	cut := c.N(len(bad) + 1)
	if c.Chance(1, 4) {
		cut = len(bad)
	}
	switch kind {
	case 0:
		along, max, more, idle := c.Bool(), 1+c.N(600), c.Chance(1, 3), idleness(c)
		src = func() schemalex.SchemaSource {
			r := &torn{s: bad[:cut], err: cause, along: along, max: max, idle: idle}
			if more {
				r.more = strings.NewReader(bad[cut:])
			}
			return schemalex.NewReaderSource(r)
		}
		c.Note("failing source", fmt.Sprintf("reader that fails after %d bytes of:\n%s", cut, Clip(bad, 3000)))
	case 1:
		src = func() schemalex.SchemaSource { return badSource{bad[:cut], cause} }
		c.Note("failing source", fmt.Sprintf("source that fails after %d bytes of:\n%s", cut, Clip(bad, 3000)))
	case 2:
		d := c.Dir()
		fn := filepath.Join(d, "missing")
		cause = os.ErrNotExist
		if c.Bool() {
			fn, cause = d, nil
		}
		stmts, err := schemalex.New().ParseFile(fn)
		if err == nil || stmts != nil {
			c.Failf("parsing a missing file or a directory returns %v and %v", stmts, err)
		}
		if cause != nil && !wraps(err, cause) {
			c.Failf("parsing a missing file fails, but the error does not wrap the cause: %s", err)
		}
		if c.Chance(1, 3) {
			cause = nil
			src = func() schemalex.SchemaSource { return schemalex.NewLocalGitSource(d, "missing", "HEAD") }
		} else {
			src = func() schemalex.SchemaSource { return schemalex.NewLocalFileSource(fn) }
		}
		c.Note("failing source", "missing file, directory or repository")
	case 4: // git fails after it has written something
		d := c.Dir()
		cause = nil
		out := c.File(d, "out", bad[:cut])
		how := pbt.Pick(c.T, "exit 128", "exit 1", "echo 'fatal: bad object' >&2; exit 128", "kill -9 $$", "kill $$")
		c.File(d, "git", "#!/bin/sh\ncat '"+out+"'\n"+how+"\n")
		if err := os.Chmod(filepath.Join(d, "git"), 0755); err != nil {
			panic(err)
		}
		path := os.Getenv("PATH")
		os.Setenv("PATH", d+":"+path)
		c.Cleanup(func() { os.Setenv("PATH", path) })
		src = func() schemalex.SchemaSource { return schemalex.NewLocalGitSource(d, "a.sql", "HEAD") }
		c.Note("failing source", fmt.Sprintf("git that writes %d bytes and fails: %s", cut, how))
	case 3:
		bad = spoil(c, txt)
		_, err := schemalex.New().ParseString(bad)
		if err == nil {
			c.Class("spoilt text is accepted")
			return
		}
		isParse, cause = true, nil
		src = func() schemalex.SchemaSource { return fromText(bad) }
		c.Note("failing source", Clip(bad, 4000))
	}
	c.NonTrivial(fmt.Sprintf("%d %d\n%s", kind, cut, bad))
	check := func(op func(io.Writer) error) func(io.Writer) error {
		return func(w io.Writer) error {
			err := op(w)
			if err != nil && isParse {
				pe := findParseError(err)
				if pe == nil {
					c.Failf("the error does not wrap the parse error: %s", err)
				}
				_, want := schemalex.New().ParseString(bad)
				if pe.Error() != want.Error() {
					c.Failf("the wrapped parse error is\n%s\nnot\n%s", pe, want)
				}
			}
			return err
		}
	}
	switch c.N(3) {
	case 0:
		nothing(c, "linting", cause, check(func(w io.Writer) error { return lint.New().Run(context.Background(), src(), w) }))
	case 1:
		nothing(c, "comparing, from", cause, check(func(w io.Writer) error { return diff.Sources(w, src(), fromText(good), diff.WithTransaction(c.Bool())) }))
	case 2:
		nothing(c, "comparing, to", cause, check(func(w io.Writer) error { return diff.Sources(w, fromText(good), src(), diff.WithTransaction(c.Bool())) }))
	}
}

// findParseError returns the parse error that the error wraps.
func findParseError(err error) schemalex.ParseError {
	for err != nil {
		if pe, ok := err.(schemalex.ParseError); ok {
			return pe
		}
		c, ok := err.(interface{ Cause() error })
		if !ok {
			return nil
		}
		err = c.Cause()
	}
	return nil
}

// p17copy: a source is copied, and reading or writing fails.
func p17copy(c *C) {
	text := content(c)
	c.NonTrivial(text)
	switch c.Weighted(3, 3, 3, 1) {
	case 0:
		max, idle := 1+c.N(1000), idleness(c)
		fullDisk(c, "copying a reader", func(w io.Writer) error {
			return schemalex.NewReaderSource(&torn{s: text, err: io.EOF, max: max, idle: idle}).WriteSchema(w)
		})
	case 1:
		fn := c.File(c.Dir(), "f", text)
		fullDisk(c, "copying a file", func(w io.Writer) error { return schemalex.NewLocalFileSource(fn).WriteSchema(w) })
	case 2:
		n := c.N(len(text) + 1)
		cause := someError(c, "read error")
		var buf bytes.Buffer
		r := &torn{s: text[:n], err: cause, along: c.Bool(), max: 1 + c.N(1000), idle: idleness(c)}
		if c.Chance(1, 3) {
			r.more = strings.NewReader(text[n:])
		}
		err := schemalex.NewReaderSource(r).WriteSchema(&buf)
		if err == nil {
			c.Failf("reading fails after %d of %d bytes, but copying succeeds", n, len(text))
		}
		if !wraps(err, cause) {
			c.Failf("reading fails, but the error does not wrap the cause: %s", err)
		}
		if !strings.HasPrefix(text, buf.String()) {
			c.Failf("what has been copied before reading failed is not what was there:\n%s", firstLine(text, buf.String()))
		}
		c.Class("failing reader")
	case 3:
		p := (*place)(nil)
		d := c.Dir()
		for i := 0; ; i++ {
			if p = put(c, filepath.Join(d, itoa(i)), text, false); p.kind == "git revision" || i > 5 {
				break
			}
		}
		fullDisk(c, "copying a "+p.kind, func(w io.Writer) error { return p.src().WriteSchema(w) })
	}
}

// p17mysql: the schema of a server can not be written.
func p17mysql(c *C) {
	s, d, _ := database(c)
	c.Note("source", d.uri("HOST"))
	addr := s.Start()
	defer s.Stop()
	src := schemalex.NewMySQLSource(strings.TrimPrefix(d.uri(addr), "mysql://"))
	c.NonTrivial(d.uri("HOST") + "\n" + whole(s))
	fullDisk(c, "copying a database", func(w io.Writer) error { return src.WriteSchema(w) })
}
