package props

import (
	"bytes"
	"compress/gzip"
	"compress/zlib"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"strings"
	"syscall"
	"testing/iotest"
	"time"
	"unicode/utf16"

	"github.com/schemalex/schemalex"

	"verifharness/pbt"
)

func init() {
	register(&Prop{
		ID:    "P15",
		Rule:  "a source was created and read, or refused; distinct descriptions and contents are counted",
		Run:   p15,
		Quick: 24000, Thorough: 250000,
		Leaks: true,
		Files: true,
	})
}

// content returns what a source delivers: any bytes, sometimes many.
func content(c *C) string {
	switch c.Weighted(6, 2, 2, 2, 1, 1) {
	case 0:
		return c.Str()
	case 1:
		return ""
	case 2:
		return "CREATE TABLE t (a INT);\n" + c.Str()
	case 3:
		// what may be taken for a mark, an encoding or an end
		marks := []string{"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\x1f\x8b\x08", "#!", "\x00", "\x1a", "\r\n", "\r", "\n", "\n\n", " ", "\t", ";", "-- \n",
			"/*!40101 SET NAMES utf8 */;\r\n", "$Id$", "$Date: 2000 $", "\xc3", "\xed\xa0\x80", "\u2028", "%41", "~"}
		s := ""
		for i := c.Range(1, 3); i > 0; i-- {
			s += pbt.Pick(c.T, marks...)
		}
		switch c.N(3) {
		case 0:
			return s
		case 1:
			return s + c.Str()
		}
		return s + c.Str() + pbt.Pick(c.T, marks...)
	case 5:
		// in some well-known format
		var z bytes.Buffer
		text := "CREATE TABLE t (a INT);\n" + c.Str()
		switch c.N(4) {
		case 0:
			w := gzip.NewWriter(&z)
			io.WriteString(w, text)
			w.Close()
		case 1:
			w := zlib.NewWriter(&z)
			io.WriteString(w, text)
			w.Close()
		case 2:
			z.WriteString("\xff\xfe")
			for _, r := range utf16.Encode([]rune(text)) {
				z.Write([]byte{byte(r), byte(r >> 8)})
			}
		case 3:
			return base64.StdEncoding.EncodeToString([]byte(text))
		}
		return z.String()
	}
	// around the sizes of buffers
	n := pbt.Pick(c.T, 512, 4096, 32768, 65536, 100000) + c.Range(-2, 2)
	if c.Chance(1, 20) {
		n = pbt.Pick(c.T, 1<<18, 1<<20, 3<<20) + c.Range(-2, 2)
	}
	s := c.Str() + "x"
	return strings.Repeat(s, n/len(s)+1)[:n]
}

// read reads a source; what is written follows what is there.
func read(s schemalex.SchemaSource) (string, error) {
	var buf bytes.Buffer
	buf.WriteString("before\n")
	err := s.WriteSchema(&buf)
	return strings.TrimPrefix(buf.String(), "before\n"), err
}

// delivers expects the text.
func delivers(c *C, what string, s schemalex.SchemaSource, err error, text string) {
	if err != nil {
		c.Failf("%s is refused: %s", what, err)
	}
	got, err := read(s)
	if err != nil {
		c.Failf("%s can not be read: %s", what, err)
	}
	if got != text {
		c.Failf("%s does not deliver its content, but something else:\n%s", what, firstLine(text, got))
	}
}

// fullWriter reads the source once more, into a writer that has no room for it.
func fullWriter(c *C, what string, s schemalex.SchemaSource, text string) {
	if text == "" || !c.Chance(1, 4) {
		return
	}
	d := &disk{room: c.N(len(text)), err: errors.New("full")}
	if err := s.WriteSchema(d); err == nil {
		c.Failf("%s is written in part, without an error", what)
	}
	c.Class("failing writer")
}

// fails expects an error, either at once or when it is read.
func fails(c *C, what string, s schemalex.SchemaSource, err error) {
	if err != nil {
		c.Failf("%s is refused instead of failing when it is read: %s", what, err)
	}
	got, err := read(s)
	if err == nil {
		c.Failf("%s is read without an error:\n%s", what, Clip(got, 1000))
	}
	if got != "" {
		c.Failf("%s: something is written along with the error %s:\n%s", what, err, Clip(got, 1000))
	}
}

func p15(c *C) {
	switch c.Weighted(8, 3, 2, 2, 3, 3, 1) {
	case 0:
		p15file(c)
	case 1:
		p15git(c)
	case 2:
		p15reader(c)
	case 3:
		p15stdin(c)
	case 4:
		p15refused(c)
	case 5:
		p15missing(c)
	case 6:
		p15special(c)
	}
}

func p15file(c *C) {
	dir, text := c.Dir(), content(c)
	name := fileName(c)
	var fn string
	if c.Chance(1, 4) {
		// a decoy that the name must not be taken for
		sub := filepath.Join(dir, "sub")
		os.Mkdir(sub, 0755)
		c.File(dir, name, "decoy")
		fn = c.File(sub, name, text)
	} else {
		fn = c.File(dir, name, text)
	}
	if c.Chance(1, 8) {
		l := filepath.Join(filepath.Dir(fn), "link")
		if os.Symlink(name, l) == nil && name != "link" {
			fn = l
		}
	}
	// what the name would be if it was decoded or cut
	for i, d := range []string{strings.SplitN(name, "?", 2)[0], strings.SplitN(name, "#", 2)[0], strings.ReplaceAll(name, "%41", "A"), strings.ReplaceAll(name, "+", " ")} {
		if d != name && d != "" && d != "." && d != ".." && c.Chance(1, 3) {
			if _, err := os.Lstat(filepath.Join(filepath.Dir(fn), d)); err != nil {
				c.File(filepath.Dir(fn), d, fmt.Sprintf("decoy %d", i))
			}
		}
	}
	plain := fn
	if c.Chance(1, 8) {
		// the system follows links before it goes up
		deep := filepath.Join(dir, "x", "deep")
		os.MkdirAll(deep, 0755)
		l := filepath.Join(filepath.Dir(fn), "to deep")
		if os.Symlink(deep, l) == nil {
			n := name + "2"
			c.File(filepath.Dir(fn), n, "decoy")
			plain = c.File(filepath.Dir(deep), n, text)
			fn = l + "/../" + n
			c.Class("up from a link to a directory")
		}
	}
	var s schemalex.SchemaSource
	var err error
	what := ""
	switch c.Weighted(3, 3, 3, 2, 2) {
	case 3, 4:
		// relative to the working directory
		c.Chdir(dir)
		sub := pbt.Pick(c.T, "", "./", "sub/", "./sub/", "sub/../", "sub/.//", "~/", "~root/", "$HOME/", "%HOME%/", "${HOME}/", "...//", "*/")
		os.Mkdir("sub", 0755)
		if i := strings.IndexByte(sub, '/'); i > 0 {
			if os.Mkdir(sub[:i], 0755); !exists(sub + ".") {
				sub = "" // there is a file of this name
			}
		}
		rel := sub + relativeName(c)
		for exists(rel) {
			rel += "x"
		}
		if n := strings.TrimPrefix(rel, "./"); n != rel && !exists(n) {
			c.File("sub", n[strings.LastIndexByte(n, '/')+1:], "decoy")
		}
		c.File(".", rel, text)
		if strings.Contains(sub, "HOME") || strings.HasPrefix(rel, "~") {
			// this is not for a shell
			home := c.Dir()
			old := os.Getenv("HOME")
			os.Setenv("HOME", home)
			c.Cleanup(func() { os.Setenv("HOME", old) })
			if n := rel[strings.LastIndexByte(rel, '/')+1:]; c.Bool() {
				c.File(home, n, "decoy")
			}
		}
		fn = rel
		if c.Bool() || looksLikeURI(rel) {
			what = fmt.Sprintf("file %q", fn)
			s = schemalex.NewLocalFileSource(fn)
		} else {
			what = fmt.Sprintf("source %q", fn)
			s, err = schemalex.NewSchemaSource(fn)
		}
		c.Class("relative file")
	case 0:
		what = fmt.Sprintf("file %q", fn)
		s = schemalex.NewLocalFileSource(fn)
	case 1:
		what = fmt.Sprintf("source %q", fn)
		s, err = schemalex.NewSchemaSource(fn)
	case 2:
		u := fileURI(c, plain)
		what = fmt.Sprintf("source %q of the file %q", u, plain)
		s, err = schemalex.NewSchemaSource(u)
	}
	c.Class("file")
	delivers(c, what, s, err, text)
	fullWriter(c, what, s, text)
	if c.Bool() {
		// it denotes the file, not what was read once
		text = content(c)
		if err := os.WriteFile(fn, []byte(text), 0644); err != nil {
			panic(err)
		}
		delivers(c, what+", read again,", s, nil, text)
	}
	c.NonTrivial(what + "\n" + text)
}

// p15special reads files whose size says nothing.
func p15special(c *C) {
	text := content(c)
	what, fn := "", ""
	switch c.N(4) {
	case 0, 1:
		fn = pipe(c, filepath.Join(c.Dir(), fileName(c)), text)
		what = "named pipe"
	case 2:
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		done := make(chan bool)
		go func() {
			io.WriteString(w, text)
			w.Close()
			close(done)
		}()
		c.Cleanup(func() {
			r.Close()
			<-done
		})
		fn = pbt.Pick(c.T, "/dev/fd/", "/proc/self/fd/") + itoa(int(r.Fd()))
		what = "pipe"
	case 3:
		fn = pbt.Pick(c.T, "/proc/version", "/proc/self/comm", "/dev/null")
		b, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		text = string(b)
		what = "special file"
	}
	var s schemalex.SchemaSource
	var err error
	u := fn
	switch c.N(3) {
	case 0:
		s = schemalex.NewLocalFileSource(fn)
	case 1:
		s, err = schemalex.NewSchemaSource(fn)
	case 2:
		u = fileURI(c, fn)
		s, err = schemalex.NewSchemaSource(u)
	}
	c.Class(what)
	delivers(c, fmt.Sprintf("%s %q", what, u), s, err, text)
	c.NonTrivial(what + " " + u + "\n" + text)
}

// pipe makes a named pipe that delivers the text once.
func pipe(c *C, fn, text string) string {
	if err := syscall.Mkfifo(fn, 0644); err != nil {
		panic(err)
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		f, err := os.OpenFile(fn, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		io.WriteString(f, text)
		f.Close()
	}()
	c.Cleanup(func() {
		// in case that nobody read it
		for {
			f, err := os.OpenFile(fn, os.O_RDONLY|syscall.O_NONBLOCK, 0)
			if err != nil {
				panic(err)
			}
			select {
			case <-done:
				f.Close()
				return
			case <-time.After(10 * time.Millisecond):
				f.Close()
			}
		}
	})
	return fn
}

func p15git(c *C) {
	base := c.Dir()
	dir := filepath.Join(base, fileName(c))
	var revs []map[string]string
	var names []string
	c.Many(1, 3, func(int) { names = append(names, gitName(c)) })
	c.Many(1, 3, func(int) {
		m := map[string]string{}
		for _, n := range names {
			clash := false
			for o := range m {
				clash = clash || strings.HasPrefix(o, n+"/") || strings.HasPrefix(n, o+"/")
			}
			if !clash && !c.Chance(1, 4) {
				m[n] = content(c)
			}
		}
		m["only"+itoa(len(revs))] = "x"
		revs = append(revs, m)
	})
	r := newRepo(c, dir, revs)
	// what the working tree contains does not matter
	for _, n := range names {
		if c.Bool() {
			fn := filepath.Join(dir, n)
			os.MkdirAll(filepath.Dir(fn), 0755)
			os.WriteFile(fn, []byte("working tree"), 0644)
			if c.Chance(1, 2) {
				git(dir, "", "add", "-A")
			}
		}
	}
	if c.Chance(1, 3) {
		// conversions are made for the working tree, not for what is stored
		git(dir, "", "config", "core.autocrlf", "true")
		git(dir, "", "config", "diff.x.textconv", "tr a-z A-Z <")
		git(dir, "", "config", "filter.x.smudge", "tr a-z A-Z")
		git(dir, "", "config", "filter.x.clean", "tr A-Z a-z")
		attr := "* " + pbt.Pick(c.T, "text eol=crlf", "text=auto", "ident", "diff=x", "filter=x", "working-tree-encoding=UTF-16", "ident diff=x filter=x") + "\n"
		fn := filepath.Join(dir, ".gitattributes")
		if c.Bool() {
			fn = filepath.Join(dir, ".git", "info", "attributes")
			os.MkdirAll(filepath.Dir(fn), 0755)
		}
		os.WriteFile(fn, []byte(attr), 0644)
		c.Class("git attributes")
	}
	switch c.Weighted(6, 1, 1) {
	case 1:
		// as seen from within the repository itself
		dir = filepath.Join(dir, ".git")
		c.Class("git directory")
	case 2:
		wt := filepath.Join(base, "work "+fileName(c))
		if _, err := os.Lstat(wt); err != nil {
			git(dir, "", "worktree", "add", "-q", "-f", "--detach", wt, "main")
			dir = wt
			c.Class("linked working tree")
		}
	}
	rev := r.revs[c.N(len(r.revs))]
	commit := rev.names[c.N(len(rev.names))]
	name := names[c.N(len(names))]
	switch c.Weighted(6, 1, 1) {
	case 1:
		name = pbt.Pick(c.T, "no such file", "", "sql", "d", "only7", name+"/x")
	case 2:
		commit = pbt.Pick(c.T, "no-such-branch", "0000000000000000000000000000000000000000", "HEAD~77", "--output=x", "-p", "--batch", "HEAD:", "main:"+name)
	}
	text, ok := rev.files[name]
	if !strings.HasSuffix(dir, ".git") && c.Chance(1, 4) {
		// relative to a directory of the working tree
		sub := path.Dir(name)
		if sub == "." || c.Bool() {
			sub = pbt.Pick(c.T, ".", "sql", "d", "a/b")
		}
		if d := filepath.Join(dir, sub); os.MkdirAll(d, 0755) == nil {
			dir = d
			full := name
			switch base := path.Base(name); c.N(3) {
			case 0:
				full, name = path.Join(sub, base), "./"+base
			case 1:
				if sub != "." {
					full, name = path.Join(path.Dir(sub), base), "../"+base
				}
			case 2:
				// not relative, whatever the directory
			}
			text, ok = rev.files[full]
			c.Class("git, from a directory of the working tree")
		}
	}
	for _, n := range rev.names {
		if n == commit {
			goto known
		}
	}
	ok = false
known:
	if c.Chance(1, 5) {
		// another repository, whose hook or alias runs this
		m := map[string]string{"x": "x"}
		if name != "" && !strings.HasPrefix(name, "x/") {
			m[name] = "another repository"
		}
		other := filepath.Join(newRepo(c, filepath.Join(base, "another one"), []map[string]string{m}).dir, ".git")
		env := map[string]string{}
		switch c.N(5) {
		case 0:
			env["GIT_DIR"] = other
		case 1:
			env["GIT_DIR"], env["GIT_WORK_TREE"], env["GIT_INDEX_FILE"] = other, filepath.Dir(other), filepath.Join(other, "index")
		case 2:
			env["GIT_OBJECT_DIRECTORY"] = filepath.Join(other, "objects")
		case 3:
			env["GIT_DIR"], env["GIT_COMMON_DIR"] = other, other
		case 4:
			env["GIT_PREFIX"], env["GIT_DIR"] = "sub/", filepath.Join(base, "no such directory")
		}
		for k, v := range env {
			os.Setenv(k, v)
		}
		c.Cleanup(func() {
			for k := range env {
				os.Unsetenv(k)
			}
		})
		c.Note("environment", fmt.Sprint(env))
		c.Class("git environment")
	}
	var s schemalex.SchemaSource
	var err error
	what := ""
	if c.Bool() {
		s = schemalex.NewLocalGitSource(dir, name, commit)
		what = fmt.Sprintf("git source %q %q %q", dir, name, commit)
	} else {
		u := gitURI(c, dir, name, commit)
		s, err = schemalex.NewSchemaSource(u)
		what = fmt.Sprintf("source %q of %q at %q in %q", u, name, commit, dir)
	}
	if ok {
		c.Class("git")
		delivers(c, what, s, err, text)
		fullWriter(c, what, s, text)
	} else {
		c.Class("git, missing")
		fails(c, what, s, err)
	}
	c.NonTrivial(what + "\n" + text)
}

// chunks is a reader that returns a few bytes at a time.
type chunks struct {
	c    *C
	s    string
	last bool // the end is reported along with the last bytes
	idle int  // one of so many times nothing is returned
}

func (r *chunks) Read(b []byte) (int, error) {
	if r.idle > 0 && r.c.Chance(1, r.idle) {
		return 0, nil
	}
	if r.s == "" {
		return 0, io.EOF
	}
	n := min(len(b), len(r.s), 1+r.c.N(20000))
	if len(r.s) < 2000 {
		n = min(n, 1+r.c.N(50))
	}
	copy(b, r.s[:n])
	r.s = r.s[n:]
	if r.s == "" && r.last {
		return n, io.EOF
	}
	return n, nil
}

func p15reader(c *C) {
	text := content(c)
	var r io.Reader
	how := ""
	// what has been read already does not belong to the rest
	gone := ""
	if c.Chance(1, 3) {
		gone = pbt.Pick(c.T, "x", "DROP TABLE t;\n", "CREATE TABLE t (", content(c))
	}
	skip := func(r io.Reader) io.Reader {
		if _, err := io.ReadFull(r, make([]byte, len(gone))); err != nil {
			panic(err)
		}
		return r
	}
	idle := 0
	if c.Bool() {
		idle = c.Range(2, 6)
	}
	switch c.N(9) {
	case 0:
		r, how = skip(strings.NewReader(gone+text)), "strings.Reader"
	case 6:
		r, how = skip(bytes.NewReader([]byte(gone+text))), "bytes.Reader"
	case 7:
		f, err := os.Open(c.File(c.Dir(), "f", gone+text))
		if err != nil {
			panic(err)
		}
		defer f.Close()
		r, how = skip(f), "file"
	case 8:
		n := int64(len(text))
		r, how = io.NewSectionReader(strings.NewReader(gone+text+gone), int64(len(gone)), n), "section of a reader"
	case 1:
		r, how = skip(bytes.NewBufferString(gone+text)), "bytes.Buffer"
	case 2:
		r, how = iotest.DataErrReader(strings.NewReader(text)), "reader with the end along with the data"
	case 3:
		r, how = &chunks{c: c, s: text, last: c.Bool(), idle: idle}, "reader of chunks"
	case 4:
		if len(text) > 5000 {
			text = text[:5000]
		}
		r, how = iotest.OneByteReader(strings.NewReader(text)), "reader of single bytes"
	case 5:
		n := c.N(len(text) + 1)
		r, how = io.MultiReader(strings.NewReader(text[:n]), strings.NewReader(text[n:])), "reader of two parts"
	}
	c.Class("reader")
	delivers(c, how, schemalex.NewReaderSource(r), nil, text)
	c.NonTrivial(how + "\n" + text)
}

func p15stdin(c *C) {
	text := content(c)
	old := os.Stdin
	defer func() { os.Stdin = old }()
	if c.Bool() {
		gone := pbt.Pick(c.T, "", "", "x", "CREATE TABLE u (a INT);\n")
		f, err := os.Open(c.File(c.Dir(), "stdin", gone+text))
		if err != nil {
			panic(err)
		}
		defer f.Close()
		if _, err := io.ReadFull(f, make([]byte, len(gone))); err != nil {
			panic(err)
		}
		os.Stdin = f
	} else {
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		defer r.Close()
		done := make(chan bool)
		go func() {
			io.WriteString(w, text)
			w.Close()
			close(done)
		}()
		defer func() {
			r.Close()
			<-done
		}()
		os.Stdin = r
	}
	c.Class("standard input")
	s, err := schemalex.NewSchemaSource("-")
	delivers(c, "standard input", s, err, text)
	c.NonTrivial("standard input\n" + text)
}

func p15refused(c *C) {
	dir := c.Dir()
	name := fileName(c)
	fn := c.File(dir, name, "CREATE TABLE t (a INT);")
	path := escape(c, fn)
	var u string
	switch c.N(8) {
	case 0:
		u = pbt.Pick(c.T, "http", "https", "ftp", "postgres", "sqlite3", "git", "ssh", "s3", "git-local", "localgit", "files", "fil", "x", "mysqls", "a+b-c.d") + "://" + pbt.Pick(c.T, "", "localhost", "example.com") + path
	case 1:
		u = "file://" + pbt.Pick(c.T, "example.com", "remote", "127.0.0.2", "localhost.example.com", "user@host", "localhost:3306", "h", "LOCALHOST.") + path
	case 2:
		u = "file://" + path + pbt.Pick(c.T, "%zz", "%", "%4", "%g0")
	case 3:
		u = pbt.Pick(c.T, "c:", "z:", "ab:") + strings.TrimPrefix(fn, "/")
	case 4:
		u = "mysql:" + path
	case 5:
		u = pbt.Pick(c.T, "http:", "x:", "mailto:a@example.com", "data:,CREATE", "a1:b", "urn:x:y")
	case 6:
		u = "local-git://" + dir + "%zz?file=a&commitish=b"
	case 7:
		u = "file://[::1" + path
	}
	if c.Bool() && strings.Contains(u, "://") {
		u = pbt.Pick(c.T, strings.ToUpper(u[:1]), u[:1]) + u[1:]
	}
	s, err := schemalex.NewSchemaSource(u)
	if err == nil {
		got, err := read(s)
		c.Failf("source %q is not refused; reading it gives %q, %v", u, Clip(got, 300), err)
	}
	if s != nil {
		c.Failf("a source is returned along with the error %s", err)
	}
	c.Class("refused")
	c.NonTrivial(u)
}

func p15missing(c *C) {
	dir := c.Dir()
	fn := filepath.Join(dir, fileName(c))
	switch c.N(4) {
	case 0: // a directory
		os.Mkdir(fn, 0755)
		if len(fn) < 200 && c.Bool() {
			for i := c.Range(1, 2); i > 0; i-- {
				n := pbt.Pick(c.T, "schema.sql", "0001_a.sql", "a.SQL", "schema", "index.sql", filepath.Base(fn), "up.sql")
				c.File(fn, n, "CREATE TABLE t (a INT);")
			}
		}
	case 1: // in a file
		if len(fn) < 200 {
			c.File(dir, filepath.Base(fn), "CREATE TABLE t (a INT);")
			fn += "/" + fileName(c)
		}
	case 2: // a dangling link
		os.Symlink("nowhere", fn)
	case 3: // nothing, but things that are called nearly the same
		c.File(dir, filepath.Base(fn)+"x", "CREATE TABLE t (a INT);")
		c.File(dir, "x"+filepath.Base(fn), "CREATE TABLE t (a INT);")
	}
	var s schemalex.SchemaSource
	var err error
	what := ""
	switch c.N(5) {
	case 0:
		s, what = schemalex.NewLocalFileSource(fn), fmt.Sprintf("file %q", fn)
	case 1:
		s, err = schemalex.NewSchemaSource(fn)
		what = fmt.Sprintf("source %q", fn)
	case 2:
		u := fileURI(c, fn)
		s, err = schemalex.NewSchemaSource(u)
		what = fmt.Sprintf("source %q", u)
	case 3:
		s, what = schemalex.NewLocalGitSource(fn, "schema.sql", "HEAD"), fmt.Sprintf("git source %q", fn)
	case 4:
		u := pbt.Pick(c.T, "", "file://", "file:")
		s, err = schemalex.NewSchemaSource(u)
		what = fmt.Sprintf("source %q", u)
	}
	c.Class("missing")
	fails(c, what, s, err)
	c.NonTrivial(what)
}
