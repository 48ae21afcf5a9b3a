package props

import (
	"bytes"
	"fmt"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/schemalex/schemalex"

	"verifharness/pbt"
)

var nameParts = []string{"a", "schema", "b", ".sql", " ", "%", "%41", "%2F", "%zz", "?", "#", "&", "=", "+", ";", "'", "\"", "\\", "é", "日本", ":", "\n",
	"-", "..", "*", "$", "`", "\xff", "~", "@", "file:", "[", "{", "|", "1", "_", "\t", "^"}

// fileName returns any name that a file can have.
func fileName(c *C) string {
	if c.Chance(1, 4) {
		return "schema.sql"
	}
	s := ""
	c.Many(1, 6, func(int) { s += nameParts[c.N(len(nameParts))] })
	if s == "." || s == ".." {
		s += "x"
	}
	return s
}

// escape writes the bytes of a path as a URI, some more of them encoded than
// it is necessary.
func escape(c *C, path string) string {
	if !c.Bool() {
		return (&url.URL{Path: path}).EscapedPath()
	}
	var b strings.Builder
	for i := 0; i < len(path); i++ {
		p := path[i]
		plain := p == '/' || p >= 'a' && p <= 'z' || p >= 'A' && p <= 'Z' || p >= '0' && p <= '9' || strings.IndexByte("-._~", p) >= 0
		if plain && !(p != '/' && c.Chance(1, 6)) {
			b.WriteByte(p)
		} else {
			fmt.Fprintf(&b, pbt.Pick(c.T, "%%%02X", "%%%02x"), p)
		}
	}
	return b.String()
}

// fileURI returns a URI of the file.
func fileURI(c *C, path string) string {
	return pbt.Pick(c.T, "file://", "file://localhost", "file:", "FILE://", "File://localhost") + escape(c, path)
}

// looksLikeURI tells whether a relative name means something else where a
// source is expected: it starts like a URI, or is "-".
func looksLikeURI(name string) bool {
	if name == "-" || name == "" {
		return true
	}
	for i := 0; i < len(name); i++ {
		ch := name[i]
		letter := ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z'
		switch {
		case letter:
		case i > 0 && (ch >= '0' && ch <= '9' || strings.IndexByte("+-.", ch) >= 0):
		case i > 0 && ch == ':':
			return true
		default:
			return false
		}
	}
	return false
}

// relativeName returns the name of a file relative to the working directory;
// it may look like something else.
func relativeName(c *C) string {
	if c.Bool() {
		return fileName(c)
	}
	return pbt.Pick(c.T, "-", "v1:a.sql", "file:a", "file:%41", "file:a.sql?x", "local-git:d?file=a&commitish=HEAD", "mysql:x", "http:x", "a:b", "c:", "x:y:z",
		"stdin", "...", "~", "--", "-o", "-t", "mysql:", "file:", "a+b.c-d:e")
}

// revision is a state of a repository.
type revision struct {
	names []string // that denote it
	files map[string]string
}

// repo is a git repository.
type repo struct {
	dir  string
	revs []*revision // the latest one first
}

// git runs git in the directory.
func git(dir, in string, args ...string) string {
	cmd := exec.Command("git", args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(in)
	cmd.Env = append(os.Environ(), "GIT_CONFIG_NOSYSTEM=1", "GIT_CONFIG_GLOBAL=/dev/null", "GIT_TERMINAL_PROMPT=0", "HOME="+dir)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Run(); err != nil {
		panic(fmt.Sprintf("git %s: %s\n%s", args, err, errs.String()))
	}
	return out.String()
}

// cQuote quotes a path as git wants it.
func cQuote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		if c := s[i]; c < 0x20 || c >= 0x7f || c == '"' || c == '\\' {
			fmt.Fprintf(&b, "\\%03o", c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

var branchNames = []string{"dev", "feature/x", "a&b", "a+b", "a#b", "a%20b", "v1.0", "日本", "x=y", "HEAD2", "schema.sql", "d"}

// newRepo makes a repository in dir; revs are the files of its revisions, the
// oldest one first.
func newRepo(c *C, dir string, revs []map[string]string) *repo {
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	r := &repo{dir: dir}
	git(dir, "", "init", "-q", "--template=", "-b", "main")
	var in bytes.Buffer
	for i, files := range revs {
		fmt.Fprintf(&in, "commit refs/heads/main\nmark :%d\ncommitter a <a@example.com> %d +0000\ndata 1\nx\ndeleteall\n", i+1, 1500000000+i)
		for _, n := range sorted(files) {
			fmt.Fprintf(&in, "M 100644 inline %s\ndata %d\n%s\n", cQuote(n), len(files[n]), files[n])
		}
	}
	for i, files := range revs {
		rev := &revision{files: files}
		back := len(revs) - 1 - i
		if back == 0 {
			rev.names = append(rev.names, "main", "HEAD", "refs/heads/main", "HEAD~0", "main^{commit}")
		} else {
			rev.names = append(rev.names, fmt.Sprintf("HEAD~%d", back), fmt.Sprintf("main~%d", back), "main"+strings.Repeat("^", back))
		}
		b := branchNames[(i+c.N(len(branchNames)))%len(branchNames)] + strings.Repeat("i", i)
		fmt.Fprintf(&in, "reset refs/heads/%s\nfrom :%d\n\n", b, i+1)
		tag := fmt.Sprintf("tag%d", i)
		fmt.Fprintf(&in, "tag %s\nfrom :%d\ntagger a <a@example.com> 1500000000 +0000\ndata 1\nx\n", tag, i+1)
		rev.names = append(rev.names, "refs/heads/"+b, "heads/"+b, tag)
		r.revs = append([]*revision{rev}, r.revs...)
		if c.Chance(1, 4) {
			// a tag of the same name is preferred to the branch
			k := c.N(i + 1)
			fmt.Fprintf(&in, "tag %s\nfrom :%d\ntagger a <a@example.com> 1500000000 +0000\ndata 1\nx\n", b, i+1-k)
			r.revs[k].names = append(r.revs[k].names, b, b+"^{commit}", "tags/"+b)
		} else {
			rev.names = append(rev.names, b)
		}
	}
	git(dir, in.String(), "fast-import", "--quiet", "--force")
	shas := strings.Fields(git(dir, "", "rev-list", "main"))
	for i, rev := range r.revs {
		rev.names = append(rev.names, shas[i], shas[i][:12], shas[i]+"^0")
	}
	return r
}

func sorted(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}

// gitName returns the name of a file in a repository.
func gitName(c *C) string {
	n := fileName(c)
	for strings.EqualFold(n, ".git") || strings.HasPrefix(strings.ToLower(n), "git~") {
		n += "x"
	}
	if c.Chance(1, 4) {
		n = pbt.Pick(c.T, "sql/", "a b/", "日/本/", "d/") + n
	}
	return n
}

// gitURI returns the URI of a file in a repository.
func gitURI(c *C, dir, file, rev string) string {
	q := []string{"file=" + url.QueryEscape(file), "commitish=" + url.QueryEscape(rev)}
	if c.Bool() {
		q[0], q[1] = q[1], q[0]
	}
	if c.Chance(1, 6) {
		q = append(q, "other=x")
	}
	return pbt.Pick(c.T, "local-git://", "LOCAL-GIT://", "local-git:") + escape(c, dir) + "?" + strings.Join(q, "&")
}

// place is where a text can be read from.
type place struct {
	kind  string
	arg   string // what denotes it
	path  string // of the file, if it is one
	stdin bool
	text  string
	src   func() schemalex.SchemaSource
}

// put makes the text available somewhere in the directory.
func put(c *C, dir, text string, stdin bool) *place {
	p := &place{text: text}
	w := []int{4, 4, 2, 2, 0}
	if wd, err := os.Getwd(); err == nil && wd == dir {
		w[4] = 3
	}
	if !stdin {
		w[2] = 0
	}
	file := func() {
		d := filepath.Join(dir, fmt.Sprintf("dir%d", c.N(1000)))
		if err := os.MkdirAll(d, 0755); err != nil {
			panic(err)
		}
		n := fileName(c)
		for {
			if _, err := os.Lstat(filepath.Join(d, n)); err != nil {
				break
			}
			n += "x"
		}
		p.path = c.File(d, n, text)
	}
	p.src = func() schemalex.SchemaSource {
		s, err := schemalex.NewSchemaSource(p.arg)
		if err != nil {
			c.Failf("source %q is refused: %s", p.arg, err)
		}
		return s
	}
	switch c.Weighted(w...) {
	case 0:
		p.kind = "file"
		file()
		p.arg = p.path
	case 1:
		p.kind = "file URI"
		file()
		p.arg = fileURI(c, p.path)
	case 2:
		p.kind, p.arg, p.stdin = "standard input", "-", true
		p.src = func() schemalex.SchemaSource { return schemalex.NewReaderSource(strings.NewReader(text)) }
	case 4:
		// the working directory has to be dir
		p.kind = "relative file"
		sub, name := pbt.Pick(c.T, "", "./", "sub/", ".//", "./sub/../", "sub/./", "sub:x/", "../"+filepath.Base(dir)+"/"), relativeName(c)
		if sub == "" && (looksLikeURI(name) || strings.HasPrefix(name, "-")) {
			sub = "./"
		}
		for _, d := range []string{"sub", "sub:x"} {
			if err := os.MkdirAll(filepath.Join(dir, d), 0755); err != nil {
				panic(err)
			}
		}
		if sub == "sub:x/" {
			sub = "./" + sub
		}
		for {
			if _, err := os.Lstat(filepath.Join(dir, sub+name)); err != nil {
				break
			}
			name += "x"
		}
		p.arg = sub + name
		p.path = c.File(dir, sub+name, text)
	case 3:
		p.kind = "git revision"
		d := filepath.Join(dir, fmt.Sprintf("repo%d", c.N(1000)))
		for {
			if _, err := os.Lstat(d); err != nil {
				break
			}
			d += "x"
		}
		n := gitName(c)
		revs := []map[string]string{{n: text}}
		switch c.N(3) {
		case 1:
			revs = append([]map[string]string{{n: "CREATE TABLE older (a INT);"}}, revs...)
		case 2:
			revs = append(revs, map[string]string{n: "CREATE TABLE newer (a INT);"})
		}
		r := newRepo(c, d, revs)
		for _, rev := range r.revs {
			if rev.files[n] == text {
				p.arg = gitURI(c, d, n, rev.names[c.N(len(rev.names))])
			}
		}
	}
	return p
}
