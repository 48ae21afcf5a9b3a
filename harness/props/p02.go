package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/schemalex/schemalex"

	"verifharness/gen"
	"verifharness/pbt"
)

func init() {
	register(&Prop{
		ID:    "P02",
		Rule:  "a well-formed script was spoilt at one token and the reported position was compared with the place of that token; distinct (text, token) pairs are counted",
		Run:   p02,
		Quick: 200000, Thorough: 3000000,
	})
	register(&Prop{
		ID:    "P21",
		Rule:  "a script was cut at up to 40 places inside tokens, between tokens and inside comments, at least one of them inside a statement; distinct scripts are counted",
		Run:   p21,
		Quick: 24000, Thorough: 300000,
	})
}

// never can not stand anywhere inside a CREATE TABLE statement
var never = []string{"@", ".", "]", "é", ":", "DISK", "STORAGE", "create", "-", "+", "/", "*", "{", "日本", "😀", "\x00", "\x80", "?", "--x", "$a", "_a", "~", "\\", "\x01"}

func p02(c *C) {
	s := c.Schema(gen.Full)
	if len(s.Tables) == 0 {
		return
	}
	st := style(c)
	st.Ignored = c.Chance(1, 3)
	txt := c.Render(s, st)
	var at []int
	for i, t := range txt.Toks {
		if t.Table >= 0 && !t.Glue {
			at = append(at, i)
		}
	}
	tok := txt.Toks[at[c.N(len(at))]]
	var src string
	var off int
	eof := false
	// the statement is complete at these
	complete := tok.Where == "tail" || tok.Where == "end"
	switch {
	case !complete && !(tok.Where == "head" && tok.Text[0]|32 == 'c' && tok.Kind == gen.Word && isStart(txt, tok)) && c.Chance(1, 4):
		// it ends too early
		src, off, eof = txt.Src[:tok.Start], tok.Start, true
		c.Class("ends early")
	case tok.Edge && c.Chance(1, 4):
		// an option has to follow a comma
		src = txt.Src[:tok.Start] + pbt.Pick(c.T, ",", " ,", ", ", ",\n", " , ")
		off, eof = len(src), true
		if c.Bool() {
			src, eof = src+pbt.Pick(c.T, ";", ";\n", "; "+txt.Src[tok.Start:]), false
		}
		c.Class("nothing follows a comma")
	default:
		bad := never[c.N(len(never))]
		if isStart(txt, tok) && bad == "create" {
			bad = "@"
		}
		if tok.Where == "body" && c.Chance(1, 10) {
			bad = ";"
		}
		if len(tok.Bad) > 0 && c.Bool() {
			bad = tok.Bad[c.N(len(tok.Bad))]
			if tok.Where == "body" || tok.Where == "tail" {
				c.Class("spoilt by " + bad)
			}
		}
		sep := pbt.Pick(c.T, " ", "\n", "\r\n", "\t", "\n\n ")
		src = txt.Src[:tok.Start] + sep + bad
		off = tok.Start + len(sep)
		if c.Chance(3, 4) {
			src += " " + txt.Src[tok.Start:]
		} else {
			c.Class("the offending token is the last one")
		}
		c.Class("spoilt in " + tok.Where)
	}
	c.Note("text", Clip(src, 4000))
	line, col := position(src, off)
	c.NonTrivial(src)
	what := fmt.Sprintf("offending token at byte %d, line %d column %d", off, line, col)
	check := func(err error, file string) {
		pe, ok := err.(schemalex.ParseError)
		if !ok {
			c.Failf("no parse error, but %v; %s", err, what)
		}
		if pe.Line() != line || pe.Col() != col {
			c.Failf("error is at line %d column %d; %s\n%s", pe.Line(), pe.Col(), what, pe)
		}
		if pe.EOF() != eof {
			c.Failf("EOF flag is %v; %s\n%s", pe.EOF(), what, pe)
		}
		if pe.File() != file {
			c.Failf("file is %q instead of %q", pe.File(), file)
		}
		msg := pe.Error()
		for _, part := range []string{pe.Message(), fmt.Sprintf("line %d column %d", line, col), file} {
			if !strings.Contains(msg, part) {
				c.Failf("message does not contain %q:\n%s", part, msg)
			}
		}
		if pe.Message() == "" {
			c.Failf("empty message")
		}
		excerpt(c, src, off, msg)
	}
	_, err := schemalex.New().ParseString(src)
	check(err, "")
	if c.Chance(1, 6) {
		fn := oddName(c, src)
		_, err := schemalex.New().ParseFile(fn)
		check(err, fn)
	}
}

// oddName writes a file and returns one of the many names it has.
func oddName(c *C, text string) string {
	dir := c.Dir()
	sub := filepath.Join(dir, "sub")
	if err := os.Mkdir(sub, 0755); err != nil {
		panic(err)
	}
	name := pbt.Pick(c.T, "schema.sql", " x ", "-", "a:b", "%41", "schema", ".hidden", "x.tar.gz", "日本.sql", "\"q\"", "a'b")
	if c.Chance(1, 3) {
		name = fileName(c)
	}
	c.File(sub, name, text)
	switch c.N(5) {
	case 0:
		return sub + "/" + name
	case 1:
		return dir + pbt.Pick(c.T, "//sub/", "/./sub/", "/sub//", "/sub/../sub/", "/../"+filepath.Base(dir)+"/sub/") + name
	case 2:
		c.Chdir(dir)
		return pbt.Pick(c.T, "sub/", "./sub/", "sub//", "sub/./", ".//sub/", "sub/../sub/", "../"+filepath.Base(dir)+"/sub/") + name
	case 3:
		l := filepath.Join(dir, "link")
		if err := os.Symlink(sub+"/"+name, l); err != nil {
			panic(err)
		}
		return l
	}
	c.Chdir(sub)
	return pbt.Pick(c.T, "", "./", ".//", "././", "../sub/") + name
}

func isStart(txt *gen.Text, tok gen.Tok) bool {
	for _, sp := range statements(txt.Toks) {
		if sp.from < len(txt.Toks) && txt.Toks[sp.from].Start == tok.Start {
			return true
		}
	}
	return false
}

// excerpt checks the part of the message that shows the text before the error.
func excerpt(c *C, src string, off int, msg string) {
	const head, tail = "\n    \"", "\" <---- AROUND HERE"
	if !strings.HasSuffix(msg, tail) {
		c.Failf("message has no excerpt:\n%s", msg)
	}
	before := src[:off]
	nl := strings.LastIndexByte(before, '\n')
	n := min(len(before)-nl-1, 40)
	max := n
	if nl == 0 || nl == len(src)-1 {
		// there is nothing else to show
		max = 40
	}
	body := msg[:len(msg)-len(tail)]
	// the excerpt itself may contain what looks like its beginning
	for i := strings.Index(body, head); i >= 0; {
		x := body[i+len(head):]
		if strings.HasSuffix(before, x) && len(x) >= n && len(x) <= max {
			return
		}
		j := strings.Index(body[i+1:], head)
		if j < 0 {
			break
		}
		i += 1 + j
	}
	c.Failf("excerpt is not the text before the error:\n%s\nexpected to end with %q", msg, before[len(before)-n:])
}
