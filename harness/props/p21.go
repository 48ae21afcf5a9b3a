package props

import (
	"strings"

	"github.com/schemalex/schemalex"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

func p21(c *C) {
	s := c.Schema(gen.Full)
	st := style(c)
	st.Ignored = c.Chance(1, 3)
	txt := c.Render(s, st)
	norm := s.Normalize()
	var quotes []int
	if c.Chance(1, 12) && long(c, s) {
		txt = c.Render(s, gen.Style{Spelling: c.Bool()})
		norm = s.Normalize()
		// behind what could be mistaken for the end of a long string
		for i := range txt.Toks {
			t := &txt.Toks[i]
			if t.Kind != gen.String || len(t.Text) < 1000 {
				continue
			}
			for j := 1; j+1 < len(t.Text); j++ {
				if t.Text[j] == '\'' || t.Text[j] == '"' || t.Text[j] == '\\' {
					quotes = append(quotes, t.Start+j+1)
				}
			}
		}
		c.Class("long string")
	}
	coms := comments(txt)
	spans := statements(txt.Toks)
	var cuts []int
	all := len(txt.Src) <= 40
	for i := 0; i < min(40, len(txt.Src)); i++ {
		p := i
		if !all {
			p = c.N(len(txt.Src))
			if len(txt.Toks) > 0 && c.Chance(1, 2) {
				t := txt.Toks[c.N(len(txt.Toks))]
				p = t.Start + c.N(t.End-t.Start+1)
			} else if len(coms) > 0 && c.Chance(1, 6) {
				m := coms[c.N(len(coms))]
				p = m.from + c.N(m.to-m.from+1)
			}
		}
		if len(quotes) > 0 && c.Bool() {
			p = quotes[c.N(len(quotes))]
		}
		cuts = append(cuts, p)
	}
	for _, p := range cuts {
		cut(c, txt, coms, spans, norm, p)
	}
	if len(cuts) > 5 {
		c.NonTrivial(txt.Src)
	}
}

// long gives some column a long comment with quotes in it.
func long(c *C, s *ref.Schema) bool {
	for _, t := range s.Tables {
		if t.HasLike || len(t.Cols) == 0 || c.Chance(1, 4) {
			continue
		}
		var b strings.Builder
		part := strings.Repeat(pbt.Pick(c.T, "x", "lorem ", "é", "-- "), c.Range(100, 3000))
		c.Many(1, 8, func(int) {
			b.WriteString(part[:c.N(2)*len(part)])
			b.WriteString(pbt.Pick(c.T, "'", "\"", "''", "\\", "\\'", "'\"", "it's "))
		})
		b.WriteString(part)
		if c.Bool() {
			// of the table
			for i, o := range t.Opts {
				if o.Key == "COMMENT" {
					t.Opts = append(t.Opts[:i:i], t.Opts[i+1:]...)
					break
				}
			}
			t.Opts = append(t.Opts, ref.Opt{Key: "COMMENT", Val: b.String(), Quoted: true})
			return true
		}
		t.Cols[c.N(len(t.Cols))].Comment = ref.P(b.String())
		return true
	}
	return false
}

// cut checks what becomes of the first p bytes of the text.
func cut(c *C, txt *gen.Text, coms []comment, spans []stmtSpan, norm *ref.Schema, p int) {
	must := "" // why it must be refused
	src := txt.Src[:p]
	last := len(src) // where the last token begins
	// tables that are there in full, and whether the last one may be cut in its tail
	tables := 0
	like := false
	for _, t := range txt.Toks {
		if t.Start < p && p < t.End {
			last = t.Start
			if (t.Kind == gen.Quoted || t.Kind == gen.String) && unclosed(t.Text[:p-t.Start]) {
				must = "it ends inside a quoted name or string"
			}
		} else if t.End == p {
			last = t.Start
		}
	}
	for _, m := range coms {
		if m.c && m.from+2 <= p && p < m.to {
			must = "it ends inside a comment"
			last = m.from
		} else if m.from < p && p < m.to {
			last = m.from
		}
	}
	for _, sp := range spans {
		if sp.from >= sp.to {
			continue
		}
		if txt.Toks[sp.from].Start >= p {
			break
		}
		toks := txt.Toks[sp.from:sp.to]
		if !strings.EqualFold(toks[0].Text, "CREATE") {
			continue
		}
		// where the definition is complete
		end := toks[len(toks)-1].Start + 1
		if toks[0].Table >= 0 && !norm.Tables[toks[0].Table].HasLike {
			for _, t := range toks {
				if t.Where == "body" {
					end = t.End
				}
			}
		} else if toks[0].Table >= 0 && p >= end && p < toks[len(toks)-1].End {
			like = true
		}
		if toks[0].Table < 0 && len(toks) > 2 && strings.EqualFold(toks[2].Text, "IF") && p == toks[2].Start+1 {
			// what is left of IF can be taken for the name of a database
			continue
		}
		if p < end {
			must = "it ends inside a CREATE statement"
			break
		}
		if toks[0].Table >= 0 {
			tables++
		}
		if toks[0].Table >= 0 && toks[len(toks)-1].End > p {
			// nothing or the value of an option has to come last
			what := ""
			for _, t := range toks {
				if t.Where == "tail" && t.Start < p {
					what = ""
					if !t.Value {
						what = "it ends inside the options of a table"
					}
				}
			}
			if what != "" {
				must = what
				break
			}
		}
	}
	stmts, err := schemalex.New().ParseString(src)
	if err != nil {
		if must != "" {
			pe, ok := err.(schemalex.ParseError)
			if !ok {
				c.Failf("error is a %T: %s", err, err)
			}
			l1, c1 := position(src, len(src))
			l2, c2 := position(src, last)
			if !(pe.Line() == l1 && pe.Col() == c1 || pe.Line() == l2 && pe.Col() == c2) {
				c.Note("text", Clip(src, 4000))
				c.Failf("the text is cut off, which is reported at line %d column %d instead of at the end (%d, %d) or where the last token begins (%d, %d)", pe.Line(), pe.Col(), l1, c1, l2, c2)
			}
		}
		return
	}
	if must != "" {
		c.Note("text", Clip(src, 4000))
		c.Failf("the text is accepted although %s", must)
	}
	got := schemaOf(c, stmts)
	want := &ref.Schema{Tables: norm.Tables[:tables]}
	if like && len(got.Tables) == tables {
		want = want.Clone()
		want.Tables[tables-1].Like = got.Tables[tables-1].Like
	}
	if d := ref.Compare(want, got, ref.How{IndexOrder: true, Asc: true, TableOrder: true}); d != "" {
		c.Note("text", Clip(src, 4000))
		c.Failf("something is missing from the cut text: %s", d)
	}
}

// unclosed tells whether the text is a quoted one without its end. The first
// one of two quotes in a row is an end.
func unclosed(s string) bool {
	for i := 1; i < len(s); i++ {
		switch {
		case s[i] == '\\' && s[0] != '`':
			i++
		case s[i] == s[0]:
			if i+1 == len(s) {
				return false
			}
			i++
		}
	}
	return true
}
