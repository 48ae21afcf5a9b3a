package props

import (
	"bytes"
	"context"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"

	"verifharness/gen"
	"verifharness/obs"
)

func init() {
	register(&Prop{
		ID:    "P13",
		Rule:  "a text with at least one table was linted, and the result compared with the formatted tables, parsed, compared and linted again, or a text was refused; distinct texts are counted",
		Run:   p13,
		Quick: 70000, Thorough: 2000000,
	})
}

// linted lints a text.
func linted(src string, o ...lint.Option) (string, error) {
	var buf bytes.Buffer
	err := lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(src)), &buf, o...)
	return buf.String(), err
}

func p13(c *C) {
	var src string
	if c.Chance(1, 6) {
		src = anyText(c)
	} else {
		src = c.Render(c.Schema(gen.Full), gen.Style{Layout: c.Chance(1, 2), Spelling: c.Chance(2, 3), Ignored: c.Chance(1, 4)}).Src
	}
	c.Note("text", Clip(src, 4000))
	what, fopts, lopts, unit := indentations(c)
	c.Note("indent", what)
	got, lerr := linted(src, lopts...)
	stmts, err := schemalex.New().ParseString(src)
	if err != nil {
		if lerr == nil {
			c.Failf("linting succeeds although the text is refused: %s", err)
		}
		if got != "" {
			c.Failf("something is written although the text is refused: %s", err)
		}
		c.Class("refused")
		c.NonTrivial(src)
		return
	}
	if lerr != nil {
		c.Failf("linting an accepted text fails: %s", lerr)
	}
	c.Note("linted", Clip(got, 4000))
	var parts []string
	for _, s := range stmts {
		var buf bytes.Buffer
		if err := format.SQL(&buf, s, fopts...); err != nil {
			c.Failf("formatting fails: %s", err)
		}
		parts = append(parts, buf.String()+";")
	}
	if want := strings.Join(parts, "\n\n"); got != want {
		c.Failf("the linted text is not that of one formatted table after the other:\n%s", firstLine(want, got))
	}
	plain, err := linted(src)
	if err != nil {
		c.Failf("linting without indentation fails: %s", err)
	}
	if a, b := indented(plain, unit), indented(got, ""); a != b {
		c.Failf("the linted text is not indented as requested:\n%s", firstLine(a, b))
	}
	again := mustParse(c, "the linted text", got)
	if a, b := obs.Dump(stmts), obs.Dump(again); a != b {
		c.Failf("the linted text is parsed to another model:\n%s", firstLine(a, b))
	}
	var buf bytes.Buffer
	err = diff.Strings(&buf, src, got)
	if err != nil || buf.Len() > 0 {
		c.Failf("comparing the linted text with the original: %v\n%s", err, Clip(buf.String(), 2000))
	}
	twice, err := linted(got, lopts...)
	if err != nil || twice != got {
		c.Failf("linted again it differs: %v\n%s", err, firstLine(got, twice))
	}

	if len(stmts) > 0 {
		c.NonTrivial(src)
	}
}
