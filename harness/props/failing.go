package props

import (
	"bytes"
	"context"
	"errors"
	"io"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
)

// limited takes some bytes, and fails then.
type limited struct{ n int }

func (w *limited) Write(p []byte) (int, error) {
	if len(p) > w.n {
		n := w.n
		w.n = 0
		return n, errors.New("full")
	}
	w.n -= len(p)
	return len(p), nil
}

// failures does things that fail. What becomes of them does not matter here.
func failures(c *C, m model.Stmts, src string) {
	w := func() io.Writer { return &limited{c.N(40)} }
	// every kind of object, into a writer that fails
	for _, s := range m {
		format.SQL(w(), s, format.WithIndent(" ", 3))
		t, ok := s.(model.Table)
		if !ok {
			continue
		}
		for x := range t.Columns() {
			format.SQL(w(), x)
			format.SQL(&limited{1}, x.Type())
		}
		for x := range t.Indexes() {
			format.SQL(w(), x)
			if r := x.Reference(); r != nil {
				format.SQL(w(), r)
			}
		}
		for x := range t.Options() {
			format.SQL(&limited{3}, x)
		}
	}
	// objects that have no SQL
	for _, x := range broken() {
		format.SQL(io.Discard, x)
		if t, ok := x.(model.Table); ok {
			diff.Statements(io.Discard, nil, model.Stmts{t})
			diff.Statements(io.Discard, model.Stmts{t}, m)
		}
	}
	lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(src)), w())
	lint.New().Run(context.Background(), schemalex.NewReaderSource(io.MultiReader(strings.NewReader(src), failingReader{})), io.Discard)
	diff.Statements(w(), m, nil, diff.WithTransaction(true))
	diff.Strings(w(), src, src+"; CREATE TABLE `fail", diff.WithTransaction(true))
	diff.Files(io.Discard, "/nonexistent/a", "/nonexistent/b")
	var buf bytes.Buffer
	schemalex.NewLocalFileSource("/nonexistent/a").WriteSchema(&buf)
}

type failingReader struct{}

func (failingReader) Read([]byte) (int, error) { return 0, errors.New("broken") }

// broken returns objects that can not be formatted, after parts that can be.
func broken() []interface{} {
	col := func() model.TableColumn { return model.NewTableColumn("broken").SetType(model.ColumnTypeInt) }
	ref := model.NewReference().SetTableName("broken").SetOnDelete(model.ReferenceOption(77))
	ref.AddColumns(model.NewIndexColumn("broken"))
	fk := model.NewIndex(model.IndexKindForeignKey, "broken").SetReference(ref)
	fk.AddColumns(model.NewIndexColumn("broken"))
	none := model.NewIndex(model.IndexKindUnique, "broken").SetName("broken").SetSymbol("broken")
	enum := col().SetType(model.ColumnTypeEnum)
	bad := col().SetType(model.ColumnTypeMax)
	return []interface{}{
		ref, model.NewReference().SetTableName("broken"), fk, none, enum, bad, model.NewIndex(model.IndexKind(99), "broken").SetSymbol("broken"),
		model.NewTable("broken"), model.NewTable("broken").AddColumn(col()).AddColumn(bad), model.NewTable("broken").AddColumn(col()).AddIndex(fk).AddIndex(none),
		model.NewTable("broken").AddColumn(col()).AddIndex(none).SetTemporary(true), model.ColumnTypeMax, 5, nil,
	}
}
