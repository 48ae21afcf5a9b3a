package ref

import (
	"fmt"
	"sort"
	"strings"
)

// firstDiff describes the first difference between two lists.
func firstDiff(what string, want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("%s %d is missing: want %s", what, i, want[i])
		case i >= len(want):
			return fmt.Sprintf("%s %d is superfluous: got %s", what, i, got[i])
		case want[i] != got[i]:
			return fmt.Sprintf("%s %d differs:\n    want %s\n    got  %s", what, i, want[i], got[i])
		}
	}
	return ""
}

// How says what to ignore when comparing.
type How struct {
	IndexOrder bool // the order of indexes matters
	Asc        bool // ASC differs from no direction
	Options    bool // table options, TEMPORARY and IF NOT EXISTS matter
	TableOrder bool
}

// Exactly compares everything.
var Exactly = How{IndexOrder: true, Asc: true, Options: true, TableOrder: true}

// Compare describes the first difference, or returns "".
func Compare(want, got *Schema, how How) string {
	w, g := append([]*Table(nil), want.Tables...), append([]*Table(nil), got.Tables...)
	if !how.TableOrder {
		sort.SliceStable(w, func(i, j int) bool { return w[i].Name < w[j].Name })
		sort.SliceStable(g, func(i, j int) bool { return g[i].Name < g[j].Name })
	}
	for i := 0; i < len(w) || i < len(g); i++ {
		switch {
		case i >= len(g):
			return fmt.Sprintf("table %d (%q) is missing", i, w[i].Name)
		case i >= len(w):
			return fmt.Sprintf("table %d (%q) is superfluous", i, g[i].Name)
		}
		if d := CompareTables(w[i], g[i], how); d != "" {
			return fmt.Sprintf("table %d (%q): %s", i, w[i].Name, d)
		}
	}
	return ""
}

// CompareTables describes the first difference, or returns "".
func CompareTables(w, g *Table, how How) string {
	if how.Options && w.Head() != g.Head() || w.Name != g.Name || w.HasLike != g.HasLike || w.Like != g.Like {
		return fmt.Sprintf("\n    want %s\n    got  %s", w.Head(), g.Head())
	}
	var a, b []string
	for _, c := range w.Cols {
		a = append(a, c.String())
	}
	for _, c := range g.Cols {
		b = append(b, c.String())
	}
	if d := firstDiff("column", a, b); d != "" {
		return d
	}
	a, b = IdxList(w, how.Asc), IdxList(g, how.Asc)
	if !how.IndexOrder {
		sort.Strings(a)
		sort.Strings(b)
	}
	if d := firstDiff("index", a, b); d != "" {
		return d
	}
	if how.Options {
		a, b = nil, nil
		for _, o := range w.Opts {
			a = append(a, o.String())
		}
		for _, o := range g.Opts {
			b = append(b, o.String())
		}
		if d := firstDiff("option", a, b); d != "" {
			return d
		}
	}
	return ""
}

// IdxList describes all indexes.
func IdxList(t *Table, asc bool) []string {
	var l []string
	for _, x := range t.Idx {
		l = append(l, x.str(!asc))
	}
	return l
}

// Indent indents a text.
func Indent(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }
