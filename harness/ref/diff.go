package ref

import (
	"fmt"
	"sort"
)

// Diff lists the statements that lead from one schema to another, in no
// particular order and without positions of columns. If there is no way to
// express the migration, the error says why.
func Diff(from, to *Schema) ([]string, error) {
	from, to = from.Normalize(), to.Normalize()
	var l []string
	add := func(s *Stmt) { l = append(l, s.String()) }
	for _, t := range from.Tables {
		if to.Table(t.Name) == nil {
			add(&Stmt{Kind: "DROP TABLE", Name: t.Name})
		}
	}
	for _, t := range to.Tables {
		old := from.Table(t.Name)
		if old == nil {
			add(&Stmt{Kind: "CREATE TABLE", Name: t.Name, Table: t})
			continue
		}
		if old.HasLike != t.HasLike || old.Like != t.Like {
			return nil, fmt.Errorf("table %q: LIKE differs", t.Name)
		}
		alter := func(s *Stmt) { s.Kind, s.Name = "ALTER TABLE", t.Name; add(s) }
		for _, c := range old.Cols {
			if t.Col(c.Name) == nil {
				alter(&Stmt{Op: OpDropColumn, Arg: c.Name})
			}
		}
		for _, c := range t.Cols {
			switch o := old.Col(c.Name); {
			case o == nil:
				alter(&Stmt{Op: OpAddColumn, Col: c})
			case o.String() != c.String():
				alter(&Stmt{Op: OpChangeColumn, Arg: c.Name, Col: c})
			}
		}
		left := map[string]int{}
		for _, x := range old.Idx {
			left[x.Sig()]++
		}
		for _, x := range t.Idx {
			if left[x.Sig()] > 0 {
				left[x.Sig()]--
				continue
			}
			alter(&Stmt{Op: OpAddIndex, Idx: x})
		}
		for _, x := range old.Idx {
			if left[x.Sig()] == 0 {
				continue
			}
			left[x.Sig()]--
			switch n := fkName(x); {
			case x.Kind == Primary:
				alter(&Stmt{Op: OpDropPrimary})
			case n == nil:
				return nil, fmt.Errorf("table %q: key without a name can not be dropped", t.Name)
			case x.Kind == Foreign:
				alter(&Stmt{Op: OpDropFK, Arg: *n})
			default:
				if x.Name != nil {
					n = x.Name
				}
				alter(&Stmt{Op: OpDropIndex, Arg: *n})
			}
		}
	}
	sort.Strings(l)
	return l, nil
}

// Plain describes statements in the same way.
func Plain(stmts []*Stmt) []string {
	var l []string
	for _, s := range stmts {
		p := *s
		p.First, p.After = false, nil
		l = append(l, p.String())
	}
	sort.Strings(l)
	return l
}

// KeepsOrder tells whether the columns that both tables have are in the same order.
func KeepsOrder(a, b *Table) bool {
	last := -1
	for _, c := range a.Cols {
		p := b.ColPos(c.Name)
		if p < 0 {
			continue
		}
		if p < last {
			return false
		}
		last = p
	}
	return true
}

// CheckOrder checks that the statements come in an order that can be executed.
func CheckOrder(stmts []*Stmt, from *Schema) error {
	rank := map[string]int{"DROP TABLE": 1, "CREATE TABLE": 2, "ALTER TABLE": 3}
	last := 0
	cols := map[string]map[string]bool{}
	for _, t := range from.Tables {
		m := map[string]bool{}
		for _, c := range t.Cols {
			m[c.Name] = true
		}
		cols[t.Name] = m
	}
	// what must not come after what, within a table
	seen := map[string]map[string]bool{}
	for _, s := range stmts {
		r := rank[s.Kind]
		if r == 0 {
			return fmt.Errorf("unexpected statement %s", s)
		}
		if r < last {
			return fmt.Errorf("%s comes too late", s)
		}
		last = r
		if r != 3 {
			continue
		}
		if seen[s.Name] == nil {
			seen[s.Name] = map[string]bool{}
		}
		did := seen[s.Name]
		has := cols[s.Name]
		if has == nil {
			return fmt.Errorf("%s: no such table", s)
		}
		what := string(s.Op)
		var before []string
		switch s.Op {
		case OpDropFK:
			before = []string{"drop key", "column", "add key", "add fk"}
		case OpDropIndex, OpDropPrimary:
			what = "drop key"
			before = []string{"column", "add key", "add fk"}
		case OpDropColumn:
			what = "column"
			before = []string{"add key", "add fk"}
			delete(has, s.Arg)
			if len(has) == 0 {
				return fmt.Errorf("%s: the table is left without columns", s)
			}
		case OpAddColumn:
			what = "column"
			before = []string{"add fk"}
			if s.After != nil && !has[*s.After] {
				return fmt.Errorf("%s: column %q does not exist yet", s, *s.After)
			}
			has[s.Col.Name] = true
		case OpChangeColumn:
			what = "column"
			if !has[s.Arg] {
				return fmt.Errorf("%s: the column does not exist", s)
			}
		case OpAddIndex:
			what = "add key"
			before = []string{"add fk"}
			if s.Idx.Kind == Foreign {
				what, before = "add fk", nil
			}
			for _, c := range s.Idx.Cols {
				if !has[c.Name] {
					return fmt.Errorf("%s: column %q does not exist yet", s, c.Name)
				}
			}
		}
		for _, b := range before {
			if did[b] {
				return fmt.Errorf("%s comes too late", s)
			}
		}
		did[what] = true
	}
	return nil
}
