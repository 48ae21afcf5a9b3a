package ref

import (
	"fmt"
	"strings"
)

// DB is a database server that executes data definition statements, with
// FOREIGN_KEY_CHECKS = 0. It keeps tables in their canonical form. What the
// server leaves to the storage engine is not modelled; see DESIGN.md.
type DB struct {
	Tables []*Table
	// AutoInc: an AUTO_INCREMENT column must be the first one of a key
	AutoInc bool
	// PrimaryNotNull: columns of a primary key can not be declared NULL
	PrimaryNotNull bool
	// Covered: no index is created for a foreign key if another one will do
	Covered bool
}

func same(a, b string) bool { return a == b || strings.EqualFold(a, b) }

func (db *DB) find(name string) (int, *Table) {
	for i, t := range db.Tables {
		if t.Name == name {
			return i, t
		}
	}
	return -1, nil
}

// Load executes CREATE TABLE statements for the schema.
func (db *DB) Load(s *Schema) error {
	for _, t := range s.Tables {
		if err := db.Exec(&Stmt{Kind: "CREATE TABLE", Name: t.Name, Table: t}); err != nil {
			return err
		}
	}
	return nil
}

// Exec executes a statement.
func (db *DB) Exec(st *Stmt) error {
	if err := db.exec(st); err != nil {
		return fmt.Errorf("%s: %s", st, err)
	}
	return nil
}

func (db *DB) exec(st *Stmt) error {
	switch st.Kind {
	case "BEGIN", "COMMIT", "FK0", "FK1":
		return nil
	case "DROP TABLE":
		i, t := db.find(st.Name)
		if t == nil {
			return fmt.Errorf("unknown table")
		}
		db.Tables = append(db.Tables[:i:i], db.Tables[i+1:]...)
		return nil
	case "CREATE TABLE":
		if _, t := db.find(st.Name); t != nil {
			return fmt.Errorf("table exists")
		}
		t := st.Table.Clone()
		if !t.HasLike {
			t.Cols, t.Idx = nil, nil
			if len(st.Table.Cols) == 0 {
				return fmt.Errorf("a table must have a column")
			}
			for _, c := range st.Table.Cols {
				if err := db.addCol(t, c, false, nil); err != nil {
					return err
				}
			}
			// a key can take the name that a foreign key before it would use
			for _, fk := range []bool{false, true} {
				for _, x := range st.Table.Idx {
					if (x.Kind == Foreign) == fk {
						if err := db.addIdx(t, x); err != nil {
							return err
						}
					}
				}
			}
		}
		if err := db.check(t); err != nil {
			return err
		}
		db.Tables = append(db.Tables, t)
		return nil
	case "ALTER TABLE":
		_, t := db.find(st.Name)
		if t == nil {
			return fmt.Errorf("unknown table")
		}
		if t.HasLike {
			return fmt.Errorf("the definition of the table is not known")
		}
		if err := db.alter(t, st); err != nil {
			return err
		}
		return db.check(t)
	}
	return fmt.Errorf("unknown statement")
}

// check checks what must hold after every statement.
func (db *DB) check(t *Table) error {
	if t.HasLike {
		return nil
	}
	if len(t.Cols) == 0 {
		return fmt.Errorf("all columns are gone")
	}
	if db.AutoInc {
		for _, c := range t.Cols {
			ok := !c.AutoInc
			for _, x := range t.Idx {
				ok = ok || x.Kind != Foreign && x.Cols[0].Name == c.Name
			}
			if !ok {
				return fmt.Errorf("AUTO_INCREMENT column %q must be a key", c.Name)
			}
		}
	}
	if db.PrimaryNotNull {
		for _, x := range t.Idx {
			for _, k := range x.Cols {
				c := t.Col(k.Name)
				if x.Kind == Primary && c.Default != nil && c.Default.Val == "NULL" && !c.Default.Quoted {
					return fmt.Errorf("column %q of the primary key has the default NULL", c.Name)
				}
			}
		}
	}
	return nil
}

func indexName(x *Index) *string {
	if x.Name == nil && x.Kind == Unique {
		return x.Symbol
	}
	return x.Name
}

func fkName(x *Index) *string {
	if x.Symbol != nil {
		return x.Symbol
	}
	return x.Name
}

func findIdx(t *Table, name string) int {
	for i, x := range t.Idx {
		if n := indexName(x); x.Kind != Foreign && x.Kind != Primary && n != nil && same(*n, name) {
			return i
		}
	}
	return -1
}

func (db *DB) addIdx(t *Table, x *Index) error {
	x = x.Clone()
	seen := map[string]bool{}
	if len(x.Cols) == 0 {
		return fmt.Errorf("key without columns")
	}
	for _, c := range x.Cols {
		if t.Col(c.Name) == nil {
			return fmt.Errorf("key column %q does not exist", c.Name)
		}
		if seen[c.Name] {
			return fmt.Errorf("duplicate column %q in key", c.Name)
		}
		seen[c.Name] = true
	}
	switch x.Kind {
	case Primary:
		for _, y := range t.Idx {
			if y.Kind == Primary {
				return fmt.Errorf("multiple primary keys")
			}
		}
	case Foreign:
		if n := fkName(x); n != nil {
			for _, y := range t.Idx {
				if m := fkName(y); y.Kind == Foreign && m != nil && same(*m, *n) {
					return fmt.Errorf("duplicate foreign key %q", *n)
				}
			}
		}
		if x.Symbol != nil {
			// the index that is implied, unless there is one of that name
			if i := findIdx(t, *x.Symbol); i >= 0 && (t.Idx[i].Name == nil || *t.Idx[i].Name != *x.Symbol) {
				return fmt.Errorf("duplicate key name %q", *x.Symbol)
			}
		}
		if x.Symbol != nil && findIdx(t, *x.Symbol) < 0 && !(db.Covered && covered(t, x)) {
			t.Idx = append(t.Idx, &Index{Kind: Normal, Name: cloneP(x.Symbol), Using: x.Using, Cols: cloneIdxCols(x.Cols)})
		}
	default:
		if n := indexName(x); n != nil && findIdx(t, *n) >= 0 {
			return fmt.Errorf("duplicate key name %q", *n)
		}
	}
	t.Idx = append(t.Idx, x)
	return nil
}

func covered(t *Table, x *Index) bool {
	for _, y := range t.Idx {
		if y.Kind == Foreign || len(y.Cols) < len(x.Cols) {
			continue
		}
		ok := true
		for i, c := range x.Cols {
			ok = ok && y.Cols[i].Name == c.Name
		}
		if ok {
			return true
		}
	}
	return false
}

// addCol adds a column, and the keys that are declared along with it.
func (db *DB) addCol(t *Table, c *Col, first bool, after *string) error {
	for _, d := range t.Cols {
		if same(d.Name, c.Name) {
			return fmt.Errorf("duplicate column %q", c.Name)
		}
	}
	pos := len(t.Cols)
	if first {
		pos = 0
	}
	if after != nil {
		p := t.ColPos(*after)
		if p < 0 {
			return fmt.Errorf("column %q to add after does not exist", *after)
		}
		pos = p + 1
	}
	t.Cols = append(t.Cols[:pos:pos], append([]*Col{nil}, t.Cols[pos:]...)...)
	t.Cols[pos] = &Col{Name: c.Name}
	return db.setCol(t, pos, c)
}

func (db *DB) setCol(t *Table, pos int, c *Col) error {
	n := c.Normalize()
	n.Primary, n.Key, n.Unique = false, false, false
	t.Cols[pos] = n
	if c.Primary || c.Key {
		if err := db.addIdx(t, &Index{Kind: Primary, Cols: []IdxCol{{Name: c.Name}}}); err != nil {
			return err
		}
	}
	if c.Unique {
		return db.addIdx(t, &Index{Kind: Unique, Name: P(c.Name), Cols: []IdxCol{{Name: c.Name}}})
	}
	return nil
}

func (db *DB) alter(t *Table, st *Stmt) error {
	dropIdx := func(i int) { t.Idx = append(t.Idx[:i:i], t.Idx[i+1:]...) }
	switch st.Op {
	case OpDropColumn:
		p := t.ColPos(st.Arg)
		if p < 0 {
			return fmt.Errorf("unknown column")
		}
		for i := 0; i < len(t.Idx); i++ {
			x := t.Idx[i]
			var keep []IdxCol
			for _, c := range x.Cols {
				if c.Name != st.Arg {
					keep = append(keep, c)
				}
			}
			if len(keep) < len(x.Cols) && x.Kind == Foreign {
				return fmt.Errorf("column is needed in a foreign key")
			}
			x.Cols = keep
			if len(keep) == 0 {
				dropIdx(i)
				i--
			}
		}
		t.Cols = append(t.Cols[:p:p], t.Cols[p+1:]...)
	case OpAddColumn:
		return db.addCol(t, st.Col, st.First, st.After)
	case OpChangeColumn:
		p := t.ColPos(st.Arg)
		if p < 0 {
			return fmt.Errorf("unknown column")
		}
		if st.Col.Name != st.Arg {
			return fmt.Errorf("column is renamed")
		}
		if st.First || st.After != nil {
			old := t.Cols[p]
			t.Cols = append(t.Cols[:p:p], t.Cols[p+1:]...)
			to := 0
			if st.After != nil {
				if to = t.ColPos(*st.After) + 1; to == 0 {
					return fmt.Errorf("column %q does not exist", *st.After)
				}
			}
			t.Cols = append(t.Cols[:to:to], append([]*Col{old}, t.Cols[to:]...)...)
			p = to
		}
		return db.setCol(t, p, st.Col)
	case OpDropPrimary:
		for i, x := range t.Idx {
			if x.Kind == Primary {
				dropIdx(i)
				return nil
			}
		}
		return fmt.Errorf("no primary key")
	case OpDropIndex:
		i := findIdx(t, st.Arg)
		if i < 0 {
			return fmt.Errorf("unknown key")
		}
		dropIdx(i)
	case OpDropFK:
		for i, x := range t.Idx {
			if n := fkName(x); x.Kind == Foreign && n != nil && *n == st.Arg {
				dropIdx(i)
				return nil
			}
		}
		return fmt.Errorf("unknown foreign key")
	case OpAddIndex:
		return db.addIdx(t, st.Idx)
	default:
		return fmt.Errorf("unknown operation")
	}
	return nil
}
