// Command mutate lists small changes of Go files, as JSON: each is a range of
// bytes and what to replace it with.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Kind  string `json:"kind"`
	Edits []edit `json:"edits"`
}

type edit struct {
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
}

var out []mutant

func main() {
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, 0)
		if err != nil {
			panic(err)
		}
		mutateFile(fn, src, fset, f)
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func mutateFile(fn string, src []byte, fset *token.FileSet, f *ast.File) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(kind string, n ast.Node, e ...edit) {
		out = append(out, mutant{fn, fset.Position(n.Pos()).Line, kind, e})
	}
	repl := func(kind string, n ast.Node, s string) {
		if s != text(n) {
			add(kind+": "+short(text(n))+" -> "+short(s), n, edit{off(n.Pos()), off(n.End()), s})
		}
	}
	cond := func(e ast.Expr) {
		if e == nil {
			return
		}
		repl("negate", e, "!("+text(e)+")")
	}
	list := func(l []ast.Stmt) {
		for i, s := range l {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt:
				repl("delete", s, "")
			case *ast.BranchStmt:
				if s.Tok != token.FALLTHROUGH {
					repl("delete", s, "")
				} else {
					repl("delete", s, "")
				}
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					var keep []string
					for _, r := range s.Rhs {
						keep = append(keep, text(r))
					}
					blank := strings.TrimSuffix(strings.Repeat("_, ", len(s.Lhs)), ", ")
					repl("delete", s, blank+" = "+strings.Join(keep, ", "))
				}
			case *ast.IfStmt:
				if s.Else == nil && s.Init == nil {
					repl("delete", s, "")
				}
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
				repl("delete", s, "")
			}
			if i+1 < len(l) {
				a, b := l[i], l[i+1]
				if swappable(a) && swappable(b) {
					add("swap: "+short(text(a))+" <> "+short(text(b)), a, edit{off(a.Pos()), off(b.End()), text(b) + "\n" + text(a)})
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
			if len(n.List) > 1 {
				for i := range n.List {
					var rest []string
					for j, e := range n.List {
						if j != i {
							rest = append(rest, text(e))
						}
					}
					add("case without "+text(n.List[i]), n.List[i], edit{off(n.List[0].Pos()), off(n.List[len(n.List)-1].End()), strings.Join(rest, ", ")})
				}
			}
			if n.List != nil {
				add("case is dropped: "+short(text(n)), n, edit{off(n.Pos()), off(n.End()), ""})
			}
		case *ast.IfStmt:
			cond(n.Cond)
			repl("never", n.Cond, "false && ("+text(n.Cond)+")")
			repl("always", n.Cond, "true || ("+text(n.Cond)+")")
			if n.Else != nil {
				if b, ok := n.Else.(*ast.BlockStmt); ok {
					repl("no else", b, "{}")
				}
			}
		case *ast.ForStmt:
			if n.Cond != nil {
				repl("never", n.Cond, "false && ("+text(n.Cond)+")")
			}
		case *ast.BinaryExpr:
			for _, o := range other[n.Op] {
				add(fmt.Sprintf("%s -> %s in %s", n.Op, o, short(text(n))), n, edit{off(n.OpPos), off(n.OpPos) + len(n.Op.String()), o})
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				repl("operand", n, text(n.X))
				repl("operand", n, text(n.Y))
			}
			if n.Op == token.ADD || n.Op == token.OR {
				repl("operand", n, text(n.X))
				repl("operand", n, text(n.Y))
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				repl("no not", n, text(n.X))
			}
		case *ast.IncDecStmt:
			op := "--"
			if n.Tok == token.DEC {
				op = "++"
			}
			repl("incdec", n, text(n.X)+op)
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				if v, err := strconv.Atoi(n.Value); err == nil {
					repl("number", n, strconv.Itoa(v+1))
					if v > 0 {
						repl("number", n, strconv.Itoa(v-1))
					}
				}
			case token.STRING:
				if s, err := strconv.Unquote(n.Value); err == nil && s != "" {
					repl("string", n, `""`)
					if len(s) > 1 {
						repl("string", n, strconv.Quote(s[:len(s)-1]))
						repl("string", n, strconv.Quote(s[1:]))
					}
				}
			case token.CHAR:
				repl("char", n, "'x'")
			}
		case *ast.Ident:
			switch n.Name {
			case "true":
				repl("bool", n, "false")
			case "false":
				repl("bool", n, "true")
			}
		case *ast.ReturnStmt:
			if k := len(n.Results); k > 0 {
				last := n.Results[k-1]
				if t := text(last); t == "err" || strings.HasPrefix(t, "errors.") || strings.HasPrefix(t, "newParseError") {
					repl("error is lost", last, "nil")
				}
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(n.Args); i++ {
				a, b := n.Args[i], n.Args[i+1]
				add("arguments: "+short(text(n)), n, edit{off(a.Pos()), off(b.End()), text(b) + ", " + text(a)})
			}
			if s, ok := n.Fun.(*ast.SelectorExpr); ok {
				for _, p := range pairs {
					if s.Sel.Name == p[0] {
						repl("call", s.Sel, p[1])
					} else if s.Sel.Name == p[1] {
						repl("call", s.Sel, p[0])
					}
				}
			}
		case *ast.SelectorExpr:
			for _, p := range pairs {
				if n.Sel.Name == p[0] {
					repl("selector", n.Sel, p[1])
				} else if n.Sel.Name == p[1] {
					repl("selector", n.Sel, p[0])
				}
			}
		case *ast.SliceExpr:
			if n.Low != nil {
				repl("slice", n.Low, "0*("+text(n.Low)+")")
			}
		}
		return true
	})
}

var pairs = [][2]string{{"next", "peek"}, {"from", "to"}, {"fromColumns", "toColumns"}, {"fromIndexes", "toIndexes"}, {"fromSet", "toSet"},
	{"Name", "Symbol"}, {"HasName", "HasSymbol"}, {"Difference", "Intersect"}, {"IsPrimaryKey", "IsUnique"}, {"OnDelete", "OnUpdate"}, {"SetOnDelete", "SetOnUpdate"},
	{"Length", "Decimal"}, {"IsBtree", "IsHash"}, {"CharacterSet", "Collation"}, {"IsUnsigned", "IsZeroFill"}, {"IsKey", "IsPrimary"}, {"ToUpper", "ToLower"},
	{"Valid", "Value"}, {"start", "cur"}, {"RLock", "Lock"}, {"HasPrefix", "HasSuffix"}}

var other = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.OR: {"&"}, token.AND: {"|"},
}

func swappable(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IfStmt, *ast.IncDecStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
		return true
	case *ast.AssignStmt:
		return s.Tok != token.DEFINE
	}
	return false
}

func short(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 60 {
		s = s[:60] + "..."
	}
	return s
}
