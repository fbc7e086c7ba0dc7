// Command mutate lists small changes to Go source files: mutate FILE... writes
// one line per change, "file<TAB>from<TAB>to<TAB>replacement (quoted)<TAB>what",
// with byte offsets. tools/mutate/run.py tries them out. With -swap it lists
// neighbouring statements in the other order instead, each together with the
// test of its error; what of that changes no behaviour must not be reported.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strings"
)

var fset = token.NewFileSet()

func show(n ast.Node) string {
	var b strings.Builder
	printer.Fprint(&b, fset, n)
	return b.String()
}

// swaps lists neighbouring statements in the other order.
func swaps(fn *ast.FuncDecl, text func(ast.Node) string, src func(a, b token.Pos) string, emit func(from, to token.Pos, repl, what string)) {
	type unit struct {
		first, last ast.Stmt
	}
	body := func(list []ast.Stmt) {
		var units []unit
		for i := 0; i < len(list); i++ {
			u := unit{list[i], list[i]}
			for i+1 < len(list) {
				n, ok := list[i+1].(*ast.IfStmt)
				if !ok || !strings.Contains(text(n.Cond), "err") {
					break
				}
				i++
				u.last = n
			}
			units = append(units, u)
		}
		for i := 0; i+1 < len(units); i++ {
			a, b := units[i], units[i+1]
			if _, ok := b.last.(*ast.ReturnStmt); ok {
				continue
			}
			one, two := src(a.first.Pos(), a.last.End()), src(b.first.Pos(), b.last.End())
			declares := strings.HasPrefix(one, "err :=") || strings.Contains(strings.SplitN(one, "\n", 2)[0], ", err :=")
			if declares && strings.HasPrefix(two, "err =") {
				two = "err :=" + two[len("err ="):]
			}
			if strings.HasPrefix(one, "err :=") {
				one = "err =" + one[len("err :="):]
			}
			emit(a.first.Pos(), b.last.End(), two+"\n"+one, "swap: "+strings.SplitN(two, "\n", 2)[0]+" first")
		}
	}
	ast.Inspect(fn.Body, func(n ast.Node) bool {
		if n, ok := n.(*ast.BlockStmt); ok {
			body(n.List)
		}
		return true
	})
}

func main() {
	swap := len(os.Args) > 1 && os.Args[1] == "-swap"
	if swap {
		os.Args = os.Args[1:]
	}
	for _, path := range os.Args[1:] {
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			panic(err)
		}
		at := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[at(n.Pos()):at(n.End())]) }
		emit := func(from, to token.Pos, repl, what string) {
			fmt.Printf("%s\t%d\t%d\t%q\t%d: %s\n", path, at(from), at(to), repl, fset.Position(from).Line, strings.Join(strings.Fields(what), " "))
		}
		fields := map[string][]string{} // struct type -> uint fields
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok {
				for _, s := range g.Specs {
					if t, ok := s.(*ast.TypeSpec); ok {
						if st, ok := t.Type.(*ast.StructType); ok {
							for _, fl := range st.Fields.List {
								for _, n := range fl.Names {
									fields[t.Name.Name+" "+show(fl.Type)] = append(fields[t.Name.Name+" "+show(fl.Type)], n.Name)
								}
							}
						}
					}
				}
			}
		}
		mates := func(name string) []string {
			for _, list := range fields {
				for _, n := range list {
					if n == name && len(list) > 1 {
						return list
					}
				}
			}
			return nil
		}
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			if swap {
				swaps(fn, text, func(a, b token.Pos) string { return string(src[at(a):at(b)]) }, emit)
				continue
			}
			uints := map[string]bool{} // names of values that are probably of one type
			ast.Inspect(fn, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					if n.Tok == token.DEFINE {
						for _, l := range n.Lhs {
							if id, ok := l.(*ast.Ident); ok && id.Name != "err" && id.Name != "_" {
								uints[id.Name] = true
							}
						}
					}
				case *ast.Field:
					for _, id := range n.Names {
						uints[id.Name] = true
					}
				}
				return true
			})
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.IfStmt:
					if text(n.Cond) == "err != nil" && n.Else == nil {
						emit(n.Pos(), n.End(), "_ = err", "error ignored")
					} else {
						emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate "+text(n.Cond))
						emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never "+text(n.Cond))
						emit(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "always "+text(n.Cond))
					}
				case *ast.BinaryExpr:
					for _, x := range map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.SHR: {"<<"}}[n.Op] {
						if text(n) != "err != nil" {
							emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), x, n.Op.String()+" becomes "+x)
						}
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						emit(n.Pos(), n.End(), "("+n.Value+" + 1)", "one more")
						emit(n.Pos(), n.End(), "("+n.Value+" - 1)", "one less")
					}
					if n.Kind == token.STRING && len(n.Value) < 8 {
						emit(n.Pos(), n.End(), n.Value[:len(n.Value)-1]+"x"+n.Value[len(n.Value)-1:], "other string")
					}
				case *ast.ExprStmt:
					emit(n.Pos(), n.End(), "", "left out: "+text(n))
				case *ast.AssignStmt:
					if n.Tok == token.ASSIGN && text(n.Lhs[0]) != "_" {
						if len(n.Lhs) == 1 && text(n.Lhs[0]) == "err" {
							emit(n.Pos(), n.End(), "err = nil", "left out: "+text(n))
						} else {
							var blanks []string
							for range n.Lhs {
								blanks = append(blanks, "_")
							}
							emit(n.Pos(), n.End(), strings.Join(blanks, ", ")+" = "+text(n.Rhs[0]), "not assigned: "+text(n))
						}
					}
					if n.Tok == token.DEFINE && len(n.Lhs) == 1 && text(n.Lhs[0]) == "err" {
						emit(n.Pos(), n.End(), "var err error", "left out: "+text(n))
					}
					if n.Tok == token.DEFINE && len(n.Lhs) == 3 {
						emit(n.Pos(), n.End(), text(n.Lhs[1])+", "+text(n.Lhs[0])+", "+text(n.Lhs[2])+" := "+text(n.Rhs[0]), "swapped results")
					}
				case *ast.BranchStmt:
					if n.Tok == token.BREAK {
						emit(n.Pos(), n.End(), "continue", "break becomes continue")
					}
					if n.Tok == token.CONTINUE {
						emit(n.Pos(), n.End(), "break", "continue becomes break")
					}
				case *ast.IncDecStmt:
					emit(n.Pos(), n.End(), "", "left out: "+text(n))
				case *ast.ReturnStmt:
					for i, x := range n.Results {
						switch t := text(x); {
						case t == "true":
							emit(x.Pos(), x.End(), "false", "returns false")
						case t == "false" && i == 0 && text(n.Results[len(n.Results)-1]) != "err":
							emit(x.Pos(), x.End(), "true", "returns true")
						case t == "nil" && i == len(n.Results)-1 && i > 0:
						case t == "err" && len(n.Results) > 1:
							emit(x.Pos(), x.End(), "nil", "error not returned")
						}
					}
				case *ast.CallExpr:
					if len(n.Args) == 2 {
						emit(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]), "arguments swapped: "+text(n))
					}
					if s, ok := n.Fun.(*ast.SelectorExpr); ok {
						for _, x := range map[string][]string{"ReadSources": {"ReadTargets"}, "ReadTargets": {"ReadSources"}, "Connect": {"SetReference", "Disconnect"}, "SetReference": {"Connect"},
							"ReadEntityByClass": {"ReadEntityByFact", "ReadEntityByStory"}, "ReadEntityByTree": {"ReadEntityByPosition"}, "ReadEntityByPosition": {"ReadEntityByTree", "ReadEntityByStory", "ReadEntityByRemark"}}[s.Sel.Name] {
							emit(s.Sel.Pos(), s.Sel.End(), x, s.Sel.Name+" becomes "+x)
						}
					}
					for _, a := range n.Args {
						if id, ok := a.(*ast.Ident); ok && uints[id.Name] {
							for x := range uints {
								if x != id.Name {
									emit(id.Pos(), id.End(), x, id.Name+" becomes "+x)
								}
							}
						}
					}
				case *ast.KeyValueExpr:
					if id, ok := n.Value.(*ast.Ident); ok && uints[id.Name] {
						for x := range uints {
							if x != id.Name {
								emit(id.Pos(), id.End(), x, id.Name+" becomes "+x)
							}
						}
					}
				case *ast.SelectorExpr:
					for _, x := range mates(n.Sel.Name) {
						if x != n.Sel.Name {
							emit(n.Sel.Pos(), n.Sel.End(), x, n.Sel.Name+" becomes "+x)
						}
					}
				case *ast.IndexExpr:
					emit(n.Index.Pos(), n.Index.End(), "len("+text(n.X)+")-1-("+text(n.Index)+")", "index from the end")
				}
				return true
			})
		}
	}
}
