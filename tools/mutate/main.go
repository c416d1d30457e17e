// Mutate lists or applies small changes to Go source files, for trying out
// the checks: mutate FILE prints one line per change, mutate FILE N writes
// the file with change N to standard output.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
	what     string
}

func main() {
	file := os.Args[1]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		panic(err)
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	in := func(p token.Pos) string {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Pos() <= p && p < fd.End() {
				if fd.Recv != nil {
					return strings.TrimLeft(text(fd.Recv.List[0].Type), "*") + "." + fd.Name.Name
				}
				return fd.Name.Name
			}
		}
		return "-"
	}
	add := func(from, to token.Pos, repl, what string) {
		edits = append(edits, edit{off(from), off(to), repl, fmt.Sprintf("%s\t%d: %s", in(from), fset.Position(from).Line, what)})
	}
	logging := func(s string) bool {
		for _, w := range []string{"log.", "Log.", ".log()", "ms.log", "Debug", "Println", "Printf", ".Trace {", "verbose"} {
			if strings.Contains(s, w) {
				return true
			}
		}
		return false
	}
	swap := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+", token.MUL: "/", token.QUO: "*", token.SHL: ">>", token.SHR: "<<", token.AND: "|", token.OR: "&"}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			return n.Tok != token.IMPORT && n.Tok != token.TYPE
		case *ast.BinaryExpr:
			if r, ok := swap[n.Op]; ok {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, n.Op.String()+" becomes "+r+" in "+text(n))
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n.OpPos, n.OpPos+1, "", "no ! in "+text(n))
			}
		case *ast.IfStmt:
			if logging(text(n)) && len(text(n)) < 200 {
				return false
			}
			add(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "always: if "+text(n.Cond))
			add(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never: if "+text(n.Cond))
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt:
			if logging(text(n)) && len(text(n)) < 200 {
				return false
			}
			add(n.Pos(), n.End(), "", "without "+strings.SplitN(text(n), "\n", 2)[0])
		case *ast.AssignStmt:
			if n.Tok == token.ASSIGN && len(n.Lhs) == 1 {
				add(n.Pos(), n.End(), "_ = "+text(n.Rhs[0]), "without "+strings.SplitN(text(n), "\n", 2)[0])
			} else if n.Tok != token.DEFINE && n.Tok != token.ASSIGN {
				add(n.Pos(), n.End(), "", "without "+text(n))
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil && v < 200 {
					add(n.Pos(), n.End(), fmt.Sprint(v+1), fmt.Sprintf("%s becomes %d", n.Value, v+1))
					if v > 0 {
						add(n.Pos(), n.End(), fmt.Sprint(v-1), fmt.Sprintf("%s becomes %d", n.Value, v-1))
					}
				}
			}
		case *ast.Ident:
			if n.Name == "true" {
				add(n.Pos(), n.End(), "false", "true becomes false")
			}
			if n.Name == "false" {
				add(n.Pos(), n.End(), "true", "false becomes true")
			}
		case *ast.ReturnStmt:
			for _, r := range n.Results {
				if id, ok := r.(*ast.Ident); ok && (id.Name == "err" || strings.HasPrefix(id.Name, "Err")) {
					add(r.Pos(), r.End(), "nil", "nil instead of "+id.Name)
				}
			}
		}
		return true
	})
	if len(os.Args) == 2 {
		for i, e := range edits {
			fmt.Printf("%d\t%s\n", i, strings.ReplaceAll(e.what, "\n", " "))
		}
		return
	}
	i, err := strconv.Atoi(os.Args[2])
	if err != nil {
		panic(err)
	}
	e := edits[i]
	os.Stdout.Write(src[:e.from])
	os.Stdout.WriteString(e.text)
	os.Stdout.Write(src[e.to:])
}
