// Command mutgen lists small changes to Go source files, for testing the
// checks.  Usage: mutgen FILE[:FUNCREGEXP]...; prints one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"regexp"
	"strings"
)

type mut struct {
	File, Func, Desc string
	Line             int
	Off, End         int
	New              string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, arg := range os.Args[1:] {
		name, re, _ := strings.Cut(arg, ":")
		rx := regexp.MustCompile(re)
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || !rx.MatchString(fd.Name.Name) {
				continue
			}
			fn := fd.Name.Name
			if fd.Recv != nil {
				fn = string(src[fs.Position(fd.Recv.List[0].Type.Pos()).Offset:fs.Position(fd.Recv.List[0].Type.End()).Offset]) + "." + fn
			}
			emit := func(p, e token.Pos, s, desc string) {
				a, b := fs.Position(p).Offset, fs.Position(e).Offset
				old := strings.Join(strings.Fields(string(src[a:b])), " ")
				if len(old) > 80 {
					old = old[:80] + "…"
				}
				enc.Encode(mut{name, fn, fmt.Sprintf("%s: %s -> %s", desc, old, s), fs.Position(p).Line, a, b, s})
			}
			text := func(n ast.Node) string {
				return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					var ops []string
					switch n.Op {
					case token.LSS:
						ops = []string{"<="}
					case token.LEQ:
						ops = []string{"<"}
					case token.GTR:
						ops = []string{">="}
					case token.GEQ:
						ops = []string{">"}
					case token.EQL:
						ops = []string{"!="}
					case token.ADD:
						ops = []string{"-"}
					case token.SUB:
						ops = []string{"+"}
					case token.SHL:
						ops = []string{">>"}
					case token.LAND:
						emit(n.Pos(), n.End(), text(n.X), "drop right")
						emit(n.Pos(), n.End(), text(n.Y), "drop left")
					case token.LOR:
						emit(n.Pos(), n.End(), text(n.X), "drop right")
						emit(n.Pos(), n.End(), text(n.Y), "drop left")
					}
					for _, o := range ops {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, "operator in "+text(n))
					}
				case *ast.BasicLit:
					if n.Kind == token.INT && len(n.Value) < 6 {
						emit(n.Pos(), n.End(), "("+n.Value+"+1)", "constant")
						if n.Value != "0" {
							emit(n.Pos(), n.End(), "("+n.Value+"-1)", "constant")
						}
					}
				case *ast.IfStmt:
					if n.Init == nil {
						if _, ok := n.Cond.(*ast.BinaryExpr); ok || true {
							emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "never")
							if n.Else == nil && strings.Contains(text(n.Cond), "err") {
								break
							}
							emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "always")
						}
					}
				case *ast.BlockStmt:
					for _, s := range n.List {
						switch s := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
							emit(s.Pos(), s.End(), "", "delete")
						case *ast.AssignStmt:
							if s.Tok != token.DEFINE {
								emit(s.Pos(), s.End(), "", "delete")
							}
						}
					}
				}
				return true
			})
		}
	}
}
