// instr copies Go sources, adding a scheduling point before every statement.
// usage: instr OUTDIR FILE... ; prints one line "src\tdst" per rewritten file.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const imp = `; import vsched_ "github.com/DanLavine/willow/internal/verif/vsched"`

func main() {
	out := os.Args[1]
	for _, file := range os.Args[2:] {
		src, err := os.ReadFile(file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			continue // the compiler will say why
		}
		type ins struct {
			off  int
			text string
		}
		var list []ins
		add := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				at := fset.Position(s.Pos())
				h := fnv.New32a()
				fmt.Fprint(h, file, at.Offset)
				list = append(list, ins{at.Offset, fmt.Sprintf("vsched_.P(%d);", h.Sum32())})
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.FuncDecl:
				if b.Name.Name == "init" && b.Recv == nil {
					return false
				}
			case *ast.SwitchStmt:
				for _, c := range b.Body.List {
					ast.Inspect(c, func(ast.Node) bool { return false })
				}
			case *ast.BlockStmt:
				if len(b.List) > 0 {
					switch b.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause: // the body of a switch or select
					default:
						add(b.List)
					}
				}
			case *ast.CaseClause:
				add(b.Body)
			case *ast.CommClause:
				add(b.Body)
			}
			return true
		})
		if len(list) == 0 {
			continue
		}
		list = append(list, ins{fset.Position(f.Name.End()).Offset, imp})
		sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
		var sb strings.Builder
		last := 0
		for _, i := range list {
			sb.Write(src[last:i.off])
			sb.WriteString(i.text)
			last = i.off
		}
		sb.Write(src[last:])
		dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(file, "/"), "/", "__"))
		if err := os.WriteFile(dst, []byte(sb.String()), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fmt.Printf("%s\t%s\n", file, dst)
	}
}
