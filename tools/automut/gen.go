// gen lists small edits of the Go files named on the command line: one JSON object {file, pos, op, start, end, text} per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
	Op    string `json:"op"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		put := func(n ast.Node, op, t string) {
			enc.Encode(edit{name, fset.Position(n.Pos()).Line, fn, op, off(n.Pos()), off(n.End()), t})
		}
		stmt := func(s ast.Stmt) {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.SendStmt, *ast.IncDecStmt, *ast.BranchStmt:
				put(x, "delete", "")
			case *ast.DeferStmt:
				put(x, "delete", "")
				put(x, "undefer", text(x.Call))
			case *ast.GoStmt:
				put(x, "delete", "")
				put(x, "ungo", text(x.Call))
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN {
					put(x, "delete", "")
					for i, l := range x.Lhs {
						if len(x.Lhs) == len(x.Rhs) && len(x.Lhs) > 1 {
							_ = i
							_ = l
						}
					}
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					put(x, "delete", "")
				}
				for _, r := range x.Results {
					if t := text(r); t == "true" {
						put(r, "value", "false")
					} else if t == "false" {
						put(r, "value", "true")
					} else if t == "err" || strings.HasPrefix(t, "err") || strings.HasPrefix(t, "Err") || strings.HasPrefix(t, "errors.") || strings.HasPrefix(t, "fmt.Errorf") {
						put(r, "noerror", "nil")
					}
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				put(x.Cond, "negate", "!("+c+")")
				put(x.Cond, "true", "true || "+"("+c+")")
				put(x.Cond, "false", "false && "+"("+c+")")
				if x.Else == nil && x.Init == nil {
					put(x, "delete", "")
				}
				if x.Else == nil && x.Init != nil {
					put(x, "delete", text(x.Init))
				}
			}
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				fn = d.Name.Name
				if d.Recv != nil {
					var b strings.Builder
					printer.Fprint(&b, fset, d.Recv.List[0].Type)
					fn = b.String() + "." + fn
				}
			case *ast.GenDecl:
				fn = "decl"
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.BlockStmt:
					for _, s := range x.List {
						stmt(s)
					}
					for i := 0; i+1 < len(x.List); i++ {
						a, b := x.List[i], x.List[i+1]
						switch a.(type) {
						case *ast.ExprStmt, *ast.AssignStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.IfStmt:
							switch b.(type) {
							case *ast.ExprStmt, *ast.AssignStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
								enc.Encode(edit{name, fset.Position(a.Pos()).Line, fn, "swap", off(a.Pos()), off(b.End()), text(b) + "\n" + text(a)})
							}
						}
					}
				case *ast.CaseClause:
					for _, s := range x.Body {
						stmt(s)
					}
					if len(x.List) > 1 {
						for i := range x.List {
							var l []string
							for j, e := range x.List {
								if j != i {
									l = append(l, text(e))
								}
							}
							enc.Encode(edit{name, fset.Position(x.Pos()).Line, fn, "case", off(x.List[0].Pos()), off(x.List[len(x.List)-1].End()), strings.Join(l, ", ")})
						}
					}
					put(x, "delcase", "")
				case *ast.CommClause:
					for _, s := range x.Body {
						stmt(s)
					}
					put(x, "delcase", "")
				case *ast.BinaryExpr:
					for from, to := range map[token.Token][]string{token.LAND: {"||"}, token.LOR: {"&&"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}} {
						if x.Op == from {
							for _, t := range to {
								put(x, "op"+t, text(x.X)+" "+t+" "+text(x.Y))
							}
						}
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						put(x, "left", text(x.X))
						put(x, "right", text(x.Y))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							put(x, "int+1", fmt.Sprint(v+1))
							if v > 0 {
								put(x, "int-1", fmt.Sprint(v-1))
							}
						}
					}
					if x.Kind == token.STRING && len(x.Value) > 2 {
						if v, err := strconv.Unquote(x.Value); err == nil && len(v) < 30 {
							put(x, "string", strconv.Quote(v+"_"))
						}
					}
				case *ast.CallExpr:
					for i := 0; i+1 < len(x.Args); i++ {
						put2 := text(x.Args[i+1]) + ", " + text(x.Args[i])
						enc.Encode(edit{name, fset.Position(x.Pos()).Line, fn, "args", off(x.Args[i].Pos()), off(x.Args[i+1].End()), put2})
					}
				case *ast.KeyValueExpr:
					if _, ok := x.Key.(*ast.Ident); ok {
						put(x, "field", "")
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						put(x.Low, "low", "")
					}
					if x.High != nil {
						put(x.High, "high", "")
					}
				case *ast.Ident:
					if x.Name == "RLock" || x.Name == "RUnlock" {
					}
				}
				return true
			})
		}
	}
}
