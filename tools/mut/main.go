package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type M struct {
	ID         int
	File       string
	Line       int
	From, To   int
	New        string
	Kind, Func string
	Old        string
}

func main() {
	root := os.Args[1]
	var out []M
	for _, f := range os.Args[2:] {
		src, _ := os.ReadFile(root + "/" + f)
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		fn := ""
		seen := map[string]bool{}
		add := func(kind string, from, to token.Pos, nw string) {
			a, b := off(from), off(to)
			k := fmt.Sprint(a, b, nw)
			if seen[k] || string(src[a:b]) == nw {
				return
			}
			seen[k] = true
			out = append(out, M{len(out), f, fs.Position(from).Line, a, b, nw, kind, fn, string(src[a:b])})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		_ = bytes.MinRead
		_ = printer.Fprint
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					for _, s := range x.List {
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
							add("del", s.Pos(), s.End(), "")
						case *ast.AssignStmt:
							if y.Tok == token.DEFINE {
								break
							}
							var l []string
							for range y.Lhs {
								l = append(l, "_")
							}
							if y.Tok == token.ASSIGN {
								blank := true
								for _, e := range y.Lhs {
									if text(e) != "_" {
										blank = false
									}
								}
								if blank {
									add("del", s.Pos(), s.End(), "")
									break
								}
								add("noassign", s.Pos(), y.TokPos, strings.Join(l, ", ")+" ")
							} else {
								add("del", s.Pos(), s.End(), "")
							}
						case *ast.IfStmt:
							if y.Else == nil {
								add("delif", y.Body.Pos(), y.Body.End(), "{ }")
							}
						case *ast.BranchStmt:
							if y.Tok == token.BREAK {
								add("branch", s.Pos(), s.End(), "continue")
							} else if y.Tok == token.CONTINUE {
								add("branch", s.Pos(), s.End(), "break")
							}
						}
					}
				case *ast.CaseClause:
					for _, s := range x.Body {
						switch s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt:
							add("del", s.Pos(), s.End(), "")
						}
					}
				case *ast.IfStmt:
					if text(x.Cond) != "err != nil" {
						add("neg", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
						add("condtrue", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
						add("condfalse", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
					} else {
						add("condfalse", x.Cond.Pos(), x.Cond.End(), "err != nil && false")
					}
				case *ast.ForStmt:
					if x.Post != nil {
						add("once", x.Body.Rbrace, x.Body.Rbrace, "; break ")
					}
				case *ast.RangeStmt:
					add("once", x.Body.Rbrace, x.Body.Rbrace, "; break ")
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{
						token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
						token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.QUO: {"*"}, token.REM: {"+"},
					}
					if text(x) == "err != nil" {
						break
					}
					for _, a := range alt[x.Op] {
						add("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							add("int", x.Pos(), x.End(), fmt.Sprint(v+1))
							if v > 0 {
								add("int", x.Pos(), x.End(), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.Ident:
					switch x.Name {
					case "true":
						add("bool", x.Pos(), x.End(), "false")
					case "false":
						add("bool", x.Pos(), x.End(), "true")
					case "Sync":
						add("sync", x.Pos(), x.End(), "NoSync")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						t := text(r)
						if t == "err" {
							add("rnil", r.Pos(), r.End(), "nil")
						}
						if c, ok := r.(*ast.CallExpr); ok && strings.HasPrefix(text(c), "fmt.Errorf") {
							add("rnil", r.Pos(), r.End(), "nil")
						}
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						add("slice", x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1")
					}
					if x.High != nil {
						add("slice", x.High.Pos(), x.High.End(), "("+text(x.High)+")-1")
					}
				case *ast.CallExpr:
					t := text(x)
					if strings.HasPrefix(t, "append(") && len(x.Args) == 2 && !x.Ellipsis.IsValid() {
						add("noappend", x.Pos(), x.End(), text(x.Args[0]))
					}
				}
				return true
			})
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
