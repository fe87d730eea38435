package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// instrumentAll inserts a scheduling point before every statement of every
// non-test package of the code under test (and of the bit set the bloom filter
// stores its bits in), and splits read-modify-write statements so that a
// preemption can fall between the read and the write.
func instrumentAll() {
	n := 0
	check(filepath.WalkDir(*repo, func(p string, d os.DirEntry, err error) error {
		check(err)
		b := d.Name()
		if d.IsDir() {
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "docs" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(b, ".go") && !strings.HasSuffix(b, "_test.go") {
			n += instrumentFile(p)
		}
		return nil
	}))
	gm, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	check(err)
	for _, m := range []string{"github.com/bits-and-blooms/bitset", "github.com/bits-and-blooms/bloom/v3"} {
		re := regexp.MustCompile(`(?m)^\s*` + regexp.QuoteMeta(m) + `\s+(v\S+)`)
		x := re.FindSubmatch(gm)
		if x == nil {
			fmt.Fprintf(os.Stderr, "mkoverlay: note: %s not required by go.mod\n", m)
			continue
		}
		dir := filepath.Join(*modc, m+"@"+string(x[1]))
		es, err := os.ReadDir(dir)
		check(err)
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
				n += instrumentFile(filepath.Join(dir, e.Name()))
			}
		}
	}
	fmt.Fprintf(os.Stderr, "mkoverlay: %d scheduling points\n", n)
}

type edit struct {
	at, end int
	text    string
	seq     int
}

func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name != "_"
	case *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	case *ast.IndexExpr:
		return simple(x.X) && simple(x.Index)
	case *ast.StarExpr:
		return simple(x.X)
	case *ast.ParenExpr:
		return simple(x.X)
	case *ast.BinaryExpr:
		return simple(x.X) && simple(x.Y)
	case *ast.UnaryExpr:
		return x.Op != token.ARROW && simple(x.X)
	}
	return false
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func instrumentFile(path string) int {
	src, err := os.ReadFile(path)
	check(err)
	if filepath.Dir(path) == filepath.Clean(*repo) {
		src = choosable(path, src)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	n := 0
	add := func(at, end int, text string) {
		edits = append(edits, edit{at, end, text, len(edits)})
	}
	text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch x := s.(type) {
			case *ast.EmptyStmt:
				continue
			case *ast.AssignStmt:
				if len(x.Lhs) == 1 && len(x.Rhs) == 1 && simple(x.Lhs[0]) {
					l := text(x.Lhs[0])
					if x.Tok != token.ASSIGN && x.Tok != token.DEFINE && !hasCall(x.Rhs[0]) {
						op := strings.TrimSuffix(x.Tok.String(), "=")
						// one line only, so that line numbers stay
						r := text(x.Rhs[0])
						if !strings.Contains(l+r, "\n") && !strings.Contains(r, "//") {
							add(off(x.Pos()), off(x.End()), fmt.Sprintf("simrt.SimYield(0); { simtmp_ := %s; simrt.SimYield(0); %s = simtmp_ %s (%s) }", l, l, op, r))
							n += 2
							continue
						}
					}
					if c, ok := x.Rhs[0].(*ast.CallExpr); ok && x.Tok == token.ASSIGN {
						if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" && len(c.Args) > 0 && text(c.Args[0]) == l {
							inner := false
							for _, a := range c.Args {
								ast.Inspect(a, func(n ast.Node) bool {
									if _, ok := n.(*ast.FuncLit); ok {
										inner = true
									}
									return true
								})
							}
							if !inner {
								add(off(x.Pos()), off(x.Pos()), "simrt.SimYield(0); { simtmp_ := ")
								add(off(x.Pos()), off(x.Rhs[0].Pos()), "")
								add(off(x.End()), off(x.End()), fmt.Sprintf("; simrt.SimYield(0); %s = simtmp_ }", l))
								n += 2
								continue
							}
						}
					}
				}
			case *ast.IncDecStmt:
				if simple(x.X) {
					l := text(x.X)
					op := "+"
					if x.Tok == token.DEC {
						op = "-"
					}
					add(off(x.Pos()), off(x.End()), fmt.Sprintf("simrt.SimYield(0); { simtmp_ := %s; simrt.SimYield(0); %s = simtmp_ %s 1 }", l, l, op))
					n += 2
					continue
				}
			}
			add(off(s.Pos()), off(s.Pos()), "simrt.SimYield(0); ")
			n++
		}
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.FuncDecl:
			if x.Doc != nil {
				for _, c := range x.Doc.List {
					if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:norace") {
						return false
					}
				}
			}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.SwitchStmt:
			// the body of a switch holds clauses, not statements
			for _, c := range x.Body.List {
				ast.Inspect(c, func(ast.Node) bool { return true })
			}
		}
		return true
	})
	if n == 0 {
		return 0
	}
	// clauses are not statements to put something in front of
	clause := map[int]bool{}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch nd.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[off(nd.Pos())] = true
		}
		return true
	})
	add(off(f.Name.End()), off(f.Name.End()), `; import simrt "runtime"`)
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].at != edits[j].at {
			return edits[i].at < edits[j].at
		}
		return edits[i].seq < edits[j].seq
	})
	var o bytes.Buffer
	pos := 0
	for _, e := range edits {
		if clause[e.at] && e.text == "simrt.SimYield(0); " {
			n--
			continue
		}
		if e.at < pos {
			continue // inside a statement that was rewritten
		}
		o.Write(src[pos:e.at])
		o.WriteString(e.text)
		pos = e.end
	}
	o.Write(src[pos:])
	emit(path, shrink(path, number(path, o.Bytes())))
	return n
}

// points names the scheduling points.
var points []string

// number gives each scheduling point a number, by which the simulator counts
// the statements it reached.
func number(path string, src []byte) []byte {
	call := []byte("simrt.SimYield(0)")
	var o bytes.Buffer
	line := 1
	for {
		i := bytes.Index(src, call)
		if i < 0 {
			break
		}
		line += bytes.Count(src[:i], []byte("\n"))
		o.Write(src[:i])
		fmt.Fprintf(&o, "simrt.SimPoint(%d)", len(points))
		points = append(points, fmt.Sprintf("%s:%d", strings.TrimPrefix(path, filepath.Clean(*repo)+"/"), line))
		src = src[i+len(call):]
	}
	o.Write(src)
	return o.Bytes()
}

// dynamic are the constants each run may have its own value of (SimSizes).
var dynamic = []string{"persistentBatchSize", "ReindexBatchSize"}

// choosable lets each run choose the sizes, if they are plain values in all the
// functions that use them.
func choosable(path string, src []byte) []byte {
	for i, name := range dynamic {
		if !isPlain(name) {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		var o bytes.Buffer
		pos := 0
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(nd ast.Node) bool {
				if x, ok := nd.(*ast.Ident); ok && x.Name == name {
					o.Write(src[pos:fset.Position(x.Pos()).Offset])
					fmt.Fprintf(&o, "simrt.SimSize(%d, %s)", i, name)
					pos = fset.Position(x.End()).Offset
				}
				return true
			})
		}
		o.Write(src[pos:])
		src = append([]byte(nil), o.Bytes()...)
	}
	return src
}

var plain = map[string]bool{}

func isPlain(name string) bool {
	if *noshrink || *nodyn {
		return false
	}
	if x, ok := plain[name]; ok {
		return x
	}
	es, err := os.ReadDir(*repo)
	check(err)
	fine, found := true, false
	uses := func(n ast.Node) bool {
		u := false
		if n != nil {
			ast.Inspect(n, func(x ast.Node) bool {
				if id, ok := x.(*ast.Ident); ok && id.Name == name {
					u = true
				}
				return true
			})
		}
		return u
	}
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(*repo, e.Name()), nil, 0)
		if err != nil {
			die("%v", err)
		}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.GenDecl:
				for _, sp := range x.Specs {
					vs, ok := sp.(*ast.ValueSpec)
					if !ok {
						fine = fine && !uses(sp)
						continue
					}
					for _, id := range vs.Names {
						if id.Name == name && x.Tok == token.CONST {
							found = true
						} else if id.Name == name {
							fine = false
						}
					}
					for _, v := range vs.Values {
						// the number of buffers that a database starts with
						if uses(v) && !(len(vs.Names) == 1 && vs.Names[0].Name == "DefaultNumberOfPreAllocKeyBuffers") {
							fine = false
						}
					}
				}
			case *ast.FuncDecl:
				fine = fine && !uses(x.Type) && x.Name.Name != name && (x.Recv == nil || !uses(x.Recv))
				if x.Body == nil {
					continue
				}
				ast.Inspect(x.Body, func(nd ast.Node) bool {
					switch y := nd.(type) {
					case *ast.GenDecl:
						fine = fine && !(y.Tok == token.CONST && uses(y))
					case *ast.ArrayType:
						fine = fine && !uses(y)
					case *ast.SelectorExpr:
						fine = fine && y.Sel.Name != name
					case *ast.KeyValueExpr:
						fine = fine && !uses(y.Key)
					case *ast.AssignStmt:
						for _, l := range y.Lhs {
							fine = fine && !uses(l)
						}
					}
					return true
				})
			}
		}
	}
	plain[name] = fine && found
	if !plain[name] {
		fmt.Fprintf(os.Stderr, "mkoverlay: %s is the same for every run\n", name)
	}
	return plain[name]
}

// Sizes at which the code under test changes its behaviour, made small enough
// for simulated programs to cross them. A constant that is not found stays.
var sizes = []struct {
	re  *regexp.Regexp
	val string
}{
	{regexp.MustCompile(`\b(persistentBatchSize\s*=\s*)[0-9_]+\b`), "7"},
	{regexp.MustCompile(`\b(ReindexBatchSize\s*=\s*)[0-9_]+\b`), "5"},
	{regexp.MustCompile(`\b(exportFileSize\s*=\s*)[0-9_]+\s*<<\s*[0-9]+`), "2048"},
}

func shrink(path string, src []byte) []byte {
	if filepath.Dir(path) != filepath.Clean(*repo) || *noshrink {
		return src
	}
	for _, s := range sizes {
		if s.re.Match(src) {
			src = s.re.ReplaceAll(src, []byte("${1}"+s.val))
			fmt.Fprintf(os.Stderr, "mkoverlay: %s... %s\n", filepath.Base(path), s.val)
		}
	}
	return src
}
