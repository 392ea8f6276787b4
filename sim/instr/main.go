// Command instr writes a "go build -overlay" description that adds the simulator to the
// repository's main package without touching the repository:
//
//   - every statement of every non-test file is preceded by a yield (zzvsim.Y()), so that the
//     simulator's scheduler can preempt or kill a task between any two statements;
//   - time.Now, time.Since, time.Sleep read the simulated clock;
//   - package sync is replaced by a cooperative version;
//   - func main of the root package is renamed, the harness brings its own.
//
// usage: instr -repo DIR -sim DIR -out DIR [-plain]
//
// -plain leaves out yields and the sync replacement (used when the code starts goroutines of
// its own, or when the instrumented build fails).
// It prints "goroutines" when the code contains go statements.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, end int
	text     string
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	simDir := flag.String("sim", "", "")
	out := flag.String("out", "", "")
	plain := flag.Bool("plain", false, "")
	flag.Parse()

	mod := "github.com/takakv/msc-poc"
	if b, err := os.ReadFile(filepath.Join(*repo, "go.mod")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
				mod = f[1]
			}
		}
	}

	replace := map[string]string{}
	var files []string
	die(filepath.Walk(*repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			n := info.Name()
			if p != *repo && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor" || strings.HasPrefix(n, "_")) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	}))
	sort.Strings(files)

	// Package-level variables of each package: statements that mention them touch state that
	// tasks share, and are preferred as places to preempt.
	globals := map[string]map[string]bool{}
	for _, p := range files {
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		die(err)
		d := filepath.Dir(p)
		if globals[d] == nil {
			globals[d] = map[string]bool{}
		}
		for _, decl := range f.Decls {
			if g, ok := decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					for _, id := range sp.(*ast.ValueSpec).Names {
						globals[d][id.Name] = true
					}
				}
			}
		}
	}
	sites := 1
	var hotSites []int
	where := []string{""}
	kept := map[int]bool{}

	goStmts, mainIters := false, 0
	for n, p := range files {
		src, err := os.ReadFile(p)
		die(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		die(err)
		tf := fset.File(f.Pos())
		off := func(pos token.Pos) int { return tf.Offset(pos) }

		var edits []edit
		yields := 0
		yield := func(pos token.Pos, hot bool) {
			if *plain {
				return
			}
			edits = append(edits, edit{off(pos), off(pos), fmt.Sprintf("zzvsim.Y(%d);", sites)})
			if hot {
				hotSites = append(hotSites, sites)
			}
			sites++
			yields++
			where = append(where, fmt.Sprintf("%s:%d", strings.TrimPrefix(strings.TrimPrefix(p, filepath.Clean(*repo)), "/"), tf.Line(pos)))
		}
		var fn *ast.FuncDecl
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				yield(s.Pos(), touchesShared(s, fn, globals[filepath.Dir(p)]))
			}
		}
		timeName := ""
		for _, im := range f.Imports {
			path := strings.Trim(im.Path.Value, `"`)
			switch path {
			case "time":
				timeName = "time"
				if im.Name != nil {
					timeName = im.Name.Name
				}
			case "sync":
				if !*plain {
					name := "sync "
					if im.Name != nil {
						name = ""
					}
					edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), fmt.Sprintf("%s%q", name, mod+"/zzverif/vsync")})
				}
			}
		}
		usesClock := false
		ast.Inspect(f, func(node ast.Node) bool {
			switch x := node.(type) {
			case *ast.BlockStmt:
				stmts(x.List)
				if len(x.List) == 0 && x.Lbrace.IsValid() {
					// An empty loop body must yield too.
					yield(x.Rbrace, false)
				}
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.SwitchStmt:
				// The body of a switch holds clauses, not statements.
				for _, c := range x.Body.List {
					ast.Inspect(c, func(ast.Node) bool { return false })
				}
			case *ast.GoStmt:
				goStmts = true
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok && timeName != "" && id.Name == timeName && id.Obj == nil {
					switch x.Sel.Name {
					case "Now", "Since", "Sleep", "Until":
						edits = append(edits, edit{off(id.Pos()), off(id.End()), "zzvsim"})
						usesClock = true
					}
				}
			case *ast.FuncDecl:
				fn = x
				if x.Recv == nil && x.Name.Name == "main" && f.Name.Name == "main" && filepath.Dir(p) == filepath.Clean(*repo) {
					edits = append(edits, edit{off(x.Name.Pos()), off(x.Name.End()), "zzOrigMain"})
					// The benchmark in func main repeats its work often: lower the count.
					var counts []*ast.BasicLit
					ast.Inspect(x, func(n ast.Node) bool {
						if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.INT {
							if v, err := strconv.Atoi(l.Value); err == nil && v >= 200 {
								counts = append(counts, l)
							}
						}
						return true
					})
					if len(counts) == 1 {
						mainIters = 2
						edits = append(edits, edit{off(counts[0].Pos()), off(counts[0].End()), fmt.Sprint(mainIters)})
					}
				}
			}
			return true
		})
		edits = dropClauseYields(f, edits, off)
		yields = 0
		for _, e := range edits {
			var s int
			if k, _ := fmt.Sscanf(e.text, "zzvsim.Y(%d)", &s); k == 1 {
				yields++
				kept[s] = true
			}
		}
		if yields > 0 || usesClock {
			o := off(f.Name.End())
			edits = append(edits, edit{o, o, fmt.Sprintf("; import zzvsim %q", mod+"/zzverif/vsim")})
		}
		if len(edits) == 0 {
			continue
		}
		if usesClock && timeName != "_" && timeName != "." {
			edits = append(edits, edit{len(src), len(src), "\nvar _ = " + timeName + ".Now\n"})
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
		var b strings.Builder
		last := 0
		for _, e := range edits {
			b.Write(src[last:e.off])
			b.WriteString(e.text)
			last = e.end
		}
		b.Write(src[last:])
		dst := filepath.Join(*out, fmt.Sprintf("f%03d_%s", n, filepath.Base(p)))
		die(os.WriteFile(dst, []byte(b.String()), 0o644))
		replace[p] = dst
	}

	add := func(dir, to string) {
		ms, err := filepath.Glob(filepath.Join(*simDir, dir, "*.go"))
		die(err)
		for _, m := range ms {
			b, err := os.ReadFile(m)
			die(err)
			dst := filepath.Join(*out, "h_"+dir+"_"+filepath.Base(m))
			die(os.WriteFile(dst, []byte(strings.ReplaceAll(string(b), "github.com/takakv/msc-poc/", mod+"/")), 0o644))
			replace[filepath.Join(*repo, to, "zz_"+filepath.Base(m))] = dst
		}
	}
	add("harness", "")
	add("vsim", "zzverif/vsim")
	add("vsync", "zzverif/vsync")

	for s := range where {
		if !kept[s] {
			where[s] = ""
		}
	}
	tab := fmt.Sprintf("package vsim\n\nfunc init() {\n\tSites = %d\n\tHot = %#v\n\tWhere = %#v\n\tHit = make([]bool, Sites)\n\tMainIters = %d\n}\n", sites, hotSites, where, mainIters)
	dst := filepath.Join(*out, "h_sites.go")
	die(os.WriteFile(dst, []byte(tab), 0o644))
	replace[filepath.Join(*repo, "zzverif/vsim", "zz_sites.go")] = dst

	b, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	die(err)
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	if goStmts {
		fmt.Println("goroutines")
	}
}

// dropClauseYields removes the yields that would land before a case or comm clause.
func dropClauseYields(f *ast.File, edits []edit, off func(token.Pos) int) []edit {
	bad := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		var body *ast.BlockStmt
		switch x := n.(type) {
		case *ast.SwitchStmt:
			body = x.Body
		case *ast.TypeSwitchStmt:
			body = x.Body
		case *ast.SelectStmt:
			body = x.Body
		}
		if body != nil {
			for _, c := range body.List {
				bad[off(c.Pos())] = true
			}
			if len(body.List) == 0 {
				bad[off(body.Rbrace)] = true
			}
		}
		return true
	})
	var r []edit
	for _, e := range edits {
		if e.off == e.end && strings.HasPrefix(e.text, "zzvsim.Y") && bad[e.off] {
			continue
		}
		r = append(r, e)
	}
	return r
}

// mutators are the methods that exist to change their receiver.
var mutators = map[string]bool{"Add": true, "Subtract": true, "Negate": true, "Scale": true, "BaseScale": true, "Set": true,
	"SetBytes": true, "MapToGroup": true, "UnmarshalBinary": true, "UnmarshalJSON": true}

// touchesShared reports whether a statement (without the bodies in it) mentions a package-level
// variable, or changes a field of the receiver of a method that should not change it, or a field
// of something a parameter or the receiver points to.
func touchesShared(s ast.Stmt, fn *ast.FuncDecl, vars map[string]bool) bool {
	hot := false
	params := map[string]bool{}
	recv := ""
	if fn != nil {
		if fn.Recv != nil && len(fn.Recv.List) > 0 && len(fn.Recv.List[0].Names) > 0 {
			recv = fn.Recv.List[0].Names[0].Name
			params[recv] = true
		}
		for _, f := range fn.Type.Params.List {
			for _, n := range f.Names {
				params[n.Name] = true
			}
		}
	}
	lhs := func(e ast.Expr) {
		depth := 0
		for {
			switch x := e.(type) {
			case *ast.SelectorExpr:
				e = x.X
				depth++
				continue
			case *ast.IndexExpr:
				e = x.X
				depth++
				continue
			case *ast.StarExpr:
				e = x.X
				depth++
				continue
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.Ident:
				if depth == 0 || !params[x.Name] {
					return
				}
				if x.Name == recv && depth == 1 && mutators[fn.Name.Name] {
					return
				}
				hot = true
			}
			return
		}
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.SelectorExpr:
			ast.Inspect(x.X, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok && vars[id.Name] {
					hot = true
				}
				return true
			})
			return false
		case *ast.Ident:
			if vars[x.Name] {
				hot = true
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				lhs(l)
			}
		case *ast.IncDecStmt:
			lhs(x.X)
		}
		return true
	})
	return hot
}
