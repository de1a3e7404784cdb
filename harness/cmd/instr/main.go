// instr REPO OUT [shim|plain] lays instrumented copies of the library's
// sources into OUT and writes OUT/overlay.json: before every statement the
// scheduler is told.  -portable leaves out the assembly.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type insertion struct {
	at   int
	text string
}

type site struct {
	file string
	line int
	vars []string
	sync bool
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	instrument, shim, portable := false, false, false
	var extra []string // path=file to lay over as well
	table := ""
	for _, a := range os.Args[3:] {
		switch {
		case a == "instrument":
			instrument = true
		case a == "shim":
			shim = true
		case a == "portable":
			portable = true
		case strings.HasPrefix(a, "table="):
			table = a[6:]
		default:
			extra = append(extra, a)
		}
	}
	replace := map[string]string{}
	var sites []site
	goroutines := false
	n := 0
	emit := func(path, text string) {
		f := filepath.Join(out, fmt.Sprintf("f%03d.go", n))
		n++
		check(os.WriteFile(f, []byte(text), 0o644))
		replace[path] = f
	}
	err := filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if path != repo && (strings.HasPrefix(fi.Name(), ".") || strings.HasPrefix(fi.Name(), "_") || fi.Name() == "testdata" || fi.Name() == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if portable && strings.HasSuffix(path, "_amd64.s") {
			replace[path] = ""
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(path)
		check(err)
		src := string(b)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil || f.Name.Name == "main" {
			return nil
		}
		if portable {
			s, dropped := withoutAssembly(path, src, f, fset)
			if dropped {
				emit(path, "package "+f.Name.Name+"\n")
				return nil
			}
			if s != src {
				src = s
				fset = token.NewFileSet()
				f, err = parser.ParseFile(fset, path, src, parser.ParseComments)
				check(err)
				if !instrument {
					emit(path, src)
				}
			}
		}
		if !instrument {
			return nil
		}
		emit(path, rewrite(fset, f, src, path, repo, shim, &sites, &goroutines))
		return nil
	})
	check(err)
	if instrument {
		var sb strings.Builder
		sb.WriteString("package sched\n\nvar Goroutines = " + strconv.FormatBool(goroutines) + "\n\nvar Table = []Site{{\"lock\", 0, nil, true}, {\"unlock\", 0, nil, true},\n")
		for _, s := range sites {
			fmt.Fprintf(&sb, "{%q, %d, %#v, %v},\n", s.file, s.line, s.vars, s.sync)
		}
		sb.WriteString("}\n")
		emit(table, sb.String())
	}
	for _, e := range extra {
		kv := strings.SplitN(e, "=", 2)
		replace[kv[0]] = kv[1]
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	check(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

// withoutAssembly makes a file that is compiled for amd64 only into an empty
// one and one that is compiled elsewhere only into one compiled everywhere.
func withoutAssembly(path, src string, f *ast.File, fset *token.FileSet) (string, bool) {
	tag := func(amd64 bool) func(string) bool {
		return func(t string) bool {
			switch t {
			case "amd64":
				return amd64
			case "386":
				return !amd64
			case "gc", "linux", "unix", "cgo", "race":
				return true
			}
			return strings.HasPrefix(t, "go1")
		}
	}
	on, off := true, true
	base := strings.TrimSuffix(filepath.Base(path), ".go")
	if strings.HasSuffix(base, "_amd64") {
		off = false
	}
	type span struct{ a, b int }
	var spans []span
	goBuild := false
	for _, g := range f.Comments {
		for _, c := range g.List {
			if c.Pos() < f.Package && constraint.IsGoBuild(c.Text) {
				goBuild = true
			}
		}
	}
	for _, g := range f.Comments {
		for _, c := range g.List {
			if c.Pos() > f.Package || !(constraint.IsGoBuild(c.Text) || constraint.IsPlusBuild(c.Text)) {
				continue
			}
			x, err := constraint.Parse(c.Text)
			if err != nil {
				continue
			}
			spans = append(spans, span{fset.Position(c.Pos()).Offset, fset.Position(c.End()).Offset})
			if goBuild && !constraint.IsGoBuild(c.Text) {
				continue
			}
			on = on && x.Eval(tag(true))
			off = off && x.Eval(tag(false))
		}
	}
	if on == off {
		return src, false
	}
	if !off {
		return src, true
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].a > spans[j].a })
	for _, s := range spans {
		src = src[:s.a] + "//" + src[s.b:]
	}
	return src, false
}

var syncNames = map[string]bool{"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "TryLock": true, "Do": true, "Wait": true,
	"Load": true, "Store": true, "Swap": true, "CompareAndSwap": true, "LoadOrStore": true, "LoadAndDelete": true, "Get": true, "Put": true, "Range": true}

func rewrite(fset *token.FileSet, f *ast.File, src, path, repo string, shim bool, sites *[]site, goroutines *bool) string {
	globals := packageVars(filepath.Dir(path))
	for d := filepath.Dir(path); d != repo; d = filepath.Dir(d) {
		for v := range packageVars(repo) {
			globals[v] = true
		}
	}
	var ins []insertion
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	rel, _ := filepath.Rel(repo, path)
	ins = append(ins, insertion{off(f.Name.End()), "; import verifsched \"verifharness/sched\""})
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			vars := map[string]bool{}
			sync := false
			mentions(s, globals, vars, &sync, goroutines)
			st := site{file: rel, line: fset.Position(s.Pos()).Line, sync: sync}
			for v := range vars {
				st.vars = append(st.vars, v)
			}
			sort.Strings(st.vars)
			ins = append(ins, insertion{off(s.Pos()), fmt.Sprintf("verifsched.Y(%d); ", len(*sites)+2)})
			*sites = append(*sites, st)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	// block bodies of switch and select hold clauses, not statements
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CaseClause:
			clause[off(x.Pos())] = true
		case *ast.CommClause:
			clause[off(x.Pos())] = true
		}
		return true
	})
	if shim {
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				t := `"verifharness/vsync"`
				if im.Name == nil {
					t = "sync " + t
				}
				ins = append(ins, insertion{-off(im.Path.Pos()), t})
			}
		}
	}
	sort.SliceStable(ins, func(i, j int) bool { return abs(ins[i].at) > abs(ins[j].at) })
	for _, in := range ins {
		if in.at < 0 {
			a := -in.at
			src = src[:a] + in.text + src[a+len(`"sync"`):]
			continue
		}
		if clause[in.at] {
			continue
		}
		src = src[:in.at] + in.text + src[in.at:]
	}
	src += "\nfunc init() {\n"
	names := []string{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, s := range g.Specs {
				for _, id := range s.(*ast.ValueSpec).Names {
					if id.Name != "_" {
						names = append(names, id.Name)
					}
				}
			}
		}
	}
	for _, v := range names {
		src += fmt.Sprintf("\tverifsched.Global(%q, &%s)\n", v, v)
	}
	return src + "}\n\nvar _ = verifsched.Y\n"
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// mentions looks at a statement without the blocks inside it.
func mentions(s ast.Stmt, globals, vars map[string]bool, sync, goroutines *bool) {
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			return ast.Stmt(x) == s
		case *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.Ident:
			if globals[x.Name] {
				vars[x.Name] = true
			}
			if x.Name == "atomic" || x.Name == "sync" {
				*sync = true
			}
		case *ast.SelectorExpr:
			if syncNames[x.Sel.Name] {
				*sync = true
			}
		case *ast.SendStmt, *ast.SelectStmt:
			*sync = true
		case *ast.GoStmt:
			*sync, *goroutines = true, true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				*sync = true
			}
		}
		return true
	})
}

var varCache = map[string]map[string]bool{}

func packageVars(dir string) map[string]bool {
	if m, ok := varCache[dir]; ok {
		return m
	}
	m := map[string]bool{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, p := range fs {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						m[id.Name] = true
					}
				}
			}
		}
	}
	varCache[dir] = m
	return m
}
