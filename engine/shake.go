package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// envCalls are replaced in the natively compiled twin of packages whose harness directory
// has a file ENV, so that a case can be replayed with the environment it needs.
var envCalls = map[string]string{
	"runtime.FuncForPC": "FuncForPC", "runtime.GOROOT": "GOROOT", "runtime.ReadMemStats": "ReadMemStats",
	"runtime.NumGoroutine": "NumGoroutine", "runtime.NumCgoCall": "NumCgoCall", "runtime/debug.ReadGCStats": "ReadGCStats",
	"io/ioutil.ReadDir": "ReadDirInfo", "os.ReadDir": "ReadDir",
	"os.Exit": "Exit", "net/http.ListenAndServe": "ListenAndServe",
}

// rewrite makes overlay copies of the repository's files with environment calls redirected
// and, for shake, random yields between statements.
func (g *group) rewrite(env, shake bool) map[string]string {
	ov := map[string]string{}
	n := 0
	filepath.WalkDir(repoDir, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if b := d.Name(); b == ".git" || b == "cmd" || b == "vendor" || b == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		out := rewriteFile(src, env, shake)
		if out == nil {
			return nil
		}
		n++
		f := filepath.Join(g.scratch, fmt.Sprintf("rw%v%d_%s", shake, n, filepath.Base(p)))
		os.WriteFile(f, out, 0o644)
		ov[p] = f
		return nil
	})
	for k, cp := range g.overlay {
		if !strings.HasPrefix(k, filepath.Join(repoDir, "cmd")) {
			continue
		}
		src, err := os.ReadFile(cp)
		if err != nil {
			continue
		}
		if out := rewriteFile(src, env, shake); out != nil {
			n++
			f := filepath.Join(g.scratch, fmt.Sprintf("rw%v%d_%s", shake, n, filepath.Base(cp)))
			os.WriteFile(f, out, 0o644)
			ov[k] = f
		}
	}
	return ov
}

func renamePackage(src []byte, name string) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.PackageClauseOnly)
	if err != nil {
		return src
	}
	from, to := fset.Position(f.Name.Pos()).Offset, fset.Position(f.Name.End()).Offset
	return []byte(string(src[:from]) + name + string(src[to:]))
}

func rewriteFile(src []byte, env, shake bool) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil
	}
	type edit struct {
		from, to int
		s        string
	}
	var eds []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	imports := map[string]string{}
	for _, i := range f.Imports {
		path, _ := strconv.Unquote(i.Path.Value)
		nm := path[strings.LastIndexByte(path, '/')+1:]
		if i.Name != nil {
			nm = i.Name.Name
		}
		imports[nm] = path
	}
	tail := ""
	if env {
		ast.Inspect(f, func(n ast.Node) bool {
			s, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := s.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			if p, ok := imports[id.Name]; ok && envCalls[p+"."+s.Sel.Name] != "" {
				eds = append(eds, edit{off(s.Pos()), off(s.End()), "zzenv." + envCalls[p+"."+s.Sel.Name]})
				tail += "\nvar _ = " + id.Name + "." + s.Sel.Name
			}
			return true
		})
	}
	if shake {
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				eds = append(eds, edit{off(s.Pos()), off(s.Pos()), "zzenv.Shake(); "})
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
	}
	for _, v := range chanVars(f) {
		// made again within the replay's bubble, where blocking on another's channels would stop the clock
		lhs := ""
		for k, id := range v.Names {
			if k > 0 {
				lhs += ", "
			}
			lhs += id.Name
		}
		rhs := string(src[off(v.Values[0].Pos()):off(v.Values[len(v.Values)-1].End())])
		tail += fmt.Sprintf("\nfunc zzReinit_%[1]s() { %[2]s = %[3]s }\nfunc init() { zzenv.OnStart(zzReinit_%[1]s) }", v.Names[0].Name, lhs, rhs)
	}
	if len(eds) == 0 && tail == "" {
		return nil
	}
	eds = append(eds, edit{off(f.Name.End()), off(f.Name.End()), "; import zzenv \"" + modPath + "/zzverif/zz\""})
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].from > eds[j].from })
	out := string(src)
	for _, e := range eds {
		out = out[:e.from] + e.s + out[e.to:]
	}
	return []byte(out + tail + "\n")
}

// chanVars lists the package variables that are initialised with channels.
func chanVars(f *ast.File) []*ast.ValueSpec {
	makers := map[string]bool{}
	var makes func(n ast.Node) bool
	makes = func(n ast.Node) bool {
		found := false
		ast.Inspect(n, func(n ast.Node) bool {
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return true
			}
			if id, ok := c.Fun.(*ast.Ident); ok {
				if makers[id.Name] {
					found = true
				}
				if id.Name == "make" && len(c.Args) > 0 {
					if _, ok := c.Args[0].(*ast.ChanType); ok {
						found = true
					}
				}
			}
			return true
		})
		return found
	}
	for i := 0; i < 2; i++ {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Body != nil && makes(fd.Body) {
				makers[fd.Name.Name] = true
			}
		}
	}
	var r []*ast.ValueSpec
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			v := sp.(*ast.ValueSpec)
			if len(v.Values) == 0 || v.Names[0].Name == "_" {
				continue
			}
			for _, x := range v.Values {
				if makes(x) {
					r = append(r, v)
					break
				}
			}
		}
	}
	return r
}

func (g *group) hasEnv() bool {
	_, err := os.Stat(filepath.Join(verifDir, "harness", g.name, "ENV"))
	return err == nil
}

// nativeOverlay is the overlay for compiled replays.
func (g *group) nativeOverlay(shake bool) string {
	rw := g.rewrite(g.hasEnv(), shake)
	if len(rw) == 0 {
		return g.ovFile
	}
	m := map[string]string{}
	for k, v := range g.overlay {
		m[k] = v
	}
	for k, v := range rw {
		m[k] = v
	}
	f := filepath.Join(g.scratch, fmt.Sprintf("overlay-native-%v.json", shake))
	writeOverlay(f, m)
	return f
}

// buildShake builds the native replay with random yields between statements.
func (g *group) buildShake() string {
	b := filepath.Join(g.scratch, "shake.test")
	if e := g.build(g.nativeOverlay(true), b); e != "" {
		fmt.Println("NOTE: build with yields failed:", clip(e, 300))
		return ""
	}
	return b
}
