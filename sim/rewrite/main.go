// Command rewrite turns the working tree of the repository into a copy that
// runs inside the simulator: every goroutine, channel operation, lock, clock
// reading, timer and network call goes through the vsim packages, and a yield
// point stands before every statement. What the code computes is untouched.
//
//	rewrite -repo /repo -stubs DIR -out DIR -mod MODULE -vsim DIR pkg...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// repl maps package path -> name -> replacement "pkg.Name".
var repl = map[string]map[string]string{
	"time":    names("simtime", "Now Since Until Sleep Timer Ticker NewTimer NewTicker After AfterFunc Tick"),
	"sync":    names("simsync", "Mutex RWMutex WaitGroup Once OnceFunc OnceValue OnceValues Cond NewCond Pool Map"),
	"context": names("simcontext", "WithCancel WithCancelCause WithDeadline WithTimeout WithValue Cause"),
	"net": merge(names("simnet", "UDPConn ListenPacket ListenUDP DialUDP Dial DialTimeout ResolveUDPAddr"),
		map[string]string{"Listen": "simhttp.NetListen"}),
	"net/http":      names("simhttp", "Client DefaultClient Get Head Post PostForm Server ListenAndServe ListenAndServeTLS Serve"),
	"os":            names("simos", "Stdout Stderr Stdin Args Getpid Getppid Hostname Getenv LookupEnv Setenv Exit ReadDir Open"),
	"io/ioutil":     {"ReadDir": "simos.ReadDirInfo"},
	"runtime":       names("simmisc", "ReadMemStats NumGoroutine NumCgoCall Gosched GC"),
	"runtime/debug": names("simmisc", "ReadGCStats"),
	"fmt":           names("simmisc", "Print Println Printf"),
	"math/rand": {"Int": "simmisc.RandInt", "Intn": "simmisc.RandIntn", "Int63": "simmisc.RandInt63", "Int63n": "simmisc.RandInt63n", "Int31": "simmisc.RandInt31",
		"Int31n": "simmisc.RandInt31n", "Uint32": "simmisc.RandUint32", "Uint64": "simmisc.RandUint64", "Float64": "simmisc.RandFloat64", "Float32": "simmisc.RandFloat32",
		"Seed": "simmisc.RandSeed", "Perm": "simmisc.RandPerm", "Shuffle": "simmisc.RandShuffle"},
	"math/rand/v2": {"Int": "simmisc.RandInt", "IntN": "simmisc.RandIntn", "Int64": "simmisc.RandInt63", "Int64N": "simmisc.RandInt63n", "Int32": "simmisc.RandInt31",
		"Int32N": "simmisc.RandInt31n", "Uint32": "simmisc.RandUint32", "Uint64": "simmisc.RandUint64", "Float64": "simmisc.RandFloat64", "Float32": "simmisc.RandFloat32",
		"Perm": "simmisc.RandPerm", "Shuffle": "simmisc.RandShuffle"},
	"maps": {"Keys": "simmisc.MapsKeys", "Values": "simmisc.MapsValues", "All": "simmisc.MapsAll"},
}

func names(pkg, list string) map[string]string {
	m := map[string]string{}
	for _, n := range strings.Fields(list) {
		m[n] = pkg + "." + n
	}
	return m
}

func merge(ms ...map[string]string) map[string]string {
	r := map[string]string{}
	for _, m := range ms {
		for k, v := range m {
			r[k] = v
		}
	}
	return r
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(2)
}

type pkgSrc struct {
	path  string
	dir   string
	stub  bool
	files []*ast.File
	names []string
	types *types.Package
	info  *types.Info
	deps  []string
	main  bool
}

var (
	repo    = flag.String("repo", "/repo", "repository")
	stubs   = flag.String("stubs", "", "directory of stub packages, by import path")
	out     = flag.String("out", "", "output directory")
	module  = flag.String("mod", "github.com/gocraft/health", "module path of the repository")
	fset    = token.NewFileSet()
	loaded  = map[string]*pkgSrc{}
	order   []*pkgSrc
	stdNeed = map[string]bool{}
	exports = map[string]string{}
)

func dirOf(path string) (string, bool, bool) {
	if path == *module || strings.HasPrefix(path, *module+"/") {
		return filepath.Join(*repo, strings.TrimPrefix(strings.TrimPrefix(path, *module), "/")), false, true
	}
	if *stubs != "" {
		d := filepath.Join(*stubs, path)
		if st, err := os.Stat(d); err == nil && st.IsDir() {
			return d, true, true
		}
	}
	return "", false, false
}

func load(path string) *pkgSrc {
	if p := loaded[path]; p != nil {
		return p
	}
	dir, stub, ok := dirOf(path)
	if !ok {
		fatal("no source for %s", path)
	}
	ctx := build.Default
	ctx.CgoEnabled = false
	bp, err := ctx.ImportDir(dir, 0)
	if err != nil {
		fatal("%s: %v", path, err)
	}
	p := &pkgSrc{path: path, dir: dir, stub: stub}
	loaded[path] = p
	for _, f := range bp.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		p.files = append(p.files, af)
		p.names = append(p.names, f)
		p.main = af.Name.Name == "main"
		for _, im := range af.Imports {
			ip, _ := strconv.Unquote(im.Path.Value)
			if _, _, ok := dirOf(ip); ok {
				load(ip)
				p.deps = append(p.deps, ip)
			} else if ip == "unsafe" || ip == "C" {
				if ip == "C" {
					fatal("%s uses cgo", path)
				}
			} else if strings.HasPrefix(ip, "vsim/") {
				p.deps = append(p.deps, ip)
				stdNeed[ip] = true
			} else {
				stdNeed[ip] = true
			}
		}
	}
	order = append(order, p)
	return p
}

type imp struct{ gc types.Importer }

func (i imp) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := loaded[path]; p != nil {
		if p.types == nil {
			return nil, fmt.Errorf("import cycle at %s", path)
		}
		return p.types, nil
	}
	return i.gc.Import(path)
}

func main() {
	vsimDir := flag.String("vsim", "", "directory of the vsim module")
	cache := flag.String("exportcache", "", "file that caches the export data paths")
	flag.Parse()
	for _, p := range flag.Args() {
		load(p)
	}
	var std []string
	for p := range stdNeed {
		std = append(std, p)
	}
	sort.Strings(std)
	_ = cache
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Export"}, std...)...)
	cmd.Dir = *vsimDir
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		var e struct{ ImportPath, Export string }
		if err := dec.Decode(&e); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list: %v", err)
		}
		exports[e.ImportPath] = e.Export
	}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	for _, p := range order {
		p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
		var firstErr error
		conf := types.Config{Importer: imp{gc}, Error: func(e error) {
			if firstErr == nil {
				firstErr = e
			}
		}}
		tp, _ := conf.Check(p.path, fset, p.files, p.info)
		if firstErr != nil {
			fatal("type check %s: %v", p.path, firstErr)
		}
		p.types = tp
	}
	for _, p := range order {
		emit(p)
	}
	mods := map[string]string{}
	for _, p := range order {
		root := *module
		if p.stub {
			root = strings.Join(strings.Split(p.path, "/")[:3], "/")
		}
		mods[root] = filepath.Join(*out, root)
	}
	var roots []string
	for r := range mods {
		roots = append(roots, r)
	}
	sort.Strings(roots)
	for _, r := range roots {
		var b bytes.Buffer
		fmt.Fprintf(&b, "module %s\n\ngo 1.23\n", r)
		write(filepath.Join(mods[r], "go.mod"), b.Bytes())
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "module vsim\n\ngo 1.23\n\n")
	for _, r := range roots {
		fmt.Fprintf(&b, "require %s v0.0.0\nreplace %s => %s\n", r, r, mods[r])
	}
	write(filepath.Join(*out, "vsim.mod"), b.Bytes())
	write(filepath.Join(*out, "vsim.sum"), nil)
}

func write(path string, b []byte) {
	if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, b) {
		return
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("%v", err)
	}
}

// ---- per file ----

type rw struct {
	p      *pkgSrc
	used   map[string]bool // vsim packages used
	lhs    map[ast.Expr]bool
	two    map[ast.Expr]bool // comma-ok context
	lits   []*ast.FuncLit
	inits  *[]string
	tmp    int
	fnBody []ast.Node
}

func emit(p *pkgSrc) {
	outDir := filepath.Join(*out, p.path)
	var inits []string
	var globals []*types.Var
	resetImports := map[string]string{}
	// global variable initialisers, for the reset function
	pkgName := p.types.Name()
	if p.main {
		pkgName = "cmd" + filepath.Base(p.path)
	}
	specsByFile := map[*ast.File][]*ast.ValueSpec{}
	declOf := map[*types.Var]*ast.ValueSpec{}
	for _, f := range p.files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					vs := s.(*ast.ValueSpec)
					specsByFile[f] = append(specsByFile[f], vs)
					for _, n := range vs.Names {
						if v, ok := p.info.Defs[n].(*types.Var); ok && n.Name != "_" {
							globals = append(globals, v)
							declOf[v] = vs
						}
					}
				}
			}
		}
	}
	_ = resetImports
	keep := map[string]bool{}
	for i, f := range p.files {
		r := &rw{p: p, used: map[string]bool{}, lhs: map[ast.Expr]bool{}, two: map[ast.Expr]bool{}, inits: &inits}
		f.Name = ast.NewIdent(pkgName)
		f.Comments = nil
		f.Doc = nil
		var mine []string
		for di, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				d.Doc = nil
				if d.Body != nil {
					r.walk(reflect.ValueOf(&f.Decls[di]).Elem())
				}
				if d.Recv == nil && d.Name.Name == "init" {
					n := fmt.Sprintf("vsimInit%d_%d", i, di)
					d.Name = ast.NewIdent(n)
					inits = append(inits, n)
				}
				if p.main && d.Recv == nil && d.Name.Name == "main" {
					d.Name = ast.NewIdent("SimMain")
				}
			case *ast.GenDecl:
				if d.Tok == token.IMPORT {
					continue
				}
				r.walk(reflect.ValueOf(&f.Decls[di]).Elem())
			}
		}
		// per-file reset of globals, in source order; the package's reset function
		// runs them in dependency order
		for si, vs := range specsByFile[f] {
			fn := fmt.Sprintf("vsimVar%d_%d", i, si)
			body := resetBody(vs)
			if body == nil {
				continue
			}
			f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent(fn), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})
			mine = append(mine, fn)
		}
		r.imports(f)
		var buf bytes.Buffer
		if err := format.Node(&buf, fset, f); err != nil {
			fatal("print %s: %v", p.names[i], err)
		}
		write(filepath.Join(outDir, p.names[i]), buf.Bytes())
		keep[p.names[i]] = true
		_ = mine
	}
	// reset order: zero-valued first, then the type checker's initialisation order
	idx := map[*ast.ValueSpec]string{}
	for i, f := range p.files {
		for si, vs := range specsByFile[f] {
			idx[vs] = fmt.Sprintf("vsimVar%d_%d", i, si)
		}
	}
	var calls []string
	done := map[*ast.ValueSpec]bool{}
	for _, f := range p.files {
		for _, vs := range specsByFile[f] {
			if len(vs.Values) == 0 && resetBody(vs) != nil {
				calls = append(calls, idx[vs])
				done[vs] = true
			}
		}
	}
	for _, in := range p.info.InitOrder {
		for _, l := range in.Lhs {
			vs := declOf[l]
			if vs != nil && !done[vs] {
				done[vs] = true
				calls = append(calls, idx[vs])
			}
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport vsim_rt \"vsim/rt\"\n\n", pkgName)
	fmt.Fprintf(&b, "func init() { vsim_rt.RegisterPkg(%q, vsimReset, vsimSave, vsimLoad) }\n\n", p.path)
	fmt.Fprintf(&b, "func vsimReset() {\n")
	for _, c := range calls {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	for _, c := range inits {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	fmt.Fprintf(&b, "}\n\n")
	fmt.Fprintf(&b, "func vsimSave() any {\n\treturn []any{\n")
	for _, g := range globals {
		fmt.Fprintf(&b, "\t\tvsim_rt.Box(&%s),\n", g.Name())
	}
	fmt.Fprintf(&b, "\t}\n}\n\nfunc vsimLoad(a any) {\n\tv := a.([]any)\n\t_ = v\n")
	for i, g := range globals {
		fmt.Fprintf(&b, "\tvsim_rt.Unbox(&%s, v[%d])\n", g.Name(), i)
	}
	fmt.Fprintf(&b, "}\n")
	write(filepath.Join(outDir, "vsim_globals.go"), b.Bytes())
	keep["vsim_globals.go"] = true
	// files of an earlier tree
	if es, err := os.ReadDir(outDir); err == nil {
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") && !keep[e.Name()] {
				os.Remove(filepath.Join(outDir, e.Name()))
			}
		}
	}
}

func resetBody(vs *ast.ValueSpec) *ast.BlockStmt {
	var list []ast.Stmt
	var l []ast.Expr
	for _, n := range vs.Names {
		l = append(l, ast.NewIdent(n.Name))
	}
	if len(vs.Values) > 0 {
		if len(vs.Names) == len(vs.Values) {
			for i := range l {
				if vs.Names[i].Name == "_" {
					if vs.Type != nil {
						continue // a compile-time assertion
					}
				}
				list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{l[i]}, Tok: token.ASSIGN, Rhs: []ast.Expr{vs.Values[i]}})
			}
		} else {
			list = append(list, &ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: vs.Values})
		}
	} else {
		for i := range l {
			if vs.Names[i].Name == "_" {
				continue
			}
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{l[i]}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.StarExpr{X: call(ast.NewIdent("new"), vs.Type)}}})
		}
	}
	if len(list) == 0 {
		return nil
	}
	return &ast.BlockStmt{List: list}
}

var vsimPkgs = map[string]string{"rt": "vsim/rt", "simtime": "vsim/simtime", "simsync": "vsim/simsync", "simcontext": "vsim/simcontext", "simnet": "vsim/simnet",
	"simhttp": "vsim/simhttp", "simos": "vsim/simos", "simmisc": "vsim/simmisc"}

// imports drops the imports that are no longer referred to and adds ours.
func (r *rw) imports(f *ast.File) {
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := r.p.info.Uses[id].(*types.PkgName); ok {
				used[pn.Name()+" "+pn.Imported().Path()] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	gen := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 2}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			}
			if name == "_" || name == "." {
				if name == "." {
					if _, bad := repl[path]; bad {
						fatal("dot import of %s", path)
					}
				}
				gen.Specs = append(gen.Specs, &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: is.Path.Value}})
				continue
			}
			var pn string
			if name != "" {
				pn = name
			} else if p := loaded[path]; p != nil {
				pn = p.types.Name()
			} else {
				for k := range used {
					if strings.HasSuffix(k, " "+path) {
						pn = strings.Fields(k)[0]
					}
				}
			}
			if !used[pn+" "+path] {
				continue
			}
			ns := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: is.Path.Value}}
			if name != "" {
				ns.Name = ast.NewIdent(name)
			}
			gen.Specs = append(gen.Specs, ns)
		}
	}
	var ks []string
	for k := range r.used {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		gen.Specs = append(gen.Specs, &ast.ImportSpec{Name: ast.NewIdent("vsim_" + k), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vsimPkgs[k])}})
	}
	if len(gen.Specs) > 0 {
		decls = append([]ast.Decl{gen}, decls...)
	}
	f.Decls = decls
	f.Imports = nil
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rw) ref(s string) ast.Expr {
	i := strings.IndexByte(s, '.')
	r.used[s[:i]] = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsim_" + s[:i]), Sel: ast.NewIdent(s[i+1:])}
}
func (r *rw) rt(name string, args ...ast.Expr) *ast.CallExpr { return call(r.ref("rt."+name), args...) }
func (r *rw) yield() ast.Stmt                                { return &ast.ExprStmt{X: r.rt("Y")} }

func (r *rw) typeOf(e ast.Expr) types.Type {
	tv, ok := r.p.info.Types[e]
	if ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.p.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return nil
	}
	return t.Underlying()
}
func (r *rw) isChan(e ast.Expr) bool {
	_, ok := under(r.typeOf(e)).(*types.Chan)
	return ok
}
func (r *rw) isMap(e ast.Expr) bool {
	_, ok := under(r.typeOf(e)).(*types.Map)
	return ok
}

// keyFits: the key expression has exactly the map's key type (or is a constant).
func (r *rw) keyFits(m, k ast.Expr) bool {
	mt, _ := under(r.typeOf(m)).(*types.Map)
	kt := r.typeOf(k)
	return mt != nil && (r.isConst(k) && !types.IsInterface(mt.Key()) || kt != nil && types.Identical(kt, mt.Key()))
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

var (
	exprT  = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT  = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeT  = reflect.TypeOf((*ast.Node)(nil)).Elem()
	identT = reflect.TypeOf((*ast.Ident)(nil))
)

// walk rewrites what v (an addressable field) holds, children first.
func (r *rw) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		n, ok := v.Interface().(ast.Node)
		if !ok {
			return
		}
		r.node(n, func(repl ast.Node) { v.Set(reflect.ValueOf(repl)) })
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		n, ok := v.Interface().(ast.Node)
		if !ok {
			return
		}
		r.node(n, func(repl ast.Node) {
			rv := reflect.ValueOf(repl)
			if rv.Type() != v.Type() {
				fatal("cannot put %T where %s is", repl, v.Type())
			}
			v.Set(rv)
		})
	case reflect.Slice:
		if v.Type().Elem() == stmtT {
			v.Set(reflect.ValueOf(r.list(v.Interface().([]ast.Stmt))))
			return
		}
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	}
}

func (r *rw) children(n ast.Node) {
	v := reflect.ValueOf(n).Elem()
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		ft := v.Type().Field(i)
		if ft.Name == "Obj" || ft.Name == "Doc" || ft.Name == "Comment" || ft.Name == "Comments" || ft.Name == "Unresolved" || ft.Name == "Scope" || ft.Name == "Imports" {
			if ft.Name == "Doc" || ft.Name == "Comment" {
				v.Field(i).Set(reflect.Zero(ft.Type))
			}
			continue
		}
		switch ft.Type.Kind() {
		case reflect.Interface, reflect.Pointer, reflect.Slice:
			r.walk(v.Field(i))
		}
	}
}

// node rewrites one node that is not an element of a statement list.
func (r *rw) node(n ast.Node, set func(ast.Node)) {
	switch n := n.(type) {
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if pn, ok := r.p.info.Uses[id].(*types.PkgName); ok {
				if m := repl[pn.Imported().Path()]; m != nil {
					if to, ok := m[n.Sel.Name]; ok {
						e := r.ref(to)
						r.copyType(n, e)
						set(e)
					}
				}
				return
			}
		}
		r.walk(reflect.ValueOf(&n.X).Elem())
		return
	case *ast.FuncLit:
		r.lits = append(r.lits, n)
		r.children(n)
		r.lits = r.lits[:len(r.lits)-1]
		return
	case *ast.CallExpr:
		if id, ok := unparen(n.Fun).(*ast.Ident); ok {
			if b, ok := r.p.info.Uses[id].(*types.Builtin); ok && len(n.Args) > 0 {
				ch, mp := r.isChan(n.Args[0]), r.isMap(n.Args[0])
				if b.Name() == "delete" && mp && !r.keyFits(n.Args[0], n.Args[1]) {
					mp = false
				}
				r.children(n)
				switch {
				case b.Name() == "close":
					set(r.typed(n, r.rt("Close", n.Args...)))
				case b.Name() == "len" && ch:
					set(r.typed(n, r.rt("Len", n.Args...)))
				case b.Name() == "cap" && ch:
					set(r.typed(n, r.rt("Cap", n.Args...)))
				case b.Name() == "delete" && mp:
					set(r.typed(n, r.rt("MapDelete", n.Args...)))
				}
				return
			}
		}
		r.children(n)
		return
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			two := r.two[n]
			r.children(n)
			f := "Recv"
			if two {
				f = "Recv2"
			}
			set(r.typed(n, r.rt(f, n.X)))
			return
		}
		r.children(n)
		return
	case *ast.ParenExpr:
		if r.two[n] {
			r.two[unparen(n)] = true
		}
		if r.lhs[n] {
			r.lhs[unparen(n)] = true
		}
		r.children(n)
		return
	case *ast.IndexExpr:
		mp := r.isMap(n.X)
		tv, okT := r.p.info.Types[n.X]
		if mp && okT && tv.IsType() {
			mp = false
		}
		mp = mp && r.keyFits(n.X, n.Index)
		r.children(n)
		if mp && !r.lhs[n] {
			f := "MapGet"
			if r.two[n] {
				f = "MapGet2"
			}
			set(r.typed(n, r.rt(f, n.X, n.Index)))
		}
		return
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			r.two[n.Values[0]] = true
		}
		r.children(n)
		return
	case *ast.BlockStmt:
		n.List = r.list(n.List)
		return
	case *ast.KeyValueExpr:
		// keys of struct literals are field names
		r.walk(reflect.ValueOf(&n.Value).Elem())
		if _, ok := n.Key.(*ast.Ident); !ok {
			r.walk(reflect.ValueOf(&n.Key).Elem())
		}
		return
	case *ast.CommClause:
		fatal("stray comm clause")
	}
	if s, ok := n.(ast.Stmt); ok {
		ns := r.simple(s)
		if ns != s {
			set(ns)
		}
		return
	}
	r.children(n)
}

func (r *rw) copyType(from, to ast.Expr) {
	if tv, ok := r.p.info.Types[from]; ok {
		r.p.info.Types[to] = tv
	}
}
func (r *rw) typed(from ast.Expr, to ast.Expr) ast.Expr { r.copyType(from, to); return to }

// list rewrites a statement list, with a yield point before every statement.
func (r *rw) list(in []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range in {
		switch s := s.(type) {
		case *ast.CaseClause:
			for i := range s.List {
				r.walk(reflect.ValueOf(&s.List[i]).Elem())
			}
			s.Body = r.list(s.Body)
			o = append(o, s)
			continue
		case *ast.EmptyStmt:
			o = append(o, s)
			continue
		}
		o = append(o, r.yield())
		o = append(o, r.stmt(s)...)
	}
	return o
}

func (r *rw) fresh() string {
	r.tmp++
	return fmt.Sprintf("vsim_t%d", r.tmp)
}

// stmt rewrites one element of a statement list.
func (r *rw) stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		in := r.stmt(s.Stmt)
		if len(in) != 1 {
			s.Stmt = &ast.BlockStmt{List: in}
		} else {
			s.Stmt = in[0]
		}
		return []ast.Stmt{s}
	case *ast.AssignStmt:
		if x := r.split(s); x != nil {
			return []ast.Stmt{x}
		}
	case *ast.IncDecStmt:
		op := token.ADD_ASSIGN
		if s.Tok == token.DEC {
			op = token.SUB_ASSIGN
		}
		as := &ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: op, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "1"}}}
		if x := r.split(as); x != nil {
			return []ast.Stmt{x}
		}
	}
	return []ast.Stmt{r.simple(s)}
}

// pure: no calls, receives or literals with effects, so evaluating it twice is the same.
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// shared: could another goroutine see this location?
func (r *rw) shared(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		v, ok := r.p.info.ObjectOf(e).(*types.Var)
		if !ok {
			return false
		}
		if v.Parent() == r.p.types.Scope() {
			return true
		}
		if n := len(r.lits); n > 0 {
			l := r.lits[n-1]
			return v.Pos() < l.Pos() || v.Pos() > l.End()
		}
		return false
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		return true
	}
	return false
}

var opOf = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
	token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}

// split turns a write to a location that may be shared into a load-and-compute
// step, a yield point, and a store. nil: not applicable.
func (r *rw) split(s *ast.AssignStmt) ast.Stmt {
	if len(s.Lhs) != 1 || len(s.Rhs) != 1 || s.Tok == token.DEFINE {
		return nil
	}
	l := s.Lhs[0]
	if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
		return nil
	}
	if ix, ok := unparen(l).(*ast.IndexExpr); ok && r.isMap(ix.X) {
		return r.mapStore(s, ix)
	}
	if !r.shared(l) || !pure(l) {
		return nil
	}
	lt := r.typeOf(l)
	if lt == nil {
		return nil
	}
	if s.Tok == token.ASSIGN {
		tv, ok := r.p.info.Types[s.Rhs[0]]
		if !ok || tv.IsNil() || tv.Value != nil || tv.Type == nil || !types.Identical(tv.Type, lt) {
			return nil
		}
		// comparisons and shifts take their type from the context
		switch x := unparen(s.Rhs[0]).(type) {
		case *ast.BinaryExpr:
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.LAND, token.LOR, token.SHL, token.SHR:
				return nil
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				return nil
			}
		}
	}
	r.lhs[l] = true
	rd := r.clone(l)
	r.walk(reflect.ValueOf(&s.Lhs[0]).Elem())
	rhs := s.Rhs[0]
	r.walk(reflect.ValueOf(&rhs).Elem())
	t := r.fresh()
	var val ast.Expr = rhs
	if s.Tok != token.ASSIGN {
		r.walk(reflect.ValueOf(&rd).Elem())
		val = &ast.BinaryExpr{X: rd, Op: opOf[s.Tok], Y: &ast.ParenExpr{X: rhs}}
	}
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{val}},
		r.yield(),
		&ast.AssignStmt{Lhs: []ast.Expr{s.Lhs[0]}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(t)}},
	}}
}

// clone copies an expression without calls; type information goes along.
func (r *rw) clone(e ast.Expr) ast.Expr {
	var c ast.Expr
	switch e := e.(type) {
	case *ast.Ident:
		n := *e
		if o := r.p.info.Uses[e]; o != nil {
			r.p.info.Uses[&n] = o
		}
		c = &n
	case *ast.BasicLit:
		n := *e
		c = &n
	case *ast.SelectorExpr:
		n := *e
		n.X = r.clone(e.X)
		sel := *e.Sel
		n.Sel = &sel
		c = &n
	case *ast.StarExpr:
		n := *e
		n.X = r.clone(e.X)
		c = &n
	case *ast.ParenExpr:
		n := *e
		n.X = r.clone(e.X)
		c = &n
	case *ast.IndexExpr:
		n := *e
		n.X = r.clone(e.X)
		n.Index = r.clone(e.Index)
		c = &n
	case *ast.BinaryExpr:
		n := *e
		n.X = r.clone(e.X)
		n.Y = r.clone(e.Y)
		c = &n
	case *ast.UnaryExpr:
		n := *e
		n.X = r.clone(e.X)
		c = &n
	case *ast.TypeAssertExpr:
		n := *e
		n.X = r.clone(e.X)
		c = &n
	case *ast.SliceExpr:
		n := *e
		n.X = r.clone(e.X)
		c = &n
	default:
		fatal("cannot copy %T", e)
	}
	r.copyType(e, c)
	return c
}

func (r *rw) isConst(e ast.Expr) bool {
	tv, ok := r.p.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func (r *rw) mapStore(s *ast.AssignStmt, ix *ast.IndexExpr) ast.Stmt {
	if s.Tok == token.ASSIGN {
		r.walk(reflect.ValueOf(&ix.X).Elem())
		r.walk(reflect.ValueOf(&ix.Index).Elem())
		r.walk(reflect.ValueOf(&s.Rhs[0]).Elem())
		return &ast.ExprStmt{X: call(r.rt("MapSet", ix.X), ix.Index, s.Rhs[0])}
	}
	cst := r.isConst(ix.Index)
	kt := r.typeOf(ix.Index)
	mt, _ := under(r.typeOf(ix.X)).(*types.Map)
	if !cst && (mt == nil || kt == nil || !types.Identical(kt, mt.Key())) {
		return nil
	}
	r.walk(reflect.ValueOf(&ix.X).Elem())
	r.walk(reflect.ValueOf(&ix.Index).Elem())
	r.walk(reflect.ValueOf(&s.Rhs[0]).Elem())
	m, k := r.fresh(), r.fresh()
	list := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(m)}, Tok: token.DEFINE, Rhs: []ast.Expr{ix.X}}}
	var key ast.Expr
	if cst {
		key = ix.Index
	} else {
		key = ast.NewIdent(k)
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(k)}, Tok: token.DEFINE, Rhs: []ast.Expr{ix.Index}})
	}
	list = append(list, &ast.ExprStmt{X: call(r.rt("MapSet", ast.NewIdent(m)), key,
		&ast.BinaryExpr{X: r.rt("MapGet", ast.NewIdent(m), key), Op: opOf[s.Tok], Y: &ast.ParenExpr{X: s.Rhs[0]}})})
	return &ast.BlockStmt{List: list}
}

// simple rewrites a statement in any position, one for one.
func (r *rw) simple(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.SendStmt:
		r.children(s)
		return &ast.ExprStmt{X: call(r.rt("SendTo", s.Chan), s.Value)}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.ForStmt:
		r.children(s)
		s.Body.List = append([]ast.Stmt{r.yield()}, s.Body.List...)
		return s
	case *ast.AssignStmt:
		if len(s.Lhs) == 1 && len(s.Rhs) == 1 && s.Tok == token.ASSIGN {
			if ix, ok := unparen(s.Lhs[0]).(*ast.IndexExpr); ok && r.isMap(ix.X) {
				return r.mapStore(s, ix)
			}
		}
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			r.two[s.Rhs[0]] = true
		}
		for _, l := range s.Lhs {
			r.lhs[l] = true
		}
		r.children(s)
		return s
	case *ast.IncDecStmt:
		r.lhs[s.X] = true
		r.children(s)
		return s
	case *ast.LabeledStmt:
		return r.stmt(s)[0]
	case *ast.TypeSwitchStmt:
		r.children(s)
		return s
	}
	r.children(s)
	return s
}

func (r *rw) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		var e ast.Expr = fl
		r.walk(reflect.ValueOf(&e).Elem())
		return &ast.ExprStmt{X: r.rt("Go", call2lit(c, e))}
	}
	// what may stay inside the new function: package-level functions and builtins
	inlineFn := false
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		switch r.p.info.Uses[f].(type) {
		case *types.Func, *types.Builtin, *types.TypeName:
			inlineFn = true
		}
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, ok := r.p.info.Uses[id].(*types.PkgName); ok {
				if _, isF := r.p.info.Uses[f.Sel].(*types.Func); isF {
					inlineFn = true
				}
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		inlineFn = true
	}
	var list []ast.Stmt
	if !inlineFn {
		t := r.fresh()
		r.walk(reflect.ValueOf(&c.Fun).Elem())
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{c.Fun}})
		c.Fun = ast.NewIdent(t)
	}
	for i, a := range c.Args {
		if r.isConst(a) {
			continue
		}
		if tv, ok := r.p.info.Types[a]; ok && tv.IsType() {
			continue
		}
		t := r.fresh()
		r.walk(reflect.ValueOf(&c.Args[i]).Elem())
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{c.Args[i]}})
		id := ast.NewIdent(t)
		r.copyType(a, id)
		c.Args[i] = id
	}
	// the call itself may need rewriting (go close(ch), go http.ListenAndServe(...))
	var e ast.Expr = c
	r.walk(reflect.ValueOf(&e).Elem())
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}}
	list = append(list, &ast.ExprStmt{X: r.rt("Go", lit)})
	return &ast.BlockStmt{List: list}
}

// call2lit: `go func() T {...}()` — a literal with results needs a wrapper.
func call2lit(c *ast.CallExpr, e ast.Expr) ast.Expr {
	fl := e.(*ast.FuncLit)
	if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
		return fl
	}
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(fl)}}}}
}

func (r *rw) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	ch, mp := r.isChan(s.X), r.isMap(s.X)
	if s.Key != nil {
		r.lhs[s.Key] = true
	}
	if s.Value != nil {
		r.lhs[s.Value] = true
	}
	r.children(s)
	s.Body.List = append([]ast.Stmt{r.yield()}, s.Body.List...)
	switch {
	case ch:
		s.X = r.rt("Range", s.X)
	case mp:
		blankV := s.Value == nil
		if id, ok := s.Value.(*ast.Ident); ok && id.Name == "_" {
			blankV = true
			s.Value = nil
		}
		if blankV {
			s.X = r.rt("MapKeys", s.X)
		} else {
			s.X = r.rt("MapIter", s.X)
		}
	}
	return s
}

func (r *rw) selectStmt(s *ast.SelectStmt) ast.Stmt {
	if len(s.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.rt("Forever")}}}}
	}
	r.tmp++
	id := r.tmp
	var lhs, rhs []ast.Expr
	args := []ast.Expr{ast.NewIdent("false")}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := false
	k := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			body := r.list(cc.Body)
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: nil, Body: body})
			continue
		}
		v := fmt.Sprintf("vsim_c%d_%d", id, k)
		var pre []ast.Stmt
		recvOf := func(e ast.Expr) ast.Expr {
			u, ok := unparen(e).(*ast.UnaryExpr)
			if !ok || u.Op != token.ARROW {
				fatal("select case is not a receive")
			}
			r.walk(reflect.ValueOf(&u.X).Elem())
			return r.rt("RecvCase", u.X)
		}
		switch cm := cc.Comm.(type) {
		case *ast.ExprStmt:
			rhs = append(rhs, recvOf(cm.X))
		case *ast.AssignStmt:
			rhs = append(rhs, recvOf(cm.Rhs[0]))
			val := ast.Expr(&ast.SelectorExpr{X: ast.NewIdent(v), Sel: ast.NewIdent("V")})
			if len(cm.Lhs) == 2 {
				val = call(&ast.SelectorExpr{X: ast.NewIdent(v), Sel: ast.NewIdent("Get")})
			}
			for i := range cm.Lhs {
				r.lhs[cm.Lhs[i]] = true
				r.walk(reflect.ValueOf(&cm.Lhs[i]).Elem())
			}
			pre = append(pre, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: []ast.Expr{val}})
		case *ast.SendStmt:
			r.children(cm)
			rhs = append(rhs, call(r.rt("SendCase", cm.Chan), cm.Value))
		default:
			fatal("select case %T", cc.Comm)
		}
		lhs = append(lhs, ast.NewIdent(v))
		args = append(args, ast.NewIdent(v))
		body := append(pre, r.list(cc.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}}, Body: body})
		k++
	}
	if hasDefault {
		args[0] = ast.NewIdent("true")
	} else {
		// so that a select all of whose cases return still ends its function
		sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause).List = nil
	}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	sw.Tag = r.rt("Select", args...)
	return sw
}
