// rewrite emits an instrumented copy of the Go module in -src into -out.
//
// Every source of nondeterminism the model checker must own is redirected to the
// shim packages (module path + "/zz/..."): goroutines, channels, select, sync,
// atomic, context, time, net, os, signals, map iteration, standard output.
// Package-level state gets a VerifInit function so that each explored execution
// starts from freshly initialised packages.  The rewrite is driven by types, not
// by the spelling of the code, so it applies to whatever /repo currently contains.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
}

// selector replacement: import path -> name -> shim package
var shimNames = map[string]map[string]string{}

func shim(path, pkg string, names string) {
	m := shimNames[path]
	if m == nil {
		m = map[string]string{}
		shimNames[path] = m
	}
	for _, n := range strings.Fields(names) {
		m[n] = pkg
	}
}

func init() {
	shim("sync", "vsync", "Mutex RWMutex WaitGroup Once Map Pool Cond NewCond OnceFunc OnceValue OnceValues")
	shim("sync/atomic", "vatomic", `Value Bool Int32 Int64 Uint32 Uint64 Uintptr Pointer
		AddInt32 AddInt64 AddUint32 AddUint64 LoadInt32 LoadInt64 LoadUint32 LoadUint64
		StoreInt32 StoreInt64 StoreUint32 StoreUint64 SwapInt32 SwapInt64 SwapUint32 SwapUint64
		CompareAndSwapInt32 CompareAndSwapInt64 CompareAndSwapUint32 CompareAndSwapUint64`)
	shim("time", "vtime", "After AfterFunc Sleep NewTimer NewTicker Tick Now Since Until Timer Ticker")
	shim("context", "vctx", `Context CancelFunc CancelCauseFunc Background TODO WithCancel WithTimeout
		WithDeadline WithValue Canceled DeadlineExceeded WithCancelCause WithTimeoutCause WithDeadlineCause Cause AfterFunc WithoutCancel`)
	shim("net", "vnet", "ListenUDP ListenPacket UDPConn TCPConn Dial DialTimeout DialUDP DialTCP Dialer Listen ListenConfig")
	shim("os", "vos", `File Create Open OpenFile Stat Lstat Mkdir MkdirAll Rename Link Chmod Truncate Remove RemoveAll
		WriteFile ReadFile ReadDir CreateTemp MkdirTemp Exit Stdout Stderr Stdin`)
	shim("io/ioutil", "vos", "WriteFile ReadFile TempFile TempDir")
	shim("io/ioutil", "vioutil", "ReadDir")
	shim("path/filepath", "vfilepath", "Glob Walk WalkDir EvalSymlinks")
	shim("net/http", "vhttp", "Server ListenAndServe Serve")
	shim("os/signal", "vsignal", "Notify Stop Ignore Reset NotifyContext")
	shim("fmt", "vfmt", "Print Printf Println")
	shim("log", "vlog", "Fatal Fatalf Fatalln")
	shim("runtime", "vrt", "Gosched")
	shim("gopkg.in/natefinch/lumberjack.v2", "vlumber", "Logger")
}

type export struct{ pkg, name, sig string }

// unexported entry points the harness may use when they exist with this signature
// (all of them are used by the repository's own tests)
var exports = []export{
	{"dht", "parseNodeInfo", "func(infos string) []*NodeInfo"},
	{"dht", "joinNodeInfos", "func(nodes []*NodeInfo) string"},
	{"dht", "parsePeerInfo", "func(vals misc.List) []*net.UDPAddr"},
	{"dht", "joinPeerInfos", "func(addrs []*net.UDPAddr) misc.List"},
	{"dht", "generateNodeId", "func(str string) string"},
	{"dht/peerwire", "parseHandShakeMsg", "func(data []byte) HandShakeMsg"},
	{"dht/peerwire", "withHandShakeMsg", "func(peerId []byte, infoHash []byte) []byte"},
	{"dht/peerwire", "parseExtendedHandShake", "func(data []byte) ExtendedHandShakeMsg"},
	{"dht/peerwire", "withExtendedhandShake", "func(metadata misc.Dict, dict misc.Dict) []byte"},
	{"dht/peerwire", "parseExtendedFetchMetaMsg", "func(data []byte) ExtendedFetchMetaMsg"},
	{"dht/peerwire", "withExtendedFetchMetaMsg", "func(exMsgId int, mType ExFecthMetaType, pieceNum int, totalSize int, data ...[]byte) []byte"},
	{"dht/peerwire", "parsePrefixLenMsg", "func(data []byte) PrefixLenMsg"},
}

var modPath string

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	src := flag.String("src", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,ImportMap,Standard,Module", "./...")
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exportsOf := map[string]string{}
	var mine []*listPkg
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list json: %v", err)
		}
		exportsOf[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main && len(p.GoFiles) > 0 {
			modPath = p.Module.Path
			mine = append(mine, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exportsOf[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	for _, p := range mine {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		if rel == "zz" || strings.HasPrefix(rel, "zz/") {
			die("module already has a zz directory")
		}
		doPkg(fset, imp, p, rel, filepath.Join(*out, rel))
	}
}

type rw struct {
	info   *types.Info
	pkg    *types.Package
	fset   *token.FileSet
	used   map[string]bool // shim packages used in this file
	nextID int
}

func doPkg(fset *token.FileSet, imp types.Importer, p *listPkg, rel, outDir string) {
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		die("%v", err)
	}
	initFn := map[types.Object]string{}
	var zeroFns, initFuncs []string
	for fi, af := range files {
		r := &rw{info: info, pkg: pkg, fset: fset, used: map[string]bool{}}
		var extra []ast.Decl
		n := 0
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				name := fmt.Sprintf("zzinit%d_%d", fi, n)
				n++
				fd.Name = ast.NewIdent(name)
				initFuncs = append(initFuncs, name)
				extra = append(extra, mkFunc("init", &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(name)}}))
			}
		}
		// collect package variables before rewriting
		type spec struct {
			vs   *ast.ValueSpec
			objs []types.Object
		}
		var specs []spec
		for _, d := range af.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				var objs []types.Object
				for _, id := range vs.Names {
					objs = append(objs, info.Defs[id])
				}
				specs = append(specs, spec{vs, objs})
			}
		}
		r.walkChildren(reflect.ValueOf(af).Elem())
		for si, s := range specs {
			switch {
			case len(s.vs.Values) == 0:
				name := fmt.Sprintf("zzzero%d_%d", fi, si)
				var body []ast.Stmt
				for _, id := range s.vs.Names {
					if id.Name == "_" {
						continue
					}
					body = append(body, &ast.ExprStmt{X: &ast.CallExpr{Fun: r.shimSel("vrt", "Zero"), Args: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(id.Name)}}}})
				}
				if len(body) > 0 {
					extra = append(extra, mkFunc(name, body...))
					zeroFns = append(zeroFns, name)
				}
			case len(s.vs.Values) == len(s.vs.Names):
				for i, id := range s.vs.Names {
					if id.Name == "_" {
						continue
					}
					name := fmt.Sprintf("zzvar%d_%d_%d", fi, si, i)
					extra = append(extra, mkFunc(name, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{s.vs.Values[i]}}))
					initFn[s.objs[i]] = name
				}
			default: // x, y = f()
				name := fmt.Sprintf("zzvar%d_%d", fi, si)
				var lhs []ast.Expr
				for _, id := range s.vs.Names {
					lhs = append(lhs, ast.NewIdent(id.Name))
				}
				extra = append(extra, mkFunc(name, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{s.vs.Values[0]}}))
				for _, o := range s.objs {
					if o != nil && o.Name() != "_" {
						initFn[o] = name
						break
					}
				}
			}
		}
		af.Decls = append(af.Decls, extra...)
		r.fixImports(af)
		var buf bytes.Buffer
		if err := printer.Fprint(&buf, fset, af); err != nil {
			die("print: %v", err)
		}
		if err := os.WriteFile(filepath.Join(outDir, p.GoFiles[fi]), buf.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
	// per-package reinitialisation, in Go's own initialisation order
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nfunc VerifInit() {\n", p.Name)
	for _, z := range zeroFns {
		fmt.Fprintf(&b, "\t%s()\n", z)
	}
	done := map[string]bool{}
	for _, io := range info.InitOrder {
		for _, v := range io.Lhs {
			if fn := initFn[v]; fn != "" && !done[fn] {
				done[fn] = true
				fmt.Fprintf(&b, "\t%s()\n", fn)
			}
		}
	}
	for _, f := range initFuncs {
		fmt.Fprintf(&b, "\t%s()\n", f)
	}
	b.WriteString("}\n")
	os.WriteFile(filepath.Join(outDir, "zz_vinit.go"), b.Bytes(), 0o644)

	var ex []export
	for _, e := range exports {
		if e.pkg == rel {
			ex = append(ex, e)
		}
	}
	if len(ex) > 0 {
		var body bytes.Buffer
		for _, e := range ex {
			has := false
			if o, ok := pkg.Scope().Lookup(e.name).(*types.Func); ok {
				got := types.TypeString(o.Type(), func(q *types.Package) string {
					if q == pkg {
						return ""
					}
					return q.Name()
				})
				has = stripParams(got) == stripParams(e.sig)
			}
			fmt.Fprintf(&body, "var V_%s %s", e.name, e.sig)
			if has {
				fmt.Fprintf(&body, " = %s", e.name)
			}
			body.WriteString("\n")
		}
		var f bytes.Buffer
		fmt.Fprintf(&f, "package %s\n\n", p.Name)
		if strings.Contains(body.String(), "net.") {
			f.WriteString("import \"net\"\n")
		}
		if strings.Contains(body.String(), "misc.") {
			fmt.Fprintf(&f, "import %q\n", modPath+"/misc")
		}
		f.WriteString("\n")
		f.Write(body.Bytes())
		os.WriteFile(filepath.Join(outDir, "zz_vexport.go"), f.Bytes(), 0o644)
	}
}

// stripParams drops parameter names from a signature: "func(a int, b ...T) R" -> "func(int,...T) R"
func stripParams(s string) string {
	i := strings.Index(s, "(")
	depth, j := 0, i
	for ; j < len(s); j++ {
		if s[j] == '(' {
			depth++
		} else if s[j] == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	var ps []string
	for _, p := range strings.Split(s[i+1:j], ",") {
		p = strings.TrimSpace(p)
		if k := strings.Index(p, " "); k >= 0 && !strings.HasPrefix(p, "func") {
			p = p[k+1:]
		}
		ps = append(ps, p)
	}
	return s[:i+1] + strings.Join(ps, ",") + s[j:]
}

func mkFunc(name string, body ...ast.Stmt) *ast.FuncDecl {
	return &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

func (r *rw) shimSel(pkg, name string) ast.Expr {
	r.used[pkg] = true
	return &ast.SelectorExpr{X: ast.NewIdent("zz" + pkg), Sel: ast.NewIdent(name)}
}

func (r *rw) fresh(p string) *ast.Ident {
	r.nextID++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", p, r.nextID))
}

func (r *rw) fixImports(af *ast.File) {
	// which imports are still referenced?
	refs := map[types.Object]bool{}
	ast.Inspect(af, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				refs[pn] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	for _, d := range af.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		var keep []ast.Spec
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			var obj types.Object
			if is.Name != nil {
				if is.Name.Name == "_" || is.Name.Name == "." {
					keep = append(keep, s)
					continue
				}
				obj = r.info.Defs[is.Name]
			} else {
				obj = r.info.Implicits[is]
			}
			if refs[obj] {
				keep = append(keep, s)
			}
		}
		if len(keep) > 0 {
			gd.Specs = keep
			gd.Lparen = 1
			decls = append(decls, gd)
		}
	}
	var shims []string
	for s := range r.used {
		shims = append(shims, s)
	}
	sort.Strings(shims)
	if len(shims) > 0 {
		gd := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1}
		for _, s := range shims {
			gd.Specs = append(gd.Specs, &ast.ImportSpec{Name: ast.NewIdent("zz" + s), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(modPath + "/zz/" + s)}})
		}
		decls = append([]ast.Decl{gd}, decls...)
	}
	af.Decls = decls
	af.Imports = nil
	af.Comments = nil
}

// ---- generic traversal -------------------------------------------------

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()
)

func (r *rw) walkChildren(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				continue
			}
			switch v.Type().Field(i).Name {
			case "Obj", "Scope", "Unresolved", "Comments", "Doc", "Comment", "Imports":
				continue
			}
			r.walkField(f)
		}
	}
}

func (r *rw) walkField(f reflect.Value) {
	switch f.Kind() {
	case reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			r.walkField(f.Index(i))
		}
	case reflect.Interface, reflect.Ptr:
		if f.IsNil() {
			return
		}
		switch {
		case f.Type() == exprT:
			f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
		case f.Type() == stmtT:
			f.Set(reflect.ValueOf(r.stmt(f.Interface().(ast.Stmt))))
		case f.Type().Implements(nodeT):
			n := f.Interface().(ast.Node)
			switch x := n.(type) {
			case *ast.CallExpr: // typed field (go/defer): must stay a call
				e := r.expr(x)
				c, ok := e.(*ast.CallExpr)
				if !ok {
					die("%s: call rewritten to non-call", r.fset.Position(x.Pos()))
				}
				f.Set(reflect.ValueOf(c))
			case *ast.BlockStmt:
				r.walkChildren(reflect.ValueOf(x).Elem())
			case *ast.Ident, *ast.BasicLit:
			default:
				el := reflect.ValueOf(n)
				if el.Kind() == reflect.Ptr {
					r.preNode(n)
					r.walkChildren(el.Elem())
				}
			}
		}
	}
}

func (r *rw) preNode(n ast.Node) {
	if vs, ok := n.(*ast.ValueSpec); ok {
		if len(vs.Names) == 2 && len(vs.Values) == 1 {
			if u := arrow(vs.Values[0]); u != nil {
				vs.Values[0] = r.recv2(u)
			}
		}
	}
}

func arrow(e ast.Expr) *ast.UnaryExpr {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// mark nodes already rewritten so they are not processed twice
type done struct{ ast.Expr }

func (r *rw) recv2(u *ast.UnaryExpr) ast.Expr {
	return &done{&ast.CallExpr{Fun: r.shimSel("vrt", "Recv2"), Args: []ast.Expr{r.expr(u.X)}}}
}

func (r *rw) isChan(e ast.Expr) *types.Chan {
	t := r.info.TypeOf(e)
	if t == nil {
		return nil
	}
	c, _ := t.Underlying().(*types.Chan)
	return c
}

func (r *rw) builtin(fun ast.Expr) string {
	for {
		if p, ok := fun.(*ast.ParenExpr); ok {
			fun = p.X
			continue
		}
		break
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return e
	case *done:
		return x.Expr
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				if sp, ok := shimNames[pn.Imported().Path()][x.Sel.Name]; ok {
					return r.shimSel(sp, x.Sel.Name)
				}
				return x
			}
		}
		x.X = r.expr(x.X)
		return x
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.shimSel("vrt", "Chan"), Index: r.expr(x.Value)}}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return &ast.CallExpr{Fun: r.shimSel("vrt", "Recv"), Args: []ast.Expr{r.expr(x.X)}}
		}
		x.X = r.expr(x.X)
		return x
	case *ast.CallExpr:
		switch b := r.builtin(x.Fun); b {
		case "make":
			if c := r.isChan(x.Args[0]); c != nil {
				var size ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
				if len(x.Args) > 1 {
					size = &ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{r.expr(x.Args[1])}}
				}
				// MakeLike[T](size, (chan type)(nil)) keeps named and unnamed channel types alike
				typ := r.expr(x.Args[0])
				conv := &ast.CallExpr{Fun: &ast.ParenExpr{X: typ}, Args: []ast.Expr{ast.NewIdent("nil")}}
				made := &ast.CallExpr{Fun: r.shimSel("vrt", "MakeLike"), Args: []ast.Expr{conv, size}}
				return &ast.CallExpr{Fun: &ast.ParenExpr{X: typ}, Args: []ast.Expr{made}}
			}
		case "close":
			return &ast.CallExpr{Fun: r.shimSel("vrt", "Close"), Args: []ast.Expr{r.expr(x.Args[0])}}
		case "len", "cap":
			if r.isChan(x.Args[0]) != nil {
				n := map[string]string{"len": "Len", "cap": "Cap"}[b]
				return &ast.CallExpr{Fun: r.shimSel("vrt", n), Args: []ast.Expr{r.expr(x.Args[0])}}
			}
		}
		r.walkChildren(reflect.ValueOf(x).Elem())
		return x
	case *ast.FuncLit:
		r.walkChildren(reflect.ValueOf(x.Type).Elem())
		r.walkChildren(reflect.ValueOf(x.Body).Elem())
		return x
	case *ast.Ident, *ast.BasicLit:
		return x
	default:
		r.walkChildren(reflect.ValueOf(e).Elem())
		return e
	}
}

func (r *rw) block(b *ast.BlockStmt) { r.walkChildren(reflect.ValueOf(b).Elem()) }

func define(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.CallExpr{Fun: r.shimSel("vrt", "SendFn"), Args: []ast.Expr{r.expr(x.Chan)}}, Args: []ast.Expr{r.expr(x.Value)}}}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := arrow(x.Rhs[0]); u != nil {
				x.Rhs[0] = r.recv2(u)
			}
		}
		r.walkChildren(reflect.ValueOf(x).Elem())
		return x
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.SelectStmt:
		return r.selectStmt(x, nil)
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(sel, x.Label)
		}
		x.Stmt = r.stmt(x.Stmt)
		if b, ok := x.Stmt.(*ast.BlockStmt); ok { // keep the label on the loop itself
			die("%s: labelled statement became a block: %v", r.fset.Position(x.Pos()), b != nil)
		}
		return x
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	default:
		r.walkChildren(reflect.ValueOf(s).Elem())
		return s
	}
}

// go f(a, b)  =>  { f0, a0, b0 := f, a, b; vrt.Go(func() { f0(a0, b0) }) }
func (r *rw) goStmt(g *ast.GoStmt) ast.Stmt {
	call := g.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && fl.Type.Results == nil {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.shimSel("vrt", "Go"), Args: []ast.Expr{r.expr(fl)}}}
	}
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		tv := r.info.Types[e]
		if tv.Value != nil || tv.IsNil() || tv.IsBuiltin() || tv.IsType() {
			return r.expr(e)
		}
		id := r.fresh("g")
		pre = append(pre, define([]ast.Expr{id}, r.expr(e)))
		return ast.NewIdent(id.Name)
	}
	fun := call.Fun
	if r.builtin(fun) == "" {
		if id, ok := fun.(*ast.Ident); ok {
			if _, isFn := r.info.Uses[id].(*types.Func); isFn { // plain function: nothing to evaluate (and may be generic)
				fun = id
			} else {
				fun = bind(fun)
			}
		} else {
			fun = bind(fun)
		}
		nc := &ast.CallExpr{Fun: fun, Ellipsis: call.Ellipsis}
		for _, a := range call.Args {
			nc.Args = append(nc.Args, bind(a))
		}
		body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
		pre = append(pre, &ast.ExprStmt{X: &ast.CallExpr{Fun: r.shimSel("vrt", "Go"), Args: []ast.Expr{body}}})
		return &ast.BlockStmt{List: pre}
	}
	for i, a := range call.Args {
		call.Args[i] = &done{bind(a)}
	}
	nc := r.expr(call)
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
	pre = append(pre, &ast.ExprStmt{X: &ast.CallExpr{Fun: r.shimSel("vrt", "Go"), Args: []ast.Expr{body}}})
	return &ast.BlockStmt{List: pre}
}

// select => { c0 := vrt.RecvCase(ch); c1 := vrt.SendCase(ch)(v); switch vrt.Select(hasDefault, c0, c1) { case 0: ... } }
func (r *rw) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	blk := &ast.BlockStmt{}
	call := &ast.CallExpr{Fun: r.shimSel("vrt", "Select")}
	hasDefault := "false"
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	idx := 0
	var clauses []ast.Stmt
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		var pre []ast.Stmt
		if cc.Comm == nil {
			hasDefault = "true"
		} else {
			id := r.fresh("c")
			val := func(f string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent(f)} }
			switch m := cc.Comm.(type) {
			case *ast.SendStmt:
				blk.List = append(blk.List, define([]ast.Expr{id}, &ast.CallExpr{Fun: &ast.CallExpr{Fun: r.shimSel("vrt", "SendCase"), Args: []ast.Expr{r.expr(m.Chan)}}, Args: []ast.Expr{r.expr(m.Value)}}))
			case *ast.ExprStmt:
				blk.List = append(blk.List, define([]ast.Expr{id}, &ast.CallExpr{Fun: r.shimSel("vrt", "RecvCase"), Args: []ast.Expr{r.expr(arrow(m.X).X)}}))
			case *ast.AssignStmt:
				blk.List = append(blk.List, define([]ast.Expr{id}, &ast.CallExpr{Fun: r.shimSel("vrt", "RecvCase"), Args: []ast.Expr{r.expr(arrow(m.Rhs[0]).X)}}))
				as := &ast.AssignStmt{Tok: m.Tok}
				for i, l := range m.Lhs {
					as.Lhs = append(as.Lhs, r.expr(l))
					as.Rhs = append(as.Rhs, val([]string{"Val", "Ok"}[i]))
				}
				allBlank := true
				for _, l := range as.Lhs {
					allBlank = allBlank && isBlank(l)
				}
				if allBlank {
					as.Tok = token.ASSIGN
				}
				pre = append(pre, as)
			}
			call.Args = append(call.Args, ast.NewIdent(id.Name))
		}
		var body []ast.Stmt
		for _, b := range cc.Body {
			body = append(body, r.stmt(b))
		}
		nc := &ast.CaseClause{Body: append(pre, body...)}
		if cc.Comm != nil {
			nc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
			idx++
		} else {
			nc.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}
		}
		clauses = append(clauses, nc)
	}
	call.Args = append([]ast.Expr{ast.NewIdent(hasDefault)}, call.Args...)
	sw.Tag = call
	// a select is a terminating statement when its clauses are; a switch only with a default clause
	clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"vrt: select"`}}}}}})
	sw.Body.List = clauses
	var last ast.Stmt = sw
	if label != nil {
		last = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	blk.List = append(blk.List, last)
	return blk
}

func (r *rw) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := r.info.TypeOf(x.X)
	if t == nil {
		r.walkChildren(reflect.ValueOf(x).Elem())
		return x
	}
	addr := func(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }
	switch t.Underlying().(type) {
	case *types.Chan:
		it := r.fresh("it")
		if isBlank(x.Key) {
			r.block(x.Body)
			return &ast.ForStmt{Init: define([]ast.Expr{it}, r.expr(x.X)), Cond: &ast.CallExpr{Fun: r.shimSel("vrt", "RecvMore"), Args: []ast.Expr{ast.NewIdent(it.Name), ast.NewIdent("nil")}}, Body: x.Body}
		}
		if x.Tok == token.DEFINE {
			init := define([]ast.Expr{it, x.Key}, &ast.CallExpr{Fun: r.shimSel("vrt", "RangeChan"), Args: []ast.Expr{r.expr(x.X)}})
			r.block(x.Body)
			return &ast.ForStmt{Init: init, Cond: &ast.CallExpr{Fun: r.shimSel("vrt", "RecvMore"), Args: []ast.Expr{ast.NewIdent(it.Name), addr(ast.NewIdent(x.Key.(*ast.Ident).Name))}}, Body: x.Body}
		}
		init := define([]ast.Expr{it}, r.expr(x.X))
		key := r.expr(x.Key)
		r.block(x.Body)
		return &ast.ForStmt{Init: init, Cond: &ast.CallExpr{Fun: r.shimSel("vrt", "RecvMore"), Args: []ast.Expr{ast.NewIdent(it.Name), addr(key)}}, Body: x.Body}
	case *types.Map:
		if x.Tok == token.ASSIGN {
			break // leave assignment form as it is
		}
		it := r.fresh("it")
		k, v := x.Key, x.Value
		init := []ast.Expr{it}
		args := []ast.Expr{ast.NewIdent(it.Name)}
		fn, next := "MapIter0", "MapNext0"
		switch {
		case isBlank(k) && isBlank(v):
		case isBlank(v):
			fn, next = "MapIterK", "MapNextK"
			init = append(init, k)
			args = append(args, addr(ast.NewIdent(k.(*ast.Ident).Name)))
		case isBlank(k):
			fn, next = "MapIterV", "MapNextV"
			init = append(init, v)
			args = append(args, addr(ast.NewIdent(v.(*ast.Ident).Name)))
		default:
			fn, next = "MapIterKV", "MapNextKV"
			init = append(init, k, v)
			args = append(args, addr(ast.NewIdent(k.(*ast.Ident).Name)), addr(ast.NewIdent(v.(*ast.Ident).Name)))
		}
		in := define(init, &ast.CallExpr{Fun: r.shimSel("vrt", fn), Args: []ast.Expr{r.expr(x.X)}})
		r.block(x.Body)
		return &ast.ForStmt{Init: in, Cond: &ast.CallExpr{Fun: r.shimSel("vrt", next), Args: args}, Body: x.Body}
	}
	r.walkChildren(reflect.ValueOf(x).Elem())
	return x
}
