// Command instr rewrites the current sources of packages in /repo so that
// concurrency, time, randomness (and optionally file access) go through the
// shim packages, and writes an overlay file for go build.
//
// The rewriting is purely textual, driven by the type-checked syntax tree, so
// that all line numbers stay as they are.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/folbricht/routedns"

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Name       string
}

var (
	repo   = flag.String("repo", "/repo", "")
	outDir = flag.String("out", "", "directory for generated files")
	osShim = flag.Bool("os", false, "rewrite package os as well")
	noSch  = flag.Bool("nosched", false, "do not rewrite concurrency")
	addDir = flag.String("add", "", "comma separated list of srcdir=virtual-dir (relative to repo) to add to the overlay")
)

func fatal(args ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"instr:"}, args...)...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	if *outDir == "" {
		fatal("no -out")
	}
	overlay := map[string]string{}

	// Type information from export data of the dependencies.
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,CgoFiles,Name", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	exports := map[string]string{}
	var targets []listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/") {
			targets = append(targets, p)
		}
	}
	for _, p := range targets {
		instrument(p, exports, overlay)
	}
	// The command is a main package, which cannot be imported: offer a copy
	// under another name.
	for _, p := range targets {
		if p.Name != "main" {
			continue
		}
		virt := filepath.Join(*repo, "internal", "v"+filepath.Base(p.Dir))
		for _, f := range p.GoFiles {
			src := overlay[filepath.Join(p.Dir, f)]
			if src == "" {
				src = filepath.Join(p.Dir, f)
			}
			b, err := os.ReadFile(src)
			if err != nil {
				fatal(err)
			}
			b = renamePackage(b, "v"+filepath.Base(p.Dir))
			dst := filepath.Join(*outDir, "virt", filepath.Base(p.Dir), f)
			writeFile(dst, b)
			overlay[filepath.Join(virt, f)] = dst
		}
	}
	for _, kv := range strings.Split(*addDir, ",") {
		if kv == "" {
			continue
		}
		src, dst, ok := strings.Cut(kv, "=")
		if !ok {
			fatal("bad -add", kv)
		}
		files, _ := filepath.Glob(filepath.Join(src, "*.go"))
		for _, f := range files {
			overlay[filepath.Join(*repo, dst, filepath.Base(f))] = f
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	writeFile(filepath.Join(*outDir, "overlay.json"), b)
}

func writeFile(name string, b []byte) {
	if old, err := os.ReadFile(name); err == nil && bytes.Equal(old, b) {
		return // keep the time stamp so that the build cache is effective
	}
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		fatal(err)
	}
	if err := os.WriteFile(name, b, 0o644); err != nil {
		fatal(err)
	}
}

func renamePackage(b []byte, name string) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", b, parser.PackageClauseOnly)
	if err != nil {
		fatal(err)
	}
	o := fset.Position(f.Name.Pos()).Offset
	e := fset.Position(f.Name.End()).Offset
	return append(append(append([]byte{}, b[:o]...), name...), b[e:]...)
}

type edit struct {
	from, to int
	text     string
	seq      int
}

type rewriter struct {
	osOK    bool
	fset    *token.FileSet
	info    *types.Info
	src     []byte
	base    int
	edits   []edit
	seq     int
	uses    map[string]int // remaining plus replaced uses per import path
	repl    map[string]int
	tmp     int
	used    map[string]bool // shim aliases used
	funcs   []ast.Node      // enclosing functions
	pkg     *types.Package
	written map[*types.Var]bool
}

func (r *rewriter) off(p token.Pos) int { return r.fset.PositionFor(p, false).Offset }

func (r *rewriter) replace(from, to token.Pos, text string) {
	r.seq++
	r.edits = append(r.edits, edit{r.off(from), r.off(to), text, r.seq})
}

func (r *rewriter) insert(at token.Pos, text string) { r.replace(at, at, text) }

// render returns the source between from and to with the edits within it
// applied, and removes those edits.
func (r *rewriter) render(from, to token.Pos) string {
	f, t := r.off(from), r.off(to)
	var in, rest []edit
	for _, e := range r.edits {
		if e.from >= f && e.to <= t {
			in = append(in, e)
		} else {
			rest = append(rest, e)
		}
	}
	r.edits = rest
	return apply(r.src[f:t], in, f)
}

func apply(src []byte, edits []edit, base int) string {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].from != edits[j].from {
			return edits[i].from < edits[j].from
		}
		// insertions before replacements at the same position
		iIns, jIns := edits[i].from == edits[i].to, edits[j].from == edits[j].to
		if iIns != jIns {
			return iIns
		}
		return edits[i].seq < edits[j].seq
	})
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		f, t := e.from-base, e.to-base
		if f < pos {
			panic(fmt.Sprintf("overlapping edits at %d: %q", e.from, e.text))
		}
		b.Write(src[pos:f])
		b.WriteString(e.text)
		// keep the number of lines
		if n := bytes.Count(src[f:t], []byte("\n")) - strings.Count(e.text, "\n"); n > 0 {
			b.WriteString(strings.Repeat("\n", n))
		}
		pos = t
	}
	b.Write(src[pos:])
	return b.String()
}

// lowLevel reports whether a file hands its files to the operating system.
func lowLevel(f *ast.File) bool {
	for _, i := range f.Imports {
		switch p := strings.Trim(i.Path.Value, `"`); {
		case p == "syscall", strings.HasPrefix(p, "golang.org/x/sys/"), strings.Contains(p, "netns"):
			return true
		}
	}
	return false
}

func instrument(p listPkg, exports map[string]string, overlay map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	srcs := map[*ast.File][]byte{}
	names := map[*ast.File]string{}
	for _, name := range p.GoFiles {
		full := filepath.Join(p.Dir, name)
		b, err := os.ReadFile(full)
		if err != nil {
			fatal(err)
		}
		f, err := parser.ParseFile(fset, full, b, parser.ParseComments)
		if err != nil {
			fatal(err)
		}
		files = append(files, f)
		srcs[f] = b
		names[f] = name
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: imp, Error: func(err error) {}, GoVersion: "go1.25"}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatal("type check:", err)
	}
	written := writtenFields(files, info)
	for _, f := range files {
		r := &rewriter{osOK: p.ImportPath == modPath && !lowLevel(f), pkg: pkg, written: written, fset: fset, info: info, src: srcs[f], uses: map[string]int{}, repl: map[string]int{}, used: map[string]bool{}}
		r.file(f)
		text := apply(r.src, r.edits, 0)
		full := filepath.Join(p.Dir, names[f])
		rel, _ := filepath.Rel(*repo, full)
		dst := filepath.Join(*outDir, "src", rel)
		writeFile(dst, []byte(text))
		overlay[full] = dst
	}
}

// Replacements of package-level names.
var nameTable = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Pool": "Pool", "Cond": "Cond", "NewCond": "NewCond"},
	"time": {"Now": "Now", "Sleep": "Sleep", "NewTimer": "NewTimer", "Timer": "Timer", "NewTicker": "NewTicker", "Ticker": "Ticker",
		"After": "After", "AfterFunc": "AfterFunc", "Tick": "Tick", "Since": "Since", "Until": "Until"},
	"math/rand": {"Intn": "RandIntn", "Int31n": "RandInt31n", "Int63n": "RandInt63n", "Int": "RandInt", "Float64": "RandFloat64",
		"Shuffle": "RandShuffle", "Perm": "RandPerm", "Uint32": "RandUint32", "Uint64": "RandUint64"},
	"math/rand/v2": {"IntN": "RandIntn", "Int32N": "RandInt31n", "Int64N": "RandInt63n", "Int": "RandInt", "Float64": "RandFloat64",
		"Shuffle": "RandShuffle", "Perm": "RandPerm", "Uint32": "RandUint32", "Uint64": "RandUint64"},
	"golang.org/x/sys/unix": {"Read": "UnixRead", "InotifyInit1": "InotifyInit1"},
	"runtime":               {"Gosched": "Gosched"},
	"context":               {"WithTimeout": "WithTimeout", "WithDeadline": "WithDeadline", "WithCancel": "WithCancel"},
}

var osTable = map[string]string{}

func init() {
	for _, n := range []string{"File", "CreateTemp", "Create", "Open", "OpenFile", "WriteFile", "ReadFile", "Rename", "Remove", "RemoveAll",
		"Stat", "Lstat", "Chmod", "Chtimes", "Mkdir", "MkdirAll", "MkdirTemp", "ReadDir", "Link", "Symlink", "Truncate", "Stdout", "Stderr", "Stdin"} {
		osTable[n] = n
	}
}

const shim = "vs__"
const osAlias = "vos__"

func (r *rewriter) file(f *ast.File) {
	// Package-level names.
	ast.Inspect(f, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := r.info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		path := pn.Imported().Path()
		r.uses[path]++
		if to, ok := nameTable[path][se.Sel.Name]; ok && !*noSch {
			r.repl[path]++
			r.used[shim] = true
			r.replace(se.Pos(), se.End(), shim+"."+to)
			return false
		}
		if *osShim && path == "os" && r.osOK {
			if to, ok := osTable[se.Sel.Name]; ok {
				r.repl[path]++
				r.used[osAlias] = true
				r.replace(se.Pos(), se.End(), osAlias+"."+to)
				return false
			}
		}
		return true
	})
	if !*noSch {
		for _, d := range f.Decls {
			r.node(d)
		}
	}
	// Imports that are no longer used.
	for _, is := range f.Imports {
		path := strings.Trim(is.Path.Value, `"`)
		if r.repl[path] > 0 && r.repl[path] == r.uses[path] {
			if is.Name != nil {
				r.replace(is.Name.Pos(), is.Name.End(), "_")
			} else {
				r.insert(is.Path.Pos(), "_ ")
			}
		}
	}
	var imps string
	if r.used[shim] {
		imps += "; import " + shim + ` "` + modPath + `/internal/vsched"`
	}
	if r.used[osAlias] {
		imps += "; import " + osAlias + ` "` + modPath + `/internal/vos"`
	}
	if imps != "" {
		r.insert(f.Name.End(), imps)
	}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	t := r.info.Types[e].Type
	if t == nil {
		if id, ok := e.(*ast.Ident); ok {
			if o := r.info.Uses[id]; o != nil {
				return o.Type()
			}
			if o := r.info.Defs[id]; o != nil {
				return o.Type()
			}
		}
		return types.Typ[types.Invalid]
	}
	return t
}

func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	return u
}

func (r *rewriter) use() string { r.used[shim] = true; return shim }

// node rewrites n and everything below it, inner nodes first.
func (r *rewriter) node(n ast.Node) {
	if n == nil {
		return
	}
	switch x := n.(type) {
	case *ast.FuncDecl:
		if x.Body == nil {
			return
		}
		r.funcs = append(r.funcs, x)
		r.block(x.Body.List)
		r.funcs = r.funcs[:len(r.funcs)-1]
		return
	case *ast.FuncLit:
		r.funcs = append(r.funcs, x)
		r.block(x.Body.List)
		r.funcs = r.funcs[:len(r.funcs)-1]
		return
	case *ast.BlockStmt:
		r.block(x.List)
		return
	case *ast.CaseClause:
		for _, e := range x.List {
			r.node(e)
		}
		r.block(x.Body)
		return
	case *ast.GoStmt:
		r.goStmt(x)
		return
	case *ast.SendStmt:
		r.node(x.Chan)
		r.node(x.Value)
		r.insert(x.Pos(), r.use()+".Send(")
		r.replace(x.Arrow, x.Arrow+2, ")(")
		r.insert(x.End(), ")")
		return
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				for _, l := range x.Lhs {
					r.lhs(l)
				}
				r.recv(u, "Recv2")
				return
			}
		}
		if r.rmw(x) {
			return
		}
		for _, l := range x.Lhs {
			r.lhs(l)
		}
		for _, e := range x.Rhs {
			r.node(e)
		}
		return
	case *ast.IncDecStmt:
		if !r.incdec(x) {
			r.lhs(x.X)
		}
		return
	case *ast.IndexExpr:
		if r.isMap(x.X) {
			r.wrap(x.X, "MapR")
			r.node(x.Index)
			return
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u, ok := ast.Unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.recv(u, "Recv2")
				return
			}
		}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			r.recv(x, "Recv")
			return
		}
	case *ast.RangeStmt:
		r.node(x.X)
		switch core(r.typeOf(x.X)).(type) {
		case *types.Chan:
			r.insert(x.X.Pos(), r.use()+".RangeChan(")
			r.insert(x.X.End(), ")")
		case *types.Map:
			r.insert(x.X.Pos(), r.use()+".RangeMap(")
			r.insert(x.X.End(), ")")
		}
		r.block(x.Body.List)
		return
	case *ast.CallExpr:
		if se, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok && se.Sel.Name == "DialContext" && simple(se.X) && len(x.Args) == 3 {
			if sel := r.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal && strings.TrimPrefix(types.TypeString(sel.Recv(), nil), "*") == "net.Dialer" {
				amp := "&"
				if _, isPtr := sel.Recv().(*types.Pointer); isPtr {
					amp = ""
				}
				r.insert(x.Pos(), r.use()+".DialContext("+amp)
				r.replace(se.X.End(), x.Lparen+1, ", ")
				for _, a := range x.Args {
					r.node(a)
				}
				return
			}
		}
		if se, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok {
			if sel := r.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal && atomicType(sel.Recv()) {
				amp := "&"
				if _, isPtr := sel.Recv().(*types.Pointer); isPtr {
					amp = ""
				}
				if amp == "" || addressable(se.X) {
					r.insert(se.X.Pos(), r.use()+".Atomic("+amp)
					r.node(se.X)
					r.insert(se.X.End(), ")")
					for _, a := range x.Args {
						r.node(a)
					}
					return
				}
			}
			if id, ok := se.X.(*ast.Ident); ok && len(x.Args) > 0 {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "sync/atomic" {
					r.wrap(x.Args[0], "Atomic")
					for _, a := range x.Args[1:] {
						r.node(a)
					}
					return
				}
			}
		}
		if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && len(x.Args) > 0 && r.isMap(x.Args[0]) {
			if b, ok := r.info.Uses[id].(*types.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
				r.wrap(x.Args[0], "MapW")
				for _, a := range x.Args[1:] {
					r.node(a)
				}
				return
			}
		}
		if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && len(x.Args) == 1 {
			if b, ok := r.info.Uses[id].(*types.Builtin); ok {
				if _, isChan := core(r.typeOf(x.Args[0])).(*types.Chan); isChan {
					switch b.Name() {
					case "close":
						r.node(x.Args[0])
						r.replace(id.Pos(), id.End(), r.use()+".Close")
						return
					case "len":
						r.node(x.Args[0])
						r.replace(id.Pos(), id.End(), r.use()+".Len")
						return
					}
				}
			}
		}
	case *ast.SelectStmt:
		r.selectStmt(x, "")
		return
	case *ast.LabeledStmt:
		if s, ok := x.Stmt.(*ast.SelectStmt); ok {
			r.selectStmt(s, x.Label.Name)
			r.replace(x.Label.Pos(), x.Colon+1, "")
			return
		}
	}
	r.children(n)
}

func (r *rewriter) isMap(e ast.Expr) bool {
	_, ok := core(r.typeOf(e)).(*types.Map)
	return ok
}

func (r *rewriter) wrap(e ast.Expr, fn string) {
	r.insert(e.Pos(), r.use()+"."+fn+"(")
	r.node(e)
	r.insert(e.End(), ")")
}

// lhs rewrites an expression that is assigned to.
func (r *rewriter) lhs(e ast.Expr) {
	if x, ok := ast.Unparen(e).(*ast.IndexExpr); ok && r.isMap(x.X) {
		r.wrap(x.X, "MapW")
		r.node(x.Index)
		return
	}
	r.node(e)
}

// lvalue is the text of a simple expression that is assigned to.
func (r *rewriter) lvalue(e ast.Expr) string {
	if x, ok := ast.Unparen(e).(*ast.IndexExpr); ok && r.isMap(x.X) {
		return r.use() + ".MapW(" + r.text(x.X) + ")[" + r.text(x.Index) + "]"
	}
	return r.text(e)
}

func atomicType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync/atomic" || p == "sync" && n.Obj().Name() == "Map"
}

func addressable(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident, *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		return true
	case *ast.IndexExpr:
		return addressable(x.X)
	}
	return false
}

func (r *rewriter) children(n ast.Node) {
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil {
			return false
		}
		if first {
			first = false
			return true
		}
		r.node(c)
		return false
	})
}

func (r *rewriter) recv(u *ast.UnaryExpr, fn string) {
	r.node(u.X)
	r.replace(u.OpPos, u.OpPos+2, r.use()+"."+fn+"(")
	r.insert(u.X.End(), ")")
}

func (r *rewriter) goStmt(g *ast.GoStmt) {
	call := g.Call
	if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		r.node(lit)
		r.replace(g.Go, lit.Pos(), r.use()+".Go(")
		r.replace(lit.End(), g.End(), ")")
		return
	}
	// Function value and arguments are evaluated now.
	r.node(call.Fun)
	for _, a := range call.Args {
		r.node(a)
	}
	r.tmp++
	pre := fmt.Sprintf("_g%d", r.tmp)
	decl := pre + "f := " + r.render(call.Fun.Pos(), call.Fun.End()) + "; "
	var args []string
	for i, a := range call.Args {
		tv := r.info.Types[a]
		txt := r.render(a.Pos(), a.End())
		if tv.Value != nil || tv.IsNil() {
			args = append(args, txt)
			continue
		}
		name := fmt.Sprintf("%sa%d", pre, i)
		decl += name + " := " + txt + "; "
		args = append(args, name)
	}
	dots := ""
	if call.Ellipsis.IsValid() {
		dots = "..."
	}
	text := "{ " + decl + r.use() + ".Go(func() { " + pre + "f(" + strings.Join(args, ", ") + dots + ") }) }"
	r.replace(g.Pos(), g.End(), text)
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label string) {
	if len(s.Body.List) == 0 {
		r.replace(s.Pos(), s.End(), r.use()+".Forever()")
		return
	}
	r.tmp++
	pre := fmt.Sprintf("_s%d", r.tmp)
	var prelude strings.Builder
	var names []string
	hasDefault := false
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			r.block(cc.Body)
			continue
		}
		name := fmt.Sprintf("%sc%d", pre, idx)
		names = append(names, name)
		var head string
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			r.node(cm.Chan)
			r.node(cm.Value)
			ch := r.render(cm.Chan.Pos(), cm.Chan.End())
			v := r.render(cm.Value.Pos(), cm.Value.End())
			fmt.Fprintf(&prelude, "%s := %s.CaseSend(%s)(%s); ", name, r.use(), ch, v)
			head = fmt.Sprintf("case %d:", idx)
		case *ast.ExprStmt:
			u := ast.Unparen(cm.X).(*ast.UnaryExpr)
			r.node(u.X)
			fmt.Fprintf(&prelude, "%s := %s.CaseRecv(%s); ", name, r.use(), r.render(u.X.Pos(), u.X.End()))
			head = fmt.Sprintf("case %d:", idx)
		case *ast.AssignStmt:
			u := ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			r.node(u.X)
			fmt.Fprintf(&prelude, "%s := %s.CaseRecv(%s); ", name, r.use(), r.render(u.X.Pos(), u.X.End()))
			lhs := string(r.src[r.off(cm.Lhs[0].Pos()):r.off(cm.Lhs[len(cm.Lhs)-1].End())])
			rhs := name + ".V"
			if len(cm.Lhs) == 2 {
				rhs += ", " + name + ".OK"
			}
			head = fmt.Sprintf("case %d: %s %s %s;", idx, lhs, cm.Tok, rhs)
		}
		r.block(cc.Body)
		r.replace(cc.Case, cc.Colon+1, head)
		idx++
	}
	fmt.Fprintf(&prelude, "%s", "")
	lab := ""
	if label != "" {
		lab = label + ": "
	}
	head := "{ " + prelude.String() + lab + "switch " + r.use() + fmt.Sprintf(".Select(%v, %s) {", hasDefault, strings.Join(names, ", "))
	if len(names) == 0 {
		head = "{ " + lab + "switch " + r.use() + fmt.Sprintf(".Select(%v) {", hasDefault)
	}
	r.replace(s.Select, s.Body.Lbrace+1, head)
	tail := "}}"
	if !hasDefault {
		tail = `default: panic("unreachable") }}`
	}
	r.replace(s.Body.Rbrace, s.Body.Rbrace+1, tail)
}

// block rewrites a statement list and inserts scheduling points.
func (r *rewriter) block(list []ast.Stmt) {
	for _, s := range list {
		if p := r.shared(s); p != "" {
			r.insert(s.Pos(), r.use()+"."+p+"(); ")
		}
		r.node(s)
	}
}

// shared reports whether executing the head of a statement may touch memory
// that other goroutines can reach.
func (r *rewriter) shared(s ast.Stmt) string {
	switch x := s.(type) {
	case *ast.CaseClause, *ast.CommClause, *ast.BranchStmt, *ast.EmptyStmt, *ast.BlockStmt, *ast.LabeledStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
		return ""
	case *ast.DeclStmt:
		gd, ok := x.Decl.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			return ""
		}
	}
	// Coarse: state of the package's own types, variables shared by name.
	// Fine: fields of other packages' types (messages), elements of local
	// slices and maps.
	coarse, fine := false, false
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		if coarse {
			return false
		}
		switch x := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.SelectorExpr:
			if sel := r.info.Selections[x]; sel != nil && sel.Kind() == types.FieldVal {
				v, _ := sel.Obj().(*types.Var)
				own := v != nil && v.Pkg() == r.pkg
				if own && !r.written[v.Origin()] {
					return true // set once when the value is built
				}
				if !sel.Indirect() {
					return true // part of a value, shared only if its root is
				}
				if own {
					coarse = true
					return false
				}
				fine = true
			}
		case *ast.StarExpr:
			coarse = true
			return false
		case *ast.IndexExpr:
			fine = true
		case *ast.Ident:
			if v, ok := r.info.Uses[x].(*types.Var); ok && !v.IsField() {
				if v.Parent() == v.Pkg().Scope() {
					if v.Pkg() == r.pkg && !r.written[v.Origin()] {
						return true
					}
					coarse = true
					return false
				}
				if len(r.funcs) > 0 && r.written[v] {
					f := r.funcs[len(r.funcs)-1]
					if v.Pos() < f.Pos() || v.Pos() > f.End() { // captured
						coarse = true
						return false
					}
				}
			}
		case *ast.RangeStmt:
			ast.Inspect(x.X, visit)
			return false
		}
		return true
	}
	ast.Inspect(s, visit)
	switch {
	case coarse:
		return "Point"
	case fine:
		return "PointFine"
	}
	return ""
}

// writtenFields collects the fields of the package's own types that are
// assigned, modified or have their address taken anywhere after the value was
// built. Reading any other field needs no scheduling point.
func writtenFields(files []*ast.File, info *types.Info) map[*types.Var]bool {
	w := map[*types.Var]bool{}
	var mark func(e ast.Expr)
	mark = func(e ast.Expr) {
		switch x := ast.Unparen(e).(type) {
		case *ast.SelectorExpr:
			if sel := info.Selections[x]; sel != nil && sel.Kind() == types.FieldVal {
				if v, ok := sel.Obj().(*types.Var); ok {
					w[v.Origin()] = true
				}
				mark(x.X)
			}
		case *ast.Ident:
			if v, ok := info.Uses[x].(*types.Var); ok && !v.IsField() {
				w[v.Origin()] = true
			}
		case *ast.IndexExpr:
			mark(x.X)
		case *ast.SliceExpr:
			mark(x.X)
		case *ast.StarExpr:
			mark(x.X)
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(x.X)
			case *ast.RangeStmt:
				if x.Key != nil {
					mark(x.Key)
				}
				if x.Value != nil {
					mark(x.Value)
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					mark(x.X)
				}
			case *ast.CallExpr:
				if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && len(x.Args) > 0 {
					switch id.Name {
					case "delete", "copy", "clear":
						mark(x.Args[0])
					}
				}
				if s, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok {
					if sel := info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
						if fn, ok := sel.Obj().(*types.Func); ok && fn.Pkg() != nil {
							recv := fn.Type().(*types.Signature).Recv()
							_, ptr := recv.Type().(*types.Pointer)
							_, isPtr := info.TypeOf(s.X).Underlying().(*types.Pointer)
							if ptr && !isPtr && fn.Pkg().Path() != "sync" {
								mark(s.X)
							}
						}
					}
				}
			}
			return true
		})
	}
	return w
}

// simple reports whether evaluating e twice is harmless.
func simple(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		return true
	case *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	case *ast.StarExpr:
		return simple(x.X)
	case *ast.IndexExpr:
		return simple(x.X) && simple(x.Index)
	}
	return false
}

func (r *rewriter) nonLocal(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		v, ok := r.info.Uses[x].(*types.Var)
		if !ok || v.Pkg() == nil {
			return false
		}
		if v.Parent() == v.Pkg().Scope() {
			return true
		}
		if len(r.funcs) > 0 {
			f := r.funcs[len(r.funcs)-1]
			return v.Pos() < f.Pos() || v.Pos() > f.End()
		}
		return false
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		return true
	}
	return false
}

func (r *rewriter) text(e ast.Expr) string {
	return string(r.src[r.off(e.Pos()):r.off(e.End())])
}

// incdec splits x.f++ into a read and a write.
func (r *rewriter) incdec(x *ast.IncDecStmt) bool {
	if !r.nonLocal(x.X) || !simple(x.X) || !r.stmtContext(x) {
		return false
	}
	op := "+"
	if x.Tok == token.DEC {
		op = "-"
	}
	t := r.lvalue(x.X)
	r.tmp++
	tv := fmt.Sprintf("_t%d", r.tmp)
	r.replace(x.Pos(), x.End(), fmt.Sprintf("{ %s := %s %s 1; %s.Point(); %s = %s }", tv, t, op, r.use(), t, tv))
	return true
}

// rmw splits x.f = g(x.f) and x.f += y into evaluation and assignment.
func (r *rewriter) rmw(x *ast.AssignStmt) bool {
	if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE || !r.stmtContext(x) {
		return false
	}
	l := x.Lhs[0]
	if !r.nonLocal(l) || !simple(l) {
		return false
	}
	lt := r.text(l)
	if x.Tok == token.ASSIGN {
		// only when the right-hand side reads what is assigned
		reads := false
		ast.Inspect(x.Rhs[0], func(n ast.Node) bool {
			if e, ok := n.(ast.Expr); ok && r.text(e) == lt {
				reads = true
			}
			return !reads
		})
		tv := r.info.Types[x.Rhs[0]]
		if !reads || tv.Value != nil || tv.IsNil() {
			return false
		}
		r.node(x.Rhs[0])
		rhs := r.render(x.Rhs[0].Pos(), x.Rhs[0].End())
		r.tmp++
		name := fmt.Sprintf("_t%d", r.tmp)
		r.dropEdits(l)
		r.replace(x.Pos(), x.End(), fmt.Sprintf("{ %s := %s; %s.Point(); %s = %s }", name, rhs, r.use(), r.lvalue(l), name))
		return true
	}
	// op=
	op := strings.TrimSuffix(x.Tok.String(), "=")
	if op == "<<" || op == ">>" || op == "&^" {
		return false
	}
	r.node(x.Rhs[0])
	rhs := r.render(x.Rhs[0].Pos(), x.Rhs[0].End())
	r.tmp++
	name := fmt.Sprintf("_t%d", r.tmp)
	r.dropEdits(l)
	r.replace(x.Pos(), x.End(), fmt.Sprintf("{ %s := %s %s (%s); %s.Point(); %s = %s }", name, r.lvalue(l), op, rhs, r.use(), r.lvalue(l), name))
	return true
}

func (r *rewriter) dropEdits(e ast.Expr) { r.render(e.Pos(), e.End()) }

// stmtContext reports whether s stands in a statement list (not in the header
// of a for, if or switch statement, where a block is not allowed).
func (r *rewriter) stmtContext(s ast.Stmt) bool {
	if len(r.funcs) == 0 {
		return false
	}
	ok := false
	check := func(list []ast.Stmt) {
		for _, x := range list {
			if x == s {
				ok = true
			}
		}
	}
	ast.Inspect(r.funcs[len(r.funcs)-1], func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			check(x.List)
		case *ast.CaseClause:
			check(x.Body)
		case *ast.CommClause:
			check(x.Body)
		}
		return !ok
	})
	return ok
}
