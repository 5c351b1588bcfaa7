// Package instr instruments the Go packages of a module for simulation: it
// writes rewritten copies of the source files and an overlay file for the go
// command; the module itself is not touched.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var overrides = map[string]struct {
	pkg   string
	names map[string]bool
}{
	"sync":         {"simsync", set("Mutex RWMutex Once Pool Map OnceFunc OnceValue OnceValues")},
	"time":         {"simtime", set("Now Since Until AfterFunc")},
	"context":      {"simctx", set("AfterFunc")},
	"math/rand":    {"simrand", set("ExpFloat64 Float32 Float64 Int Int31 Int31n Int63 Int63n Intn NormFloat64 Perm Shuffle Uint32 Uint64 Seed Read")},
	"math/rand/v2": {"simrand2", set("ExpFloat64 Float32 Float64 Int Int32 Int32N Int64 Int64N IntN NormFloat64 Perm Shuffle Uint Uint32 Uint32N Uint64 Uint64N UintN N")},
	"crypto/rand":  {"simcrand", set("Read Reader Text")},
	"net/http":     {"simhttp", set("Dir")},
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, f := range strings.Fields(s) {
		m[f] = true
	}
	return m
}

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Module     *struct{ Path, GoVersion string }
	Error      *struct{ Err string }
}

// Result says what was instrumented.
type Result struct {
	Overlay  string
	Sites    []string
	Packages []string
	Files    int
}

// Run instruments every non-main package of the module in repo.
func Run(repo, out string) (*Result, error) {
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,Module,Error", "./...")
	cmd.Dir = repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	data, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	var pkgs []listPkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		pkgs = append(pkgs, p)
	}
	exports := map[string]string{}
	modPath := ""
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil {
			modPath = p.Module.Path
		}
	}
	_ = modPath
	res := &Result{}
	overlay := map[string]string{}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, p := range pkgs {
		if p.Module == nil || p.Name == "main" || len(p.CgoFiles) > 0 {
			continue
		}
		if p.Error != nil {
			return nil, fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
		}
		var files []*ast.File
		var srcs [][]byte
		var names []string
		for _, f := range p.GoFiles {
			fn := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(fn)
			if err != nil {
				return nil, err
			}
			af, err := parser.ParseFile(fset, fn, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			files = append(files, af)
			srcs = append(srcs, src)
			names = append(names, fn)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
		conf := types.Config{Importer: imp}
		if p.Module.GoVersion != "" {
			conf.GoVersion = "go" + p.Module.GoVersion
		}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			return nil, fmt.Errorf("type check %s: %v", p.ImportPath, err)
		}
		resets := resetsOf(info, p.Module.Path)
		for i, af := range files {
			in := &inst{resets: resets, pkg: p.ImportPath, mod: p.Module.Path, fset: fset, file: af, src: srcs[i], info: info, res: res, rel: relName(repo, names[i]), imports: map[string]bool{}, keep: map[string]bool{}}
			text := in.rewrite()
			dst := filepath.Join(out, "src", strings.ReplaceAll(relName(repo, names[i]), "/", "__"))
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				return nil, err
			}
			if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
				return nil, err
			}
			overlay[names[i]] = dst
			res.Files++
		}
		res.Packages = append(res.Packages, p.ImportPath)
	}
	res.Overlay = filepath.Join(out, "overlay.json")
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(res.Overlay, b, 0o644); err != nil {
		return nil, err
	}
	return res, os.WriteFile(filepath.Join(out, "sites.txt"), []byte(strings.Join(res.Sites, "\n")), 0o644)
}

func relName(repo, fn string) string {
	if r, err := filepath.Rel(repo, fn); err == nil {
		return r
	}
	return fn
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

type inst struct {
	fset    *token.FileSet
	file    *ast.File
	src     []byte
	info    *types.Info
	res     *Result
	rel     string
	edits   []edit
	seq     int
	uniq    int
	imports map[string]bool
	keep    map[string]bool
	resets  []reset
	inits   []string
	pkg     string
	mod     string
}

// reset is a package-level variable that starts every run as it starts the
// process: it holds channels, timers or one-time initialisations, which belong
// to one run.
type reset struct {
	idx int
	lhs []*types.Var
	rhs ast.Expr
}

func resetsOf(info *types.Info, mod string) (l []reset) {
	local := func(p *types.Package) bool {
		return p != nil && (p.Path() == mod || strings.HasPrefix(p.Path(), mod+"/"))
	}
	seen := map[types.Type]bool{}
	var holds func(t types.Type) bool
	holds = func(t types.Type) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if n, ok := types.Unalias(t).(*types.Named); ok && !local(n.Obj().Pkg()) {
			if n.Obj().Pkg() == nil {
				return false
			}
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "sync.Once", "sync.Cond", "sync.WaitGroup", "time.Timer", "time.Ticker":
				return true
			}
			for i := 0; i < n.TypeArgs().Len(); i++ {
				if holds(n.TypeArgs().At(i)) {
					return true
				}
			}
			return false
		}
		switch t := t.Underlying().(type) {
		case *types.Chan:
			return true
		case *types.Pointer:
			return holds(t.Elem())
		case *types.Slice:
			return holds(t.Elem())
		case *types.Array:
			return holds(t.Elem())
		case *types.Map:
			return holds(t.Elem()) || holds(t.Key())
		case *types.Struct:
			for i := 0; i < t.NumFields(); i++ {
				if holds(t.Field(i).Type()) {
					return true
				}
			}
		}
		return false
	}
	calls := func(x ast.Expr) bool { return initCalls(info, mod, x) }
	done := map[*types.Var]bool{}
	for i, ini := range info.InitOrder {
		yes := calls(ini.Rhs)
		for _, v := range ini.Lhs {
			clear(seen)
			yes = yes || holds(v.Type())
			done[v] = true
		}
		if yes {
			l = append(l, reset{i + 1, ini.Lhs, ini.Rhs})
		}
	}
	for _, o := range info.Defs {
		v, ok := o.(*types.Var)
		if !ok || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() || done[v] || v.Name() == "_" {
			continue
		}
		clear(seen)
		if holds(v.Type()) {
			l = append(l, reset{0, []*types.Var{v}, nil})
		}
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].idx != l[j].idx {
			return l[i].idx < l[j].idx
		}
		return l[i].lhs[0].Pos() < l[j].lhs[0].Pos()
	})
	return l
}

// initCalls tells whether an initialiser makes something its type does not show.
func initCalls(info *types.Info, mod string, x ast.Node) (yes bool) {
	local := func(p *types.Package) bool {
		return p != nil && (p.Path() == mod || strings.HasPrefix(p.Path(), mod+"/"))
	}

	ast.Inspect(x, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			return false
		}
		if _, ok := n.(*ast.GoStmt); ok {
			yes = true
		}
		if c, ok := n.(*ast.CallExpr); ok {
			f := unparen(c.Fun)
			if ix, ok := f.(*ast.IndexExpr); ok {
				f = ix.X
			}
			var id *ast.Ident
			switch f := f.(type) {
			case *ast.Ident:
				id = f
			case *ast.SelectorExpr:
				id = f.Sel
			case *ast.FuncLit:
				yes = true
			}
			if id != nil {
				if o, ok := info.Uses[id].(*types.Func); ok && (local(o.Pkg()) || o.Pkg() != nil && o.Pkg().Path() == "sync") {
					yes = true
				}
				if b, ok := info.Uses[id].(*types.Builtin); ok && b.Name() == "make" {
					if _, ok := info.Types[c].Type.Underlying().(*types.Chan); ok {
						yes = true
					}
				}
			}
		}
		return true
	})
	return
}

// resetFuncs renders the resets of the variables declared in this file.
func (in *inst) resetFuncs() string {
	var sb strings.Builder
	for k, r := range in.resets {
		at := r.lhs[0].Pos()
		if at < in.file.FileStart || at > in.file.FileEnd {
			continue
		}
		fmt.Fprintf(&sb, "\n//go:norace\nfunc __reset%d() { ", k)
		if r.rhs == nil {
			fmt.Fprintf(&sb, "__simrt.Zero(&%s)", r.lhs[0].Name())
		} else {
			var names []string
			for _, v := range r.lhs {
				names = append(names, v.Name())
			}
			fmt.Fprintf(&sb, "%s = %s", strings.Join(names, ", "), in.render(in.off(r.rhs.Pos()), in.off(r.rhs.End())))
		}
		fmt.Fprintf(&sb, " }\nfunc init() { __simrt.OnReset(%q, %d, __reset%d) }\n", in.pkg, r.idx, k)
	}
	for i, name := range in.inits {
		fmt.Fprintf(&sb, "\nfunc init() { %s(); __simrt.OnReset(%q, %d, %s) }\n", name, in.pkg, 1<<20+i, name)
	}
	return sb.String()
}

func (in *inst) off(p token.Pos) int { return in.fset.PositionFor(p, false).Offset }

func (in *inst) replace(a, b int, text string) {
	k := 0
	for _, e := range in.edits {
		if a < b && e.pos >= a && e.end <= b && !(e.pos == e.end && e.pos == b) {
			continue
		}
		in.edits[k] = e
		k++
	}
	in.edits = in.edits[:k]
	in.seq++
	in.edits = append(in.edits, edit{a, b, text, in.seq})
}

func (in *inst) render(a, b int) string {
	var es []edit
	for _, e := range in.edits {
		if e.pos >= a && e.end <= b {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].pos != es[j].pos {
			return es[i].pos < es[j].pos
		}
		return es[i].seq > es[j].seq
	})
	var sb strings.Builder
	at := a
	for _, e := range es {
		if e.pos < at {
			panic(fmt.Sprintf("overlapping edits in %s", in.rel))
		}
		sb.Write(in.src[at:e.pos])
		sb.WriteString(e.text)
		at = e.end
	}
	sb.Write(in.src[at:b])
	return sb.String()
}

func (in *inst) site(p token.Pos) int {
	pos := in.fset.PositionFor(p, false)
	in.res.Sites = append(in.res.Sites, fmt.Sprintf("%s:%d", in.rel, pos.Line))
	return len(in.res.Sites) - 1
}

func (in *inst) y(p token.Pos) string {
	return "__simrt.Y(" + strconv.Itoa(in.site(p)) + "); "
}

func (in *inst) rewrite() string {
	var stack []ast.Node
	ast.Inspect(in.file, func(n ast.Node) bool {
		if n != nil {
			stack = append(stack, n)
			return true
		}
		top := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		in.post(top)
		return true
	})
	hdr := `; import __simrt "verifsim/simrt"`
	var imps []string
	for p := range in.imports {
		imps = append(imps, p)
	}
	sort.Strings(imps)
	for _, p := range imps {
		hdr += fmt.Sprintf("; import __%s %q", p, "verifsim/"+p)
	}
	e := in.off(in.file.Name.End())
	in.replace(e, e, hdr)
	var keeps []string
	for k := range in.keep {
		keeps = append(keeps, k)
	}
	sort.Strings(keeps)
	return in.render(0, len(in.src)) + "\nvar _ = __simrt.Y\n" + strings.Join(keeps, "\n") + "\n" + in.resetFuncs()
}

func (in *inst) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		o := in.off(s.Pos())
		in.replace(o, o, in.y(s.Pos()))
	}
}

func (in *inst) post(n ast.Node) {
	switch n := n.(type) {
	case *ast.SelectorExpr:
		id, ok := n.X.(*ast.Ident)
		if !ok {
			return
		}
		pn, ok := in.info.Uses[id].(*types.PkgName)
		if !ok {
			return
		}
		ov, ok := overrides[pn.Imported().Path()]
		if !ok || !ov.names[n.Sel.Name] {
			return
		}
		in.imports[ov.pkg] = true
		in.replace(in.off(n.Pos()), in.off(n.End()), "__"+ov.pkg+"."+n.Sel.Name)
		switch in.info.Uses[n.Sel].(type) {
		case *types.TypeName:
			in.keep["var _ "+id.Name+"."+n.Sel.Name] = true
		default:
			name := n.Sel.Name
			if strings.HasPrefix(name, "OnceV") {
				name = "OnceFunc"
			}
			if name == "N" {
				name = "Int64N"
			}
			in.keep["var _ = "+id.Name+"."+name] = true
		}
	case *ast.BlockStmt:
		in.stmts(n.List)
	case *ast.CaseClause:
		in.stmts(n.Body)
	case *ast.CommClause:
		in.stmts(n.Body)
	case *ast.ForStmt:
		in.emptyBody(n.Body)
	case *ast.RangeStmt:
		in.emptyBody(n.Body)
		in.rangeStmt(n)
	case *ast.GoStmt:
		in.goStmt(n)
	case *ast.FuncDecl:
		// init functions run again at the start of every run when they start
		// goroutines or make channels
		if n.Recv == nil && n.Name.Name == "init" && n.Body != nil && initCalls(in.info, in.mod, n.Body) {
			name := fmt.Sprintf("__init%d", in.off(n.Pos()))
			in.replace(in.off(n.Name.Pos()), in.off(n.Name.End()), name)
			in.inits = append(in.inits, name)
		}
	case *ast.SelectStmt:
		in.selectStmt(n)
	}
}

func (in *inst) emptyBody(b *ast.BlockStmt) {
	if len(b.List) == 0 {
		o := in.off(b.Lbrace) + 1
		in.replace(o, o, in.y(b.Lbrace))
	}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (in *inst) rangeStmt(n *ast.RangeStmt) {
	tv, ok := in.info.Types[n.X]
	if !ok {
		return
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return
	}
	if n.Key == nil || blank(n.Key) && blank(n.Value) {
		return
	}
	in.uniq++
	it := fmt.Sprintf("__it%d", in.uniq)
	k, v := !blank(n.Key), !blank(n.Value)
	text := func(e ast.Expr) string { return string(in.src[in.off(e.Pos()):in.off(e.End())]) }
	var head, next string
	if n.Tok == token.DEFINE {
		switch {
		case k && v:
			head = fmt.Sprintf("%s, %s, %s := __simrt.MapIterKV(", it, text(n.Key), text(n.Value))
			next = fmt.Sprintf("NextKV(&%s, &%s)", text(n.Key), text(n.Value))
		case k:
			head = fmt.Sprintf("%s, %s := __simrt.MapIterK(", it, text(n.Key))
			next = fmt.Sprintf("NextK(&%s)", text(n.Key))
		default:
			head = fmt.Sprintf("%s, %s := __simrt.MapIterV(", it, text(n.Value))
			next = fmt.Sprintf("NextV(&%s)", text(n.Value))
		}
	} else {
		for _, e := range []ast.Expr{n.Key, n.Value} {
			if e == nil || blank(e) {
				continue
			}
			if _, ok := e.(*ast.Ident); !ok {
				return
			}
		}
		a, b := "nil", "nil"
		mt := tv.Type.Underlying().(*types.Map)
		if k {
			if !types.Identical(in.info.Types[n.Key].Type, mt.Key()) {
				if o := in.info.Uses[n.Key.(*ast.Ident)]; o == nil || !types.Identical(o.Type(), mt.Key()) {
					return
				}
			}
			a = "&" + text(n.Key)
		}
		if v {
			if o := in.info.Uses[n.Value.(*ast.Ident)]; o == nil || !types.Identical(o.Type(), mt.Elem()) {
				return
			}
			b = "&" + text(n.Value)
		}
		head = fmt.Sprintf("%s := __simrt.MapIter0(", it)
		next = fmt.Sprintf("NextKV(%s, %s)", a, b)
	}
	x0, x1 := in.off(n.X.Pos()), in.off(n.X.End())
	in.replace(in.off(n.Key.Pos()), x0, head)
	in.replace(x1, x1, fmt.Sprintf("); %s.%s; ", it, next))
}

func (in *inst) goStmt(n *ast.GoStmt) {
	in.uniq++
	id := in.uniq
	call := n.Call
	site := in.fset.PositionFor(n.Pos(), false)
	name := fmt.Sprintf("go@%s:%d", in.rel, site.Line)
	var pre strings.Builder
	fun := in.render(in.off(call.Fun.Pos()), in.off(call.Fun.End()))
	inlineFun := false
	if tv, ok := in.info.Types[call.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
		inlineFun = true
	}
	if f, ok := call.Fun.(*ast.Ident); ok {
		if _, inst := in.info.Instances[f]; inst {
			inlineFun = true
		}
	}
	if f, ok := call.Fun.(*ast.SelectorExpr); ok {
		if _, inst := in.info.Instances[f.Sel]; inst {
			inlineFun = true
		}
	}
	if !inlineFun {
		fmt.Fprintf(&pre, "__gf%d := %s; ", id, fun)
		fun = fmt.Sprintf("__gf%d", id)
	}
	var args []string
	for i, a := range call.Args {
		t := in.render(in.off(a.Pos()), in.off(a.End()))
		tv := in.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			args = append(args, t)
			continue
		}
		fmt.Fprintf(&pre, "__ga%d_%d := %s; ", id, i, t)
		args = append(args, fmt.Sprintf("__ga%d_%d", id, i))
	}
	al := strings.Join(args, ", ")
	if call.Ellipsis.IsValid() {
		al += "..."
	}
	in.replace(in.off(n.Pos()), in.off(n.End()), fmt.Sprintf("{ %s__simrt.Go(%q, func() { %s(%s) }) }", pre.String(), name, fun, al))
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (in *inst) selectStmt(n *ast.SelectStmt) {
	if len(n.Body.List) == 0 {
		return
	}
	in.uniq++
	id := in.uniq
	var vars, inits []string
	hasDef := false
	type ce struct {
		a, b int
		t    string
	}
	var ces []ce
	rd := func(e ast.Expr) string { return in.render(in.off(e.Pos()), in.off(e.End())) }
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		a, b := in.off(c.Case), in.off(c.Colon)+1
		if c.Comm == nil {
			hasDef = true
			ces = append(ces, ce{a, b, "case -1:"})
			continue
		}
		i := len(vars)
		v := fmt.Sprintf("__s%d_%d", id, i)
		head := fmt.Sprintf("case %d:", i)
		recv := func(e ast.Expr) string {
			u := unparen(e).(*ast.UnaryExpr)
			return "__simrt.SelRecv(" + rd(u.X) + ")"
		}
		switch c := c.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, "__simrt.SelSend("+rd(c.Chan)+").With("+rd(c.Value)+")")
		case *ast.ExprStmt:
			inits = append(inits, recv(c.X))
		case *ast.AssignStmt:
			inits = append(inits, recv(c.Rhs[0]))
			var l []string
			for _, e := range c.Lhs {
				l = append(l, rd(e))
			}
			r := v + ".V"
			if len(l) == 2 {
				r += ", " + v + ".Ok"
			}
			head += " " + strings.Join(l, ", ") + " " + c.Tok.String() + " " + r + ";"
		}
		vars = append(vars, v)
		ces = append(ces, ce{a, b, head})
	}
	text := "switch "
	if len(vars) > 0 {
		text += strings.Join(vars, ", ") + " := " + strings.Join(inits, ", ") + "; "
	}
	text += fmt.Sprintf("__simrt.Select(%v", hasDef)
	for _, v := range vars {
		text += ", " + v
	}
	text += ") "
	for _, c := range ces {
		in.replace(c.a, c.b, c.t)
	}
	in.replace(in.off(n.Pos()), in.off(n.Body.Lbrace), text)
	e := in.off(n.Body.Rbrace)
	in.replace(e, e, ` default: panic("unreachable"); `)
}
