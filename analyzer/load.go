package main

import (
	"crypto/sha256"
	_ "embed"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ava12/llx"

// Prog is the analysed program.
type Prog struct {
	Repo      string
	SSA       *ssa.Program
	Fset      *token.FileSet
	Pkgs      map[string]*packages.Package // by path
	Lib       map[string]*ssa.Package      // library packages by path
	Fns       []*ssa.Function              // functions with bodies belonging to library packages
	Digest    string
	Driver    *ssa.Package // most general clients, nil if they do not compile
	callers   map[*ssa.Function][]ssa.CallInstruction
	immFields map[*types.Var]bool
}

func isLibPath(path string) bool {
	if path != modPath && !strings.HasPrefix(path, modPath+"/") {
		return false
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
	for _, p := range strings.Split(rel, "/") {
		if p == "examples" || p == "test" {
			return false
		}
	}
	return true
}

// stdBodies are packages of the standard library whose functions are followed in exact mode.
var stdBodies = []string{"slices", "maps", "sort", "cmp", "iter"}

func hasStdBody(path string) bool {
	for _, p := range stdBodies {
		if p == path {
			return true
		}
	}
	return path == modPath+"/"+driverRel
}

// driverRel is the package (see driver/driver.go.txt) of the most general clients of the library; it exists for the
// analyzer only.
const driverRel = "internal/test/verifdriver"

//go:embed driver/driver.go.txt
var driverSource []byte

func load(repo string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  repo,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
	}
	cfg.Overlay = map[string][]byte{filepath.Join(repo, driverRel, "driver.go"): driverSource}
	ps, e := packages.Load(cfg, append([]string{"./...", "./" + driverRel}, stdBodies...)...)
	if e != nil {
		return nil, e
	}
	p := &Prog{Repo: repo, Pkgs: map[string]*packages.Package{}, Lib: map[string]*ssa.Package{}}
	for _, pkg := range ps {
		if len(pkg.Errors) != 0 && isLibPath(pkg.PkgPath) {
			return nil, fmt.Errorf("%s: %v", pkg.PkgPath, pkg.Errors[0])
		}
		p.Pkgs[pkg.PkgPath] = pkg
	}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	p.Fset = prog.Fset
	for _, sp := range sps {
		if sp != nil && isLibPath(sp.Pkg.Path()) {
			p.Lib[sp.Pkg.Path()] = sp
		}
		if sp != nil && sp.Pkg.Path() == modPath+"/"+driverRel {
			p.Driver = sp
		}
	}
	if p.Lib[modPath+"/parser"] == nil || p.Lib[modPath+"/langdef"] == nil {
		return nil, fmt.Errorf("library packages not found in %s", repo)
	}
	for f := range ssautil.AllFunctions(prog) {
		if len(f.Blocks) != 0 && isLibPath(fnPkgPath(f)) && f.TypeParams().Len() == len(f.TypeArgs()) {
			p.Fns = append(p.Fns, f)
		}
	}
	sort.Slice(p.Fns, func(i, j int) bool {
		a, b := p.Fns[i], p.Fns[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	h := sha256.New()
	for _, name := range p.libNames() {
		for _, f := range p.Pkgs[name].GoFiles {
			data, _ := os.ReadFile(f)
			h.Write(data)
		}
	}
	p.Digest = fmt.Sprintf("%x", h.Sum(nil))[:16]
	return p, nil
}

func (p *Prog) libNames() []string {
	var res []string
	for n := range p.Lib {
		res = append(res, n)
	}
	sort.Strings(res)
	return res
}

// fnPkgPath returns the package path a function (or its origin, or its parent) belongs to.
func fnPkgPath(f *ssa.Function) string {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o != f {
			f = o
			continue
		}
		if f.Parent() != nil {
			f = f.Parent()
			continue
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
		return ""
	}
	return ""
}

func relPkg(path string) string {
	return strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	return strings.TrimPrefix(ps.Filename, p.Repo+"/") + ":" + fmt.Sprint(ps.Line)
}

// IPos returns position of an instruction or the closest one known.
func (p *Prog) IPos(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return p.Pos(i.Pos())
	}
	if v, ok := i.(ssa.Value); ok {
		if refs := v.Referrers(); refs != nil {
			for _, r := range *refs {
				if r.Pos().IsValid() {
					return p.Pos(r.Pos())
				}
			}
		}
	}
	for _, j := range i.Block().Instrs {
		if j.Pos().IsValid() {
			return p.Pos(j.Pos())
		}
	}
	return p.Pos(i.Parent().Pos())
}

func fnName(f *ssa.Function) string {
	s := f.RelString(nil)
	return strings.ReplaceAll(s, modPath+"/", "")
}

// Pkg returns library package by path relative to module root.
func (p *Prog) Pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.Lib[modPath]
	}
	return p.Lib[modPath+"/"+rel]
}

// Named returns named type of library package.
func (p *Prog) Named(rel, name string) *types.Named {
	pkg := p.Pkg(rel)
	if pkg == nil {
		return nil
	}
	o := pkg.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	t, _ := types.Unalias(o.Type()).(*types.Named)
	return t
}

// Func returns package-level function.
func (p *Prog) Func(rel, name string) *ssa.Function {
	pkg := p.Pkg(rel)
	if pkg == nil {
		return nil
	}
	return pkg.Func(name)
}

// Method returns method of *T (or T).
func (p *Prog) Method(rel, typ, name string) *ssa.Function {
	t := p.Named(rel, typ)
	if t == nil {
		return nil
	}
	ms := types.NewMethodSet(types.NewPointer(t))
	sel := ms.Lookup(t.Obj().Pkg(), name)
	if sel == nil {
		return nil
	}
	f := p.SSA.MethodValue(sel)
	return f
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// isNamed tells whether t (or *t) is the named type path.name (path is relative to the module).
func isNamed(t types.Type, rel, name string) bool {
	n, ok := types.Unalias(deref(types.Unalias(t))).(*types.Named)
	if !ok {
		return false
	}
	n = n.Origin()
	path := modPath
	if rel != "" {
		path += "/" + rel
	}
	return n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func constBool(v ssa.Value) (val, ok bool) {
	c, is := v.(*ssa.Const)
	if !is || c.Value == nil || c.Value.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.Value), true
}

func constInt(v ssa.Value) (int64, bool) {
	c, is := v.(*ssa.Const)
	if !is || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

func isNilConst(v ssa.Value) bool {
	c, is := v.(*ssa.Const)
	return is && c.IsNil()
}

// allFns visits instructions of all library functions.
func (p *Prog) eachInstr(visit func(f *ssa.Function, i ssa.Instruction)) {
	for _, f := range p.Fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				visit(f, i)
			}
		}
	}
}

// staticCallee resolves the callee, including closures called directly.
func staticCallee(c ssa.CallInstruction) *ssa.Function {
	return c.Common().StaticCallee()
}

// calleeIs tells whether call refers to function/method with given full name,
// e.g. "context.Context.Err" (interface method) or "strings.ToUpper".
func calleeName(c ssa.CallInstruction) string {
	cc := c.Common()
	if cc.IsInvoke() {
		n := types.Unalias(cc.Value.Type())
		return strings.ReplaceAll(types.TypeString(n, nil), modPath+"/", "") + "." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			f = o
		}
		return fnName(f)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}

// driver returns a function of the driver package.
func (c *Ctx) driver(name string) *ssa.Function {
	if c.Driver == nil || len(c.Pkgs[modPath+"/"+driverRel].Errors) != 0 {
		undecidedf("the driver package does not compile: the public interface has changed")
	}
	f := c.Driver.Func(name)
	if f == nil {
		undecidedf("no function %s in the driver package", name)
	}
	return f
}
