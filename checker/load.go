package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/booleworks/logicng-go"

// Program is the resolved program under analysis: every non-test package of
// the module with syntax, type information and SSA bodies.
type Program struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	ByPth map[string]*packages.Package
	SSA   *ssa.Program
	// Funcs are all source functions of the module (incl. closures and one
	// canonical body per generic function), sorted by name.
	Funcs   []*ssa.Function
	Files   int
	All     map[*ssa.Function]bool
	callee  map[*ssa.Function][]callSite
	caller  map[*ssa.Function][]callSite
	decls   map[types.Object]*ast.FuncDecl
	infos   map[*ast.FuncDecl]*packages.Package
	impls   map[string][]*ssa.Function
	modsets *Mods
	callIdx map[*ssa.Function][]ssa.CallInstruction
	holds   map[string]bool
	named   []types.Type
}

type callSite struct {
	fn   *ssa.Function // enclosing
	ins  ssa.CallInstruction
	to   *ssa.Function
	dyn  bool // interface dispatch
	clos bool // closure creation (MakeClosure), not a call
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// Load loads the module; overlay maps file paths to contents (fixtures).
func Load(dir string, overlay map[string][]byte, patterns ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax | packages.NeedModule,
		Dir:     dir,
		Env:     append(os.Environ(), "GOFLAGS=-mod=readonly", "CGO_ENABLED=0", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local"),
		Overlay: overlay,
	}
	if len(patterns) == 0 {
		patterns = []string{"./..."}
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the module does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Fset: prog.Fset, SSA: prog, ByPth: map[string]*packages.Package{}}
	for _, pk := range ps {
		if strings.HasPrefix(pk.PkgPath, modPath) {
			p.Pkgs = append(p.Pkgs, pk)
			p.ByPth[strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")] = pk
			p.Files += len(pk.Syntax)
		}
	}
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })
	all := ssautil.AllFunctions(prog)
	p.All = all
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f == nil || f.Blocks == nil || f.Synthetic != "" && f.Origin() == nil {
			return
		}
		if o := f.Origin(); o != nil {
			f = o
		}
		if f.Blocks == nil || seen[f] || !inModule(f) {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
	}
	for f := range all {
		add(f)
	}
	// generic functions and methods that are never instantiated, plus closures
	for _, pk := range p.Pkgs {
		sp := prog.Package(pk.Types)
		if sp == nil {
			continue
		}
		for _, file := range pk.Syntax {
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						add(prog.FuncValue(o))
					}
				}
			}
		}
	}
	for i := 0; i < len(p.Funcs); i++ {
		for _, a := range p.Funcs[i].AnonFuncs {
			add(a)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		if a, b := p.Funcs[i].String(), p.Funcs[j].String(); a != b {
			return a < b
		}
		return p.Funcs[i].Pos() < p.Funcs[j].Pos()
	})
	p.decls = map[types.Object]*ast.FuncDecl{}
	p.infos = map[*ast.FuncDecl]*packages.Package{}
	for _, pk := range p.Pkgs {
		for _, file := range pk.Syntax {
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					p.decls[pk.TypesInfo.Defs[fd.Name]] = fd
					p.infos[fd] = pk
				}
			}
		}
	}
	p.buildCalls()
	return p, nil
}

func inModule(f *ssa.Function) bool {
	pk := pkgOf(f)
	return pk != nil && strings.HasPrefix(pk.Path(), modPath)
}

func pkgOf(f *ssa.Function) *types.Package {
	if f == nil {
		return nil
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Parent() != nil {
		return pkgOf(f.Parent())
	}
	if o := f.Origin(); o != nil && o != f {
		return pkgOf(o)
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

// rel is the short, stable name of a function.
func rel(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return strings.ReplaceAll(f.String(), modPath+"/", "")
}

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath), "/")
}

func (p *Program) pos(t token.Pos) string {
	if !t.IsValid() {
		return "?"
	}
	q := p.Fset.Position(t)
	if r, err := filepath.Rel(p.Dir, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// canon maps an instantiated or wrapper function to the module function whose
// body the rules inspect.
func canon(f *ssa.Function) *ssa.Function {
	if f == nil {
		return nil
	}
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

// staticCallee resolves a call to its unique target: a direct call, a method
// call on a concrete type, a call of a closure held in a local, or a bound
// method value.
func staticCallee(c *ssa.CallCommon) *ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return unwrapThunk(canon(f))
	}
	return nil
}

func unwrapThunk(f *ssa.Function) *ssa.Function {
	if f == nil || f.Synthetic == "" || f.Origin() != nil {
		return f
	}
	if o, ok := f.Object().(*types.Func); ok && f.Prog != nil {
		if g := f.Prog.FuncValue(o); g != nil {
			return g
		}
	}
	return f
}

// implementations returns every module method that an interface call can
// dispatch to.
func (p *Program) implementations(c *ssa.CallCommon) []*ssa.Function {
	if !c.IsInvoke() {
		return nil
	}
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := c.Value.Type().String() + "." + c.Method.Name()
	if r, ok := p.impls[key]; ok {
		return r
	}
	var res []*ssa.Function
	named, isNamed := c.Value.Type().(*types.Named)
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) {
				continue
			}
			var T types.Type = nt
			match := false
			if nt.TypeParams().Len() == 0 {
				if types.Implements(nt, it) {
					match = true
				} else if types.Implements(types.NewPointer(nt), it) {
					T = types.NewPointer(nt)
					match = true
				}
			}
			if !match && isNamed && named.TypeArgs().Len() > 0 {
				// generic interface: match by method names
				ms := types.NewMethodSet(types.NewPointer(nt))
				match = true
				for i := 0; i < it.NumMethods(); i++ {
					if ms.Lookup(it.Method(i).Pkg(), it.Method(i).Name()) == nil {
						match = false
						break
					}
				}
				T = types.NewPointer(nt)
			}
			if !match {
				continue
			}
			sel := types.NewMethodSet(T).Lookup(c.Method.Pkg(), c.Method.Name())
			if sel == nil {
				continue
			}
			if m, ok := sel.Obj().(*types.Func); ok {
				if g := p.SSA.FuncValue(m.Origin()); g != nil {
					res = append(res, canon(g))
				}
			}
		}
	}
	p.impls[key] = res
	return res
}

// Targets are all module functions a call can reach directly.
func (p *Program) Targets(c *ssa.CallCommon) []*ssa.Function {
	if f := staticCallee(c); f != nil {
		return []*ssa.Function{f}
	}
	if c.IsInvoke() {
		return p.implementations(c)
	}
	return nil
}

func (p *Program) buildCalls() {
	p.impls = map[string][]*ssa.Function{}
	p.callee = map[*ssa.Function][]callSite{}
	p.caller = map[*ssa.Function][]callSite{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					dyn := ci.Common().IsInvoke()
					for _, t := range p.Targets(ci.Common()) {
						s := callSite{f, ci, t, dyn, false}
						p.callee[f] = append(p.callee[f], s)
						p.caller[t] = append(p.caller[t], s)
					}
				}
				// function values that escape: assume callable from here
				var ops [10]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					var g *ssa.Function
					switch v := (*o).(type) {
					case *ssa.Function:
						g = v
					case *ssa.MakeClosure:
						g, _ = v.Fn.(*ssa.Function)
					}
					if g == nil {
						continue
					}
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().Value == *o {
						continue
					}
					t := unwrapThunk(canon(g))
					s := callSite{f, nil, t, false, true}
					p.callee[f] = append(p.callee[f], s)
					p.caller[t] = append(p.caller[t], s)
				}
			}
		}
	}
}

// Reach is the set of module functions reachable from roots.
func (p *Program) Reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var q []*ssa.Function
	for _, f := range roots {
		if f != nil && !r[f] {
			r[f] = true
			q = append(q, f)
		}
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, s := range p.callee[f] {
			if s.to != nil && !r[s.to] {
				r[s.to] = true
				q = append(q, s.to)
			}
		}
	}
	return r
}

// Path finds a shortest call chain from one of the roots to the target.
func (p *Program) Path(root *ssa.Function, target func(*ssa.Function) bool) []string {
	type nd struct {
		f    *ssa.Function
		prev *nd
	}
	seen := map[*ssa.Function]bool{root: true}
	q := []*nd{{root, nil}}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		if target(n.f) {
			var out []string
			for x := n; x != nil; x = x.prev {
				out = append([]string{rel(x.f)}, out...)
			}
			return out
		}
		for _, s := range p.callee[n.f] {
			if s.to != nil && !seen[s.to] {
				seen[s.to] = true
				q = append(q, &nd{s.to, n})
			}
		}
	}
	return nil
}

// Func finds a package-level function ("pkg", "Name") or method ("pkg",
// "Type.Name").
func (p *Program) Func(pkg, name string) *ssa.Function {
	pk := p.ByPth[pkg]
	if pk == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, ok := pk.Types.Scope().Lookup(name[:i]).(*types.TypeName)
		if !ok {
			return nil
		}
		o, _, _ := types.LookupFieldOrMethod(types.NewPointer(tn.Type()), true, pk.Types, name[i+1:])
		if m, ok := o.(*types.Func); ok {
			return canon(p.SSA.FuncValue(m.Origin()))
		}
		return nil
	}
	if o, ok := pk.Types.Scope().Lookup(name).(*types.Func); ok {
		return p.SSA.FuncValue(o)
	}
	return nil
}

func (p *Program) Type(pkg, name string) types.Type {
	pk := p.ByPth[pkg]
	if pk == nil {
		return nil
	}
	if o := pk.Types.Scope().Lookup(name); o != nil {
		return o.Type()
	}
	return nil
}

// isNamed reports whether t (or what it points to) is the module type pkg.name.
func isNamed(t types.Type, pkg, name string) bool {
	if t == nil {
		return false
	}
	if pt, ok := types.Unalias(t).(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && (o.Pkg().Path() == modPath+"/"+pkg || o.Pkg().Path() == pkg)
}

func isFunc(f *ssa.Function, pkg, name string) bool {
	if f == nil {
		return false
	}
	f = canon(f)
	pk := pkgOf(f)
	if pk == nil || pk.Path() != modPath+"/"+pkg && pk.Path() != pkg {
		return false
	}
	if i := strings.Index(name, "."); i >= 0 {
		r := f.Signature.Recv()
		return r != nil && f.Name() == name[i+1:] && isNamed(r.Type(), pkg, name[:i])
	}
	return f.Signature.Recv() == nil && f.Name() == name
}

func exported(f *ssa.Function) bool {
	o := f.Object()
	if o == nil || !o.Exported() || f.Parent() != nil {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Exported()
		}
	}
	return true
}
