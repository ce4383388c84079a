package main

// Loading /repo's current source into SSA and running its package initialisers
// inside the verifier.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func loadProgram(dir string) (*ssa.Program, map[string]*ssa.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off"),
	}
	pkgs, err := packages.Load(cfg, "./bitutils", "./cloudkey", "./evaluator", "./gates", "./key", "./lut", "./params", "./poly", "./proxyreenc", "./tlwe", "./trgsw", "./trlwe", "./utils")
	if err != nil {
		return nil, nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, nil, fmt.Errorf("%s", e)
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	out := map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), modPath) {
			out[strings.TrimPrefix(strings.TrimPrefix(p.Pkg.Path(), modPath), "/")] = p
		}
	}
	return prog, out, nil
}

func newEngine(prog *ssa.Program, pkgs map[string]*ssa.Package) *Engine {
	e := &Engine{prog: prog, pkgs: pkgs, globals: map[*ssa.Global]*Obj{}, con: map[string]*Contract{}, skipCon: map[string]bool{},
		used: map[string]bool{}, inlined: map[string]bool{}, info: map[*ssa.Function]*fnInfo{}, memo: map[string]interface{}{},
		templates: map[string]*template{}, maxStep: 1 << 40}
	return e
}

// global finds a package-level variable.
func (e *Engine) global(pkg, name string) *ssa.Global {
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	g, _ := p.Members[name].(*ssa.Global)
	return g
}

// initState runs every package initialiser (with the declared default level).
func (e *Engine) initState() *State {
	st := NewState()
	g := e.global("params", "CurrentSecurityLevel")
	if g == nil {
		unsupported("params.CurrentSecurityLevel not found")
	}
	e.curLevelKey = RegKey{e.globalObj(g), ""}
	var names []string
	for n := range e.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	e.label = "package init"
	for _, n := range names {
		fn := e.pkgs[n].Func("init")
		if fn == nil {
			continue
		}
		e.call(st, fn, nil, nil)
	}
	e.initSeq = e.objSeq
	return st
}

// constant looks up a package constant.
func (e *Engine) constTerm(pkg, name string) (*Term, types.Type, bool) {
	p := e.pkgs[pkg]
	if p == nil {
		return nil, nil, false
	}
	c, ok := p.Members[name].(*ssa.NamedConst)
	if !ok {
		return nil, nil, false
	}
	v := e.constVal(c.Value)
	t, ok := v.(*Term)
	return t, c.Type(), ok
}

func (e *Engine) setLevel(st *State, name string) bool {
	t, _, ok := e.constTerm("params", name)
	if !ok {
		return false
	}
	st.heap.Set(e.curLevelKey, &Content{FnVal: t, Tag: "scalar"})
	e.levelT = t
	return true
}

// findFunc resolves "pkg.F" or "pkg.(*T).M" / "pkg.T.M".
func (e *Engine) findFunc(key string) *ssa.Function {
	i := strings.Index(key, ".")
	p := e.pkgs[key[:i]]
	if p == nil {
		return nil
	}
	rest := key[i+1:]
	if j := strings.LastIndex(rest, "."); j >= 0 {
		recv, m := rest[:j], rest[j+1:]
		ptr := strings.HasPrefix(recv, "(*")
		recv = strings.Trim(recv, "(*)")
		tn, ok := p.Members[recv].(*ssa.Type)
		if !ok {
			return nil
		}
		t := tn.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		sel := e.prog.MethodSets.MethodSet(t).Lookup(p.Pkg, m)
		if sel == nil {
			return nil
		}
		f := e.prog.MethodValue(sel)
		if f != nil && f.Synthetic != "" {
			// promoted or value-receiver wrapper
			if o, ok := sel.Obj().(*types.Func); ok {
				if g := e.prog.FuncValue(o); g != nil {
					return g
				}
			}
		}
		return f
	}
	return p.Func(rest)
}

func fnKey(fn *ssa.Function) string {
	if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		return ""
	}
	pk := fn.Pkg.Pkg.Name()
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			return pk + ".(*" + namedOf(p.Elem()).Obj().Name() + ")." + fn.Name()
		}
		if n, ok := t.(*types.Named); ok {
			return pk + "." + n.Obj().Name() + "." + fn.Name()
		}
		return ""
	}
	if fn.Parent() != nil {
		return ""
	}
	return pk + "." + fn.Name()
}
