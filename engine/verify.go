package main

// Checking a function body against its contract; applying contracts at calls.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math"
	"os"
	"runtime"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- symbolic inputs -----------------------------------------------------------

type inputs struct {
	e       *Engine
	env     *Env
	c       *Contract
	pfx     string
	kids    map[string]*Obj
	objs    []*Obj
	where   map[*Obj]string
	withObj map[*Obj]bool // memory of the constructed operands
}

func (in *inputs) shapeLen(path string, owner types.Type, field string, dims []*Term) *Term {
	var x ast.Expr
	if in.c != nil {
		x = in.c.Shape[path]
	}
	if x == nil && owner != nil {
		if nm := namedOf(owner); nm != nil && nm.Obj().Pkg() != nil {
			x = in.env.sp.Shapes[nm.Obj().Pkg().Name()+"."+nm.Obj().Name()+"."+field]
		}
	}
	if x != nil {
		return in.env.intOf(x)
	}
	if len(dims) == 0 {
		return NamedRVar("len:"+in.pfx+path, BV64, 0, 1<<40)
	}
	return ZextT(App("len:"+in.pfx+path, BV32, dims...), 64)
}

// value builds a symbolic input value of type t; path is the contract-level path.
func (in *inputs) value(path string, t types.Type, dims []*Term, owner types.Type, field string) Value {
	e := in.e
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return StrV("<" + path + ">")
		}
		return symLeaf(in.pfx+path, t, len(dims), dims)
	case *types.Pointer:
		o := in.kid(path, u.Elem(), false, nil, len(dims))
		return &Ptr{Obj: o, Fam: dims}
	case *types.Slice:
		n := in.shapeLen(path, owner, field, dims)
		o := in.kid(path+"[]", u.Elem(), true, n, len(dims))
		return &Slice{Obj: o, Fam: dims, Off: Int(0), Len: n, Cap: n}
	case *types.Signature:
		return &FuncV{Sym: in.pfx + path}
	case *types.Struct:
		r := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			r.F = append(r.F, in.value(path+"."+f.Name(), f.Type(), dims, t, f.Name()))
		}
		return r
	case *types.Array:
		if u.Len() <= 16 {
			r := &ArrayV{}
			for i := int64(0); i < u.Len(); i++ {
				r.E = append(r.E, in.value(fmt.Sprintf("%s#%d", path, i), u.Elem(), dims, nil, ""))
			}
			return r
		}
	}
	_ = e
	return &UnkV{"input " + path + " of type " + t.String()}
}

func (in *inputs) kid(path string, t types.Type, arr bool, n *Term, nfam int) *Obj {
	kk := path
	if !arr {
		kk += "*"
	}
	if o := in.kids[kk]; o != nil {
		return o
	}
	e := in.e
	e.objSeq++
	o := &Obj{ID: e.objSeq, Name: in.pfx + path, Typ: t, IsArr: arr, Len: n, NFam: nfam, Input: true, Seq: e.objSeq, Kind: "input"}
	in.kids[kk] = o
	in.objs = append(in.objs, o)
	in.where[o] = path
	o.Lazy = func(ps string, leaf types.Type) *Content {
		// translate the region path to a contract path
		cp, owner, field := in.regionPath(o, path, ps)
		nd := nfam + strings.Count(ps, "[]")
		if _, _, ok := basicSort(leaf); ok {
			return symContent(in.pfx+cp, leaf, nfam)
		}
		if b, ok := leaf.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
			return symContent(in.pfx+cp, leaf, nfam)
		}
		_ = nd
		return &Content{Tag: "input", Explicit: true, Base: func(dims []*Term) Value {
			return in.value(cp, leaf, dims, owner, field)
		}}
	}
	return o
}

func (in *inputs) regionPath(o *Obj, base, ps string) (string, types.Type, string) {
	t := o.Typ
	i := 0
	cp := base
	var owner types.Type
	field := ""
	if o.IsArr && strings.HasPrefix(ps, "[]") {
		i = 2
	}
	for i < len(ps) {
		if strings.HasPrefix(ps[i:], "[]") {
			t = t.Underlying().(*types.Array).Elem()
			cp += "[]"
			owner, field = nil, ""
			i += 2
			continue
		}
		j := i + 1
		for j < len(ps) && ps[j] != '.' && ps[j] != '[' {
			j++
		}
		var f int
		fmt.Sscanf(ps[i+1:j], "%d", &f)
		fd := t.Underlying().(*types.Struct).Field(f)
		owner, field = t, fd.Name()
		cp += "." + fd.Name()
		t = fd.Type()
		i = j
	}
	return cp, owner, field
}

// ---- checking ------------------------------------------------------------------

type Verdict struct {
	Name   string
	Obls   []*Obligation
	Failed int
	Err    string
}

type Verifier struct {
	prop  string
	e     *Engine
	sp    *Specs
	base  *State
	byKey map[string]*Contract
	level string
	done  map[string]bool
	fuel  map[string]bool
	vac   int
	inst  int

	need       string // contract that must be verified before the current one can go on
	mark       int
	tkeep      map[string]bool
	cached     map[string][]*Obligation
	cachedInst map[string]int
	busy       map[string]bool
}

func newVerifier(e *Engine, sp *Specs, base *State, level string) *Verifier {
	v := &Verifier{e: e, sp: sp, base: base, byKey: map[string]*Contract{}, level: level, done: map[string]bool{},
		cached: map[string][]*Obligation{}, cachedInst: map[string]int{}, busy: map[string]bool{}, tkeep: map[string]bool{}}
	for _, c := range sp.Con {
		v.byKey[c.Key] = c
	}
	e.ver = v
	return v
}

func (e *Engine) contractFor(fn *ssa.Function) *Contract {
	if e.ver == nil {
		return nil
	}
	k := fnKey(fn)
	if k == "" {
		return nil
	}
	c := e.ver.byKey[k]
	if c == nil || !c.Apply || e.skipCon[k] {
		return nil
	}
	return c
}

func (v *Verifier) env(st, old *State) *Env {
	return &Env{e: v.e, sp: v.sp, st: st, old: old, vars: map[string]SV{}}
}

// guard runs f and turns engine aborts into an error text.
func (e *Engine) guard(f func()) (err string) {
	sv := e.save()
	stack := len(e.stack)
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case abort:
				err = "outside the verifier's reach: " + x.msg
			case specErr:
				err = "specification not applicable: " + x.msg
			case timeout:
				err = "outside the verifier's reach: time budget exhausted"
			case deadPath:
				err = "every path panics"
			default:
				if _, rt := r.(runtime.Error); rt && os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				err = fmt.Sprintf("verifier error: %v", r)
			}
			e.restore(sv)
			e.stack = e.stack[:stack]
		}
	}()
	f()
	return ""
}

type instance struct {
	alias string
	enum  map[string]int64
}

func (v *Verifier) instances(c *Contract) []instance {
	var out []instance
	al := append([]string{""}, c.Alias...)
	enums := []map[string]int64{{}}
	for _, en := range c.Enum {
		var nx []map[string]int64
		for _, m := range enums {
			env := v.env(v.base.Clone(), nil)
			env.let = c.Let
			for k, x := range m {
				env.vars[k] = SV{Int(x), tyInt}
			}
			lo, _ := env.intOf(en.X[0]).Int()
			hi, _ := env.intOf(en.X[1]).Int()
			for k := lo; k < hi; k++ {
				w := map[string]int64{en.Name: k}
				for a, b := range m {
					w[a] = b
				}
				nx = append(nx, w)
			}
		}
		enums = nx
	}
	for _, a := range al {
		for _, m := range enums {
			out = append(out, instance{a, m})
		}
	}
	return out
}

func (v *Verifier) verify(c *Contract) {
	if c.Assume != "" {
		v.verifyFFT(c)
		return
	}
	e := v.e
	if ob, ok := v.cached[c.Key]; ok {
		e.obls = append(e.obls, ob...)
		v.inst += v.cachedInst[c.Key]
		return
	}
	fn := e.findFunc(c.Key)
	if fn == nil || fn.Blocks == nil {
		e.label = c.Key
		if c.Aux {
			return
		}
		e.failed++
		e.obls = append(e.obls, &Obligation{Name: c.Key + " :: function exists", Status: "unknown", Detail: c.Key + " is under contract but not found"})
		return
	}
	var ins []instance
	if err := e.guard(func() { ins = v.instances(c) }); err != "" {
		e.label = c.Key
		e.fail("contract", err)
		return
	}
	c.poolGet, c.poolPut = map[string]bool{}, map[string]string{}
	defer func() {
		if len(c.poolPut) > 0 {
			e.label = c.Key + "@" + v.level
			v.poolClosed(c)
		}
	}()
	if v.mark == 0 {
		v.mark = nTerms
		for k := range e.templates {
			v.tkeep[k] = true
		}
	}
	for _, in := range ins {
		if len(v.busy) == 0 && liveTerms > 1000000 {
			pruneTerms(v.mark)
			for k := range e.templates {
				if !v.tkeep[k] {
					delete(e.templates, k)
				}
			}
			e.allObjs, e.owned, e.accLog, e.norms, e.pending = nil, nil, nil, nil, nil
		}
		v.inst++
		for {
			v.need = ""
			n := len(e.obls)
			v.verify1(c, fn, in)
			k := v.need
			if _, done := v.cached[k]; k == "" || done || v.busy[k] || v.byKey[k] == nil {
				break
			}
			// a contract whose verification supplies the states it covers is verified first
			e.obls = e.obls[:n]
			inst := v.inst
			v.inst = 0
			v.busy[c.Key] = true
			v.verify(v.byKey[k])
			delete(v.busy, c.Key)
			v.cached[k] = append([]*Obligation(nil), e.obls[n:]...)
			v.cachedInst[k] = v.inst
			v.inst = inst
			e.obls = e.obls[:n]
		}
	}
}

// fnBudget bounds the symbolic execution of one contract instance.
var fnBudget = 150 * time.Second

func (v *Verifier) verify1(c *Contract, fn *ssa.Function, in instance) {
	v.e.unroll = c.Unroll
	defer func() { v.e.unroll = 0 }()
	e := v.e
	name := c.Key
	if in.alias != "" {
		name += "{" + in.alias + "}"
	}
	var ks []string
	for k := range in.enum {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		name += fmt.Sprintf("{%s=%d}", k, in.enum[k])
	}
	e.label = name + "@" + v.level
	e.norms = nil
	e.pending = nil
	e.accLog = nil
	nObl := len(e.obls)
	e.deadline = time.Now().Add(fnBudget)
	if c.PoolX != nil {
		e.poolHook = func(st *State, p *Ptr, at ssa.Instruction) Value { return v.poolModel(c, in, st, p, at) }
		if c.PutX != nil {
			e.putHook = func(st *State, iv *IfaceV, at ssa.Instruction) { v.putModel(c, st, iv, at) }
		}
	}
	err := e.guard(func() {
		st := v.base.Clone()
		v.runOnce(c, fn, in, st, "")
	})
	e.tracking, e.poolHook, e.putHook = nil, nil, nil
	if err != "" {
		e.failed++
		e.obls = append(e.obls, &Obligation{Name: e.label + " :: body", Status: "unknown", Detail: err})
	} else if len(e.obls) == nObl {
		e.fail("vacuity", "no obligation was generated")
	}
}

// buildArgs constructs symbolic arguments.
func (v *Verifier) buildArgs(c *Contract, fn *ssa.Function, in instance, st *State, pfx string) ([]Value, *Env, *inputs) {
	e := v.e
	env := v.env(st, nil)
	env.let = c.Let
	env.reveal = c.Reveal
	for k, x := range in.enum {
		env.vars[k] = SV{Int(x), tyInt}
	}
	if len(c.Params) != len(fn.Params) {
		panic(specErr{fmt.Sprintf("%s has %d parameters, the contract names %d", c.Key, len(fn.Params), len(c.Params))})
	}
	ip := &inputs{e: e, env: env, c: c, pfx: pfx, kids: map[string]*Obj{}, where: map[*Obj]string{}, withObj: map[*Obj]bool{}}
	if pfx == "" {
		curRanges = map[string][2]int64{}
	}
	env.ranges(c.Req, pfx)
	args := make([]Value, len(fn.Params))
	al := map[string]string{}
	for _, p := range strings.Fields(in.alias) {
		k := strings.Index(p, "=")
		al[p[:k]] = p[k+1:]
	}
	idx := map[string]int{}
	for i, p := range c.Params {
		idx[p] = i
		t := fn.Params[i].Type()
		if w := c.With[p]; w != nil {
			// built by the real constructor, then aged below
			sv := e.save()
			e.quiet++
			r := env.ctor(w, st)
			e.quiet--
			e.restore(sv)
			args[i] = r
			for o := range e.reach(st, r) {
				ip.withObj[o] = true
			}
		} else {
			args[i] = ip.value(p, t, nil, nil, "")
		}
		env.vars[p] = SV{args[i], t}
	}
	for i, p := range c.Params {
		if a, ok := al[p]; ok {
			if j, ok := idx[a]; ok {
				args[i] = args[j]
			} else {
				args[i] = env.eval(parseExpr(a, c.Pos)).V
			}
			env.vars[p] = SV{args[i], fn.Params[i].Type()}
		}
	}
	for _, h := range c.Havoc {
		v.havoc(st, env.eval(h), "aged:"+pfx+exprString(h), nil)
	}
	for _, s := range c.Set {
		if id, ok := s.L.(*ast.Ident); ok {
			if i, ok := idx[id.Name]; ok {
				r := env.eval(s.R)
				if _, isInt := r.V.(*Term); isInt && r.T == nil {
					r.V = env.intOf(s.R)
				}
				args[i] = r.V
				env.vars[id.Name] = SV{args[i], fn.Params[i].Type()}
				continue
			}
		}
		v.setLoc(env, s)
	}
	for _, d := range c.Do {
		if d.L != nil {
			v.setLoc(env, SetClause{L: d.L, R: d.X})
			continue
		}
		env.inPlace = true
		y, ok := d.X.(*ast.CallExpr)
		if !ok {
			panic(specErr{"do needs a call"})
		}
		if identName(y.Fun) == "repeat" {
			k, ok := env.intOf(y.Args[0]).Int()
			if !ok {
				panic(specErr{"repeat count"})
			}
			for ; k > 0; k-- {
				env.eval(y.Args[1])
			}
		} else if identName(y.Fun) == "havoc" {
			// memory handed out before, with whatever its holder keeps in it
			v.havoc(st, env.eval(y.Args[0]), "held:"+pfx+exprString(y.Args[0]), nil)
		} else {
			r := env.eval(d.X)
			if d.Var != "" {
				env.vars[d.Var] = r
				if i, ok := idx[d.Var]; ok {
					args[i] = r.V
					env.vars[d.Var] = SV{r.V, fn.Params[i].Type()}
				}
			}
		}
		env.inPlace = false
	}
	return args, env, ip
}

// ctor evaluates a constructor call in the real state (not in a copy).
func (n *Env) ctor(x ast.Expr, st *State) Value {
	y, ok := x.(*ast.CallExpr)
	if !ok {
		return n.eval(x).V
	}
	sel, ok := y.Fun.(*ast.SelectorExpr)
	if !ok {
		return n.eval(x).V
	}
	id := identName(sel.X)
	p := n.e.pkgs[id]
	if p == nil || p.Func(sel.Sel.Name) == nil {
		return n.eval(x).V
	}
	var args []Value
	for _, a := range y.Args {
		args = append(args, n.eval(a).V)
	}
	r := n.e.callStatic(st, p.Func(sel.Sel.Name), args, nil, nil)
	return r
}

// havoc gives every numeric region reachable from a value an arbitrary content.
func (v *Verifier) havoc(st *State, sv SV, name string, skip map[*Obj]bool) {
	e := v.e
	objs := e.reach(st, sv.V)
	for o := range skip {
		delete(objs, o)
	}
	v.havocSet(st, objs, name)
}

func (v *Verifier) havocSet(st *State, objs map[*Obj]bool, name string) {
	e := v.e
	var os []*Obj
	for o := range objs {
		if o.Kind == "global" {
			continue
		}
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].ID < os[j].ID })
	for i, o := range os {
		nm := fmt.Sprintf("%s~%d", name, i)
		e.havocObj(st, o, nm)
	}
}

func (e *Engine) havocObj(st *State, o *Obj, nm string) {
	var walk func(t types.Type, ps string, nd int)
	walk = func(t types.Type, ps string, nd int) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), fmt.Sprintf("%s.%d", ps, i), nd)
			}
			return
		case *types.Array:
			walk(u.Elem(), ps+"[]", nd+1)
			return
		}
		// only contents of numeric arrays; scalar fields (dimensions, indices) stay
		if b, ok := t.Underlying().(*types.Basic); ok && nd > 0 && b.Info()&types.IsNumeric != 0 {
			k := RegKey{o, ps}
			nf := 0
			if o.Input {
				nf = o.NFam
			} else {
				nf = len(o.Home) - o.Open
			}
			st.heap.Set(k, symContent(nm+ps, t, nf))
		}
	}
	if o.IsArr {
		walk(o.Typ, "[]", 1)
	} else {
		walk(o.Typ, "", 0)
	}
}

func (v *Verifier) setLoc(env *Env, s SetClause) {
	p, t := env.addr(s.L)
	val := env.eval(s.R)
	x := val.V
	if val.T == nil {
		if tm, ok := x.(*Term); ok {
			if so, _, ok := basicSort(t); ok && so.K == KBV {
				x = TruncT(tm, so.W)
			}
		}
	}
	v.e.store(env.st, p, x, t, True, "set")
}

// addr: address of a location expression.
func (n *Env) addr(x ast.Expr) (Value, types.Type) {
	switch y := x.(type) {
	case *ast.ParenExpr:
		return n.addr(y.X)
	case *ast.SelectorExpr:
		if id, ok := y.X.(*ast.Ident); ok {
			if _, isVar := n.vars[id.Name]; !isVar {
				if g := n.e.global(id.Name, y.Sel.Name); g != nil {
					return &Ptr{Obj: n.e.globalObj(g)}, g.Type().(*types.Pointer).Elem()
				}
			}
		}
		b := n.eval(y.X)
		p, ok := b.T.Underlying().(*types.Pointer)
		if !ok {
			n.bad(x, "not addressable: %s", exprString(x))
		}
		st := p.Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == y.Sel.Name {
				return n.e.fieldAddr(n.st, b.V, i, "spec"), st.Field(i).Type()
			}
		}
	case *ast.IndexExpr:
		b := n.eval(y.X)
		i := n.intOf(y.Index)
		switch u := b.T.Underlying().(type) {
		case *types.Slice:
			sl, ok := b.V.(*Slice)
			if !ok {
				n.bad(x, "not one location: %s is %T %s", exprString(x), b.V, clip(fmt.Sprint(b.V), 600))
			}
			return sl.elemPtr(i), u.Elem()
		case *types.Pointer:
			pp, ok := b.V.(*Ptr)
			if !ok {
				n.bad(x, "not one location: %s", exprString(x))
			}
			return pp.index(i), u.Elem().Underlying().(*types.Array).Elem()
		}
	case *ast.StarExpr:
		b := n.eval(y.X)
		return b.V, b.T.Underlying().(*types.Pointer).Elem()
	}
	n.bad(x, "not a location: %s", exprString(x))
	return nil, nil
}

func (v *Verifier) runOnce(c *Contract, fn *ssa.Function, in instance, st *State, pfx string) {
	e := v.e
	args, env, ip := v.buildArgs(c, fn, in, st, pfx)
	for _, r := range c.Req {
		if isShape(r.X) && c.Shape[exprString(r.X.(*ast.BinaryExpr).X.(*ast.CallExpr).Args[0])] != nil {
			// established by construction unless aliasing or a constructor decided otherwise
			t := env.boolOf(r.X)
			if t != True {
				st.Assume(t)
			}
			continue
		}
		st.Assume(env.boolOf(r.X))
	}
	// the precondition must be satisfiable
	if len(st.pc) > 0 {
		if r, _ := checkSat(st.pc, false, 10000); r == "unsat" {
			e.fail("precondition satisfiable", "the assumed precondition is contradictory")
			return
		}
		v.vac++
	}
	pre := st.Clone()
	e.startOb = e.objSeq
	e.norms = nil
	e.preHeap = pre.heap
	defer func() { e.preHeap = nil }()
	e.logging++
	var end func(*State)
	if c.Apply && len(c.With) > 0 {
		end = v.beginTrack(c, fn, args, st)
	}
	stc, rets := e.callFn(st, fn, args, nil)
	if end != nil {
		end(stc)
	}
	e.joinAll(stc)
	e.logging--
	e.accLog = nil
	st = stc
	post := v.env(st, pre)
	post.let = c.Let
	post.reveal = c.Reveal
	for k, x := range env.vars {
		post.vars[k] = x
	}
	rs := fn.Signature.Results()
	for i, r := range c.Results {
		if i >= rs.Len() {
			panic(specErr{"contract names too many results"})
		}
		post.vars[r] = SV{rets[i], rs.At(i).Type()}
	}
	post.vars["@args"] = SV{&TupleV{args}, nil}
	for r, p := range c.Owned {
		own := e.reach(pre, env.vars[p].V)
		msg := ""
		for o := range e.reach(st, post.vars[r].V) {
			if !own[o] && !(o.Seq > e.startOb && !o.Input) {
				msg = "it reaches " + o.Name
			}
		}
		if msg != "" {
			e.fail(r+" lives in memory of "+p, msg)
		} else {
			e.pass(r+" lives in memory of "+p, "normal form")
		}
	}
	for i, cl := range c.Ens {
		nm := cl.Name
		if nm == "" {
			nm = fmt.Sprintf("ensures %d: %s", i+1, clip(cl.Text, 100))
		}
		v.checkClause(post, nm, cl.X)
	}
	v.frame(c, post, pre, st, ip)
}

func isShape(x ast.Expr) bool {
	b, ok := x.(*ast.BinaryExpr)
	if !ok || b.Op != token.EQL {
		return false
	}
	ce, ok := b.X.(*ast.CallExpr)
	return ok && identName(ce.Fun) == "len"
}

// checkClause splits conjunctions and foralls so that each obligation is small.
func (v *Verifier) checkClause(n *Env, name string, x ast.Expr) {
	e := v.e
	switch y := x.(type) {
	case *ast.ParenExpr:
		v.checkClause(n, name, y.X)
		return
	case *ast.BinaryExpr:
		if y.Op == token.LAND {
			v.checkClause(n, name, y.X)
			v.checkClause(n, name, y.Y)
			return
		}
	}
	var t *Term
	if err := e.guard(func() { t = n.boolOf(x) }); err != "" {
		e.failed++
		status := "failed"
		if strings.HasPrefix(err, "outside") || strings.HasPrefix(err, "verifier error") ||
			strings.HasPrefix(err, "specification not applicable: no field") {
			status = "unknown" // a renamed field, not a refuted clause
		}
		e.obls = append(e.obls, &Obligation{Name: e.label + " :: " + name, Status: status, Detail: err})
		return
	}
	if os.Getenv("GOVC_SPEC") != "" {
		fmt.Fprintln(os.Stderr, "SPEC", name, clip(t.String(), 2000))
	}
	e.oblige(n.st, name, t)
}

// frame: nothing that existed before the call changed, except what the contract lists.
func (v *Verifier) frame(c *Contract, post *Env, pre, st *State, ip *inputs) {
	e := v.e
	mv := *post
	mv.st = pre
	allowed := mv.modSet(c)
	var keys []RegKey
	for _, k := range st.heap.Diff(pre.heap) {
		if st.heap.Get(k) == nil {
			continue
		}
		if k.Obj.Seq > e.startOb && !k.Obj.Input || strings.HasPrefix(k.Path, "#") {
			continue
		}
		if st.heap.Get(k) == pre.heap.Get(k) {
			continue
		}
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].Obj.ID != keys[j].Obj.ID {
			return keys[i].Obj.ID < keys[j].Obj.ID
		}
		return keys[i].Path < keys[j].Path
	})
	for _, k := range keys {
		if allowed[k.Obj] && !(c.Apply && structural(k)) {
			continue
		}
		if allowed[k.Obj] && scalarKey(k) && ip.withObj[k.Obj] {
			continue // reported through the contract's start and end states
		}
		if k.Obj.Kind == "global" && !exportedGlobal(k.Obj.Name) {
			continue
		}
		nd := strings.Count(k.Path, "[]")
		if k.Obj.Input {
			nd += k.Obj.NFam
		} else {
			nd += len(k.Obj.Home) - k.Obj.Open
		}
		var dims []*Term
		for i := 0; i < nd; i++ {
			hi := int64(1) << 40
			if i == nd-1 && k.Obj.Len != nil && strings.HasPrefix(k.Path, "[]") {
				if _, h, ok := k.Obj.Len.srange(); ok {
					hi = h - 1
				}
			}
			dims = append(dims, NewRVar("w", BV64, 0, hi))
		}
		a, b := pre.content(k).Read(dims), st.heap.Get(k).Read(dims)
		if sameVal(a, b) {
			e.pass("unchanged: "+k.Obj.Name+pathNames(k), "normal form")
			continue
		}
		x, ok1 := a.(*Term)
		y, ok2 := b.(*Term)
		if ok1 && ok2 {
			e.oblige(st, "unchanged: "+k.Obj.Name+pathNames(k), Eq(x, y))
			continue
		}
		e.fail("unchanged: "+k.Obj.Name+pathNames(k), "reference changed by the call")
	}
	e.pass("frame", "normal form")
}

// structural: not the content of a numeric array.  A contract used at call sites
// has no way to report changes of such fields.
func structural(k RegKey) bool {
	if b, ok := k.Obj.leafType(k.Path).Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
		return !k.Obj.IsArr && !strings.Contains(k.Path, "[]")
	}
	return true
}

func scalarKey(k RegKey) bool {
	b, ok := k.Obj.leafType(k.Path).Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0 && !k.Obj.IsArr && !strings.Contains(k.Path, "[]")
}

func pathNames(k RegKey) string { return k.Path }

func exportedGlobal(name string) bool {
	i := strings.LastIndex(name, ".")
	return i >= 0 && i+1 < len(name) && name[i+1] >= 'A' && name[i+1] <= 'Z'
}

// fresh(x): all memory of x was allocated by the call and is reachable from no
// operand and no package variable.  distinct(x): elements of the slice x do not
// share memory.
func (n *Env) fresh(kind string, y *ast.CallExpr) *Term {
	e := n.e
	v := n.eval(y.Args[0])
	switch kind {
	case "fresh":
		rs := e.reach(n.st, v.V)
		if len(rs) == 0 {
			n.bad(y, "fresh() of a nil value")
		}
		others := map[*Obj]string{}
		if a, ok := n.vars["@args"]; ok {
			for o := range e.reach(n.st, a.V) {
				others[o] = "an operand"
			}
		}
		for g, o := range e.globals {
			for x := range e.reach(n.st, &Ptr{Obj: o}) {
				others[x] = "package variable " + g.Name()
			}
		}
		for o := range rs {
			if o.Seq <= e.startOb || o.Input {
				n.bad(y, "%s is not freshly allocated: it is %s", exprString(y.Args[0]), o.Name)
			}
			if w, ok := others[o]; ok {
				n.bad(y, "%s shares memory with %s (%s)", exprString(y.Args[0]), w, o.Name)
			}
			if w, ok := n.st.dead[o]; ok {
				n.bad(y, "%s lives in memory %s", exprString(y.Args[0]), w)
			}
		}
		return True
	case "distinct":
		s, ok := v.V.(*Slice)
		if !ok {
			n.bad(y, "distinct() of %T", v.V)
		}
		i, j := n.rangeVar("i", s.Len), n.rangeVar("j", s.Len)
		et := v.T.Underlying().(*types.Slice).Elem()
		a, b := n.load(s.elemPtr(i), et), n.load(s.elemPtr(j), et)
		eq := n.shares(a, b, et)
		return Or(Eq(i, j), Not(Slt(i, s.Len)), Not(Slt(j, s.Len)), Not(eq))
	}
	n.bad(y, "unknown predicate")
	return nil
}

// ---- applying a contract at a call ------------------------------------------------

func (e *Engine) applyContract(st *State, c *Contract, fn *ssa.Function, args []Value, at ssa.Instruction) Value {
	v := e.ver
	e.used[c.Key] = true
	env := v.env(st, nil)
	env.let = c.Let
	for i, p := range c.Params {
		env.vars[p] = SV{args[i], fn.Params[i].Type()}
	}
	where := c.Key
	if at != nil {
		where += " called at " + e.pos(at)
	}
	for _, r := range c.Req {
		t := env.boolOf(r.X)
		e.oblige(st, "precondition of "+where+": "+clip(r.Text, 80), t)
	}
	pre := st.Clone()
	// effects: memory the callee may modify becomes arbitrary, then the
	// postcondition determines it
	preEnv := *env
	preEnv.st = pre
	e.quiet++
	mod := preEnv.modSet(c)
	e.quiet--
	v.separate(st, &preEnv, c, fn, args, mod, where)
	e.drawSeq++
	v.havocSet(st, mod, fmt.Sprintf("post:%s:%d", c.Key, e.drawSeq))
	post := v.env(st, pre)
	post.let = c.Let
	for k, x := range env.vars {
		post.vars[k] = x
	}
	rs := fn.Signature.Results()
	var rets []Value
	for i := 0; i < rs.Len(); i++ {
		name := fmt.Sprintf("$%d", i)
		if i < len(c.Results) {
			name = c.Results[i]
		}
		r := v.result(post, c, name, rs.At(i).Type())
		rets = append(rets, r)
		post.vars[name] = SV{r, rs.At(i).Type()}
		if p, ok := c.Owned[name]; ok {
			if q, ok := env.vars[p].V.(*Ptr); ok {
				if e.owned == nil {
					e.owned = map[*Obj][]Value{}
				}
				e.owned[q.Obj] = append(e.owned[q.Obj], r)
			}
		}
	}
	for _, cl := range c.Ens {
		v.assumeClause(post, cl.X, nil, nil, True)
	}
	return tuple(rets)
}

// result allocates a fresh result according to the length clauses on it, or takes
// an explicit equation "r == expr".
func (v *Verifier) result(n *Env, c *Contract, name string, t types.Type) Value {
	e := v.e
	for _, cl := range c.Ens {
		var eq ast.Expr
		eachConj(cl.X, func(x ast.Expr) {
			if b, ok := x.(*ast.BinaryExpr); ok && b.Op == token.EQL && identName(b.X) == name {
				eq = b.Y
			}
		})
		if eq != nil {
			r := n.eval(eq)
			if r.T == nil {
				if tm, ok := r.V.(*Term); ok {
					if s, _, ok := basicSort(t); ok && s.K == KBV {
						return TruncT(tm, s.W)
					}
				}
			}
			return r.V
		}
	}
	lens := map[string]ast.Expr{}
	for _, cl := range c.Ens {
		eachElem(cl.X, func(x ast.Expr) {
			if b, ok := x.(*ast.BinaryExpr); ok && b.Op == token.EQL {
				if ce, ok := b.X.(*ast.CallExpr); ok && identName(ce.Fun) == "len" {
					lens[anyIndex(exprString(ce.Args[0]))] = b.Y
				}
			}
		})
	}
	var build func(path string, t types.Type) Value
	build = func(path string, t types.Type) Value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			p := e.alloc(n.st, u.Elem(), "result of "+c.Key)
			e.store(n.st, p, build(path, u.Elem()), u.Elem(), True, "contract")
			return p
		case *types.Slice:
			l := lens[path]
			if l == nil {
				panic(specErr{"no length for " + path + " in the contract of " + c.Key})
			}
			k := n.intOf(l)
			r := e.makeSlice(n.st, u.Elem(), k, k, "result of "+c.Key)
			if _, ok := u.Elem().Underlying().(*types.Pointer); ok {
				xv := e.idxVar(k)
				depth, obj0, homes := len(e.homes), e.objSeq, e.homes
				e.homes = append(append([]*Term(nil), homes...), xv)
				el := build(path+"[]", u.Elem())
				e.homes = homes
				for _, o := range e.allObjs {
					if o.Seq > obj0 {
						for ps := range o.paths {
							if cc := n.st.heap.Get(RegKey{o, ps}); cc != nil {
								n.st.heap.Set(RegKey{o, ps}, famContent(cc, xv))
							}
						}
					}
				}
				e.closeObjs(obj0, depth)
				e.mapStore(n.st, r, u.Elem(), xv, func(t *Term) Value { return substVal(el, map[*Term]*Term{xv: t}) })
			}
			return r
		case *types.Struct:
			r := &StructV{}
			for i := 0; i < u.NumFields(); i++ {
				r.F = append(r.F, build(path+"."+u.Field(i).Name(), u.Field(i).Type()))
			}
			return r
		case *types.Basic:
			return zeroVal(t)
		}
		panic(specErr{"cannot construct result of type " + t.String()})
	}
	return build(name, t)
}

// eachElem also visits the bodies of quantified conjuncts.
func eachElem(x ast.Expr, f func(ast.Expr)) {
	eachConj(x, func(y ast.Expr) {
		if ce, ok := y.(*ast.CallExpr); ok && identName(ce.Fun) == "forall" && len(ce.Args) == 3 {
			eachElem(ce.Args[2], f)
			return
		}
		f(y)
	})
}

var indexRe = regexp.MustCompile(`\[[^\]]*\]`)

func anyIndex(s string) string { return indexRe.ReplaceAllString(s, "[]") }

func eachConj(x ast.Expr, f func(ast.Expr)) {
	switch y := x.(type) {
	case *ast.ParenExpr:
		eachConj(y.X, f)
		return
	case *ast.BinaryExpr:
		if y.Op == token.LAND {
			eachConj(y.X, f)
			eachConj(y.Y, f)
			return
		}
	}
	f(x)
}

// assumeClause makes a postcondition true by construction.
func (v *Verifier) assumeClause(n *Env, x ast.Expr, vars, cnt []*Term, guard *Term) {
	e := v.e
	switch y := x.(type) {
	case *ast.ParenExpr:
		v.assumeClause(n, y.X, vars, cnt, guard)
		return
	case *ast.CallExpr:
		switch identName(y.Fun) {
		case "forall":
			name := identName(y.Args[0])
			k := n.intOf(y.Args[1])
			if c, ok := k.Int(); ok && c <= 4 {
				for i := int64(0); i < c; i++ {
					v.assumeClause(n.with(name, SV{Int(i), tyInt}), y.Args[2], vars, cnt, guard)
				}
				return
			}
			iv := n.rangeVar(name, k)
			v.assumeClause(n.with(name, SV{iv, tyInt}), y.Args[2], append(append([]*Term(nil), vars...), iv), append(append([]*Term(nil), cnt...), k), guard)
			return
		case "fresh", "distinct", "private":
			return
		}
	case *ast.BinaryExpr:
		if y.Op == token.LAND {
			v.assumeClause(n, y.X, vars, cnt, guard)
			v.assumeClause(n, y.Y, vars, cnt, guard)
			return
		}
		if y.Op == token.EQL {
			if ce, ok := y.X.(*ast.CallExpr); ok {
				switch identName(ce.Fun) {
				case "len":
					return // by construction (or a checked invariant)
				case "arr":
					r := n.eval(y.Y)
					rt, ok := isArrTerm(r.V)
					if !ok {
						if c, ok2 := r.V.(*Term); ok2 && c.IsConst() && c.C == 0 {
							rt = BVc(0, ArrF)
						} else {
							panic(specErr{"arr() equated to a scalar"})
						}
					}
					l := n.eval(ce.Args[0])
					s, isSl := l.V.(*Slice)
					if !isSl {
						n.bad(x, "arr() of %T", l.V)
					}
					et := l.T.Underlying().(*types.Slice).Elem()
					xv := e.idxVar(s.Len)
					if len(vars) > 0 {
						k, d := e.region(n.st, s.elemPtr(xv))
						if e.logging > 0 && e.quiet == 0 {
							e.logAcc(n.st, k, s.elemPtr(xv), []*Term{xv}, true)
							a := e.accLog[len(e.accLog)-1]
							a.Vars, a.N = append(append(a.Vars, vars...), xv), append(append(a.N, cnt...), s.Len)
						}
						c := n.st.content(k)
						n.st.heap.Set(k, cut(k, &Content{Prev: c, W: &MapWrite{Vars: append(append([]*Term(nil), vars...), xv), N: append(append([]*Term(nil), cnt...), s.Len), Guard: guard, Dims: d, Val: selTerm(rt, xv)}}))
						return
					}
					e.mapStore(n.st, s, et, xv, func(t *Term) Value { return selTerm(rt, t) })
					return
				}
			}
			if _, isId := y.X.(*ast.Ident); isId {
				return // result equation, already used
			}
			// location == expression
			r := n.eval(y.Y)
			p, t := n.addr(y.X)
			val := r.V
			if r.T == nil {
				if tm, ok := val.(*Term); ok {
					if s, _, ok := basicSort(t); ok && s.K == KBV {
						val = TruncT(tm, s.W)
					}
				}
			}
			pp, ok := p.(*Ptr)
			if !ok {
				panic(specErr{"contract writes through an undetermined pointer"})
			}
			if len(vars) == 0 {
				e.store(n.st, pp, val, t, guard, "contract")
				return
			}
			k, d := e.region(n.st, pp)
			if e.logging > 0 && e.quiet == 0 {
				_, idx := pathString(pp.Path)
				e.logAcc(n.st, k, pp, idx, true)
				a := e.accLog[len(e.accLog)-1]
				a.Vars, a.N = append(a.Vars, vars...), append(a.N, cnt...)
			}
			c := n.st.content(k)
			n.st.heap.Set(k, cut(k, &Content{Prev: c, W: &MapWrite{Vars: vars, N: cnt, Guard: guard, Dims: d, Val: val}}))
			return
		}
	}
	t := n.boolOf(x)
	if len(vars) == 0 {
		n.st.Assume(Or(Not(guard), t))
	}
}

// ranges reads bounds of the form "v >= const" off the preconditions.
func (n *Env) ranges(req []Clause, pfx string) {
	for _, r := range req {
		eachConj(r.X, func(x ast.Expr) {
			b, ok := x.(*ast.BinaryExpr)
			if !ok {
				return
			}
			l, rr, op := b.X, b.Y, b.Op
			name := exprString(l)
			if _, isLit := l.(*ast.BasicLit); isLit || strings.Contains(name, "?") || strings.Contains(name, "[") {
				l, rr = rr, l
				name = exprString(l)
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
			}
			if strings.Contains(name, "?") || strings.Contains(name, "[") {
				return
			}
			var c int64
			ok = false
			n.e.guard(func() {
				sv := n.eval(rr)
				if t, k := sv.V.(*Term); k && t.S.K == KBV {
					c, ok = t.Int()
				}
			})
			if !ok || c > big/4 || c < -big/4 {
				return
			}
			k, have := curRanges[pfx+name]
			if !have {
				k = [2]int64{math.MinInt64, math.MaxInt64}
			}
			switch op {
			case token.LSS:
				k[1] = min(k[1], c-1)
			case token.LEQ:
				k[1] = min(k[1], c)
			case token.GTR:
				k[0] = max(k[0], c+1)
			case token.GEQ:
				k[0] = max(k[0], c)
			default:
				return
			}
			curRanges[pfx+name] = k
		})
	}
}
