package main

// Models of the standard library functions the repository uses.  Every model
// here is an assumption listed in the evidence.

import (
	"fmt"
	"go/ast"
	"go/types"
	"math"
	"math/cmplx"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var extUsed = map[string]bool{}

var mathFns = map[string]func(float64) float64{
	"math.Exp2": math.Exp2, "math.Round": math.Round, "math.Floor": math.Floor, "math.Ceil": math.Ceil,
	"math.Trunc": math.Trunc, "math.Abs": math.Abs, "math.Sqrt": math.Sqrt, "math.Sin": math.Sin, "math.Cos": math.Cos,
	"math.Log2": math.Log2, "math.Exp": math.Exp, "math.Log": math.Log, "math.RoundToEven": math.RoundToEven,
}

var mathFns2 = map[string]func(a, b float64) float64{"math.Mod": math.Mod, "math.Pow": math.Pow, "math.Max": math.Max, "math.Min": math.Min}

func init() {
	for n, f := range mathFns {
		f := f
		n := n
		appSimp[n] = func(s Sort, as []*Term) *Term {
			if v, ok := as[0].Float(); ok {
				return FloatC(f(v))
			}
			if constIte(as[0]) {
				return liftIte(as[0], func(x *Term) *Term { return SApp(n, F64, x) })
			}
			return nil
		}
	}
	for n, f := range mathFns2 {
		f := f
		n := n
		appSimp[n] = func(s Sort, as []*Term) *Term {
			a, o1 := as[0].Float()
			b, o2 := as[1].Float()
			if o1 && o2 {
				return FloatC(f(a, b))
			}
			if constIte(as[0]) && (o2 || constIte(as[1])) {
				return liftIte(as[0], func(x *Term) *Term { return SApp(n, F64, x, as[1]) })
			}
			if constIte(as[1]) && o1 {
				return liftIte(as[1], func(x *Term) *Term { return SApp(n, F64, as[0], x) })
			}
			return nil
		}
	}
}

func (e *Engine) draw(kind string, s Sort) *Term {
	e.drawSeq++
	as := append([]*Term{Int(int64(e.drawSeq))}, e.homes...)
	return App("draw:"+kind, s, as...)
}

func (e *Engine) extInvoke(st *State, iv *IfaceV, cc *ssa.CallCommon, args []Value) (Value, bool) {
	return nil, false
}

func (e *Engine) extCall(st *State, fn *ssa.Function, args []Value, at ssa.Instruction) (Value, bool) {
	if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		if fn.Name() == "init" && fn.Pkg.Func("init") == fn {
			return nil, false
		}
		return e.memoCall(st, fn, args)
	}
	if fn.Pkg == nil && fn.Origin() != nil {
		if fn.Origin().Pkg != nil && strings.HasPrefix(fn.Origin().Pkg.Pkg.Path(), modPath) {
			return nil, false
		}
	}
	if fn.Pkg == nil && fn.Synthetic != "" && fn.Blocks != nil {
		return nil, false // wrappers, bound methods
	}
	if fn.Parent() != nil && fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		return nil, false
	}
	name := fn.String()
	extUsed[name] = true
	if fn.Name() == "init" {
		return &TupleV{}, true
	}
	if f, ok := mathFns[name]; ok {
		_ = f
		return SApp(name, F64, asTerm(args[0])), true
	}
	switch name {
	case "math.Mod", "math.Pow", "math.Max", "math.Min":
		return SApp(name, F64, asTerm(args[0]), asTerm(args[1])), true
	case "math.Modf":
		x := asTerm(args[0])
		if a, ok := x.Float(); ok {
			i, f := math.Modf(a)
			return &TupleV{[]Value{FloatC(i), FloatC(f)}}, true
		}
		return &TupleV{[]Value{App("math.Trunc", F64, x), App("math.Mod", F64, x, FloatC(1))}}, true
	case "math.Sincos":
		x := asTerm(args[0])
		if a, ok := x.Float(); ok {
			s, c := math.Sincos(a)
			return &TupleV{[]Value{FloatC(s), FloatC(c)}}, true
		}
		return &TupleV{[]Value{App("math.Sin", F64, x), App("math.Cos", F64, x)}}, true
	case "math.Ldexp":
		x, y := asTerm(args[0]), asTerm(args[1])
		a, o1 := x.Float()
		b, o2 := y.Int()
		if o1 && o2 {
			return FloatC(math.Ldexp(a, int(b))), true
		}
		return App(name, F64, x, y), true
	case "math.Inf", "math.NaN", "math.Float64bits", "math.Float64frombits", "math.IsNaN", "math.IsInf":
		unsupported("%s", name)
	case "math/cmplx.Exp":
		c := args[0].(Cplx)
		a, o1 := c.Re.Float()
		b, o2 := c.Im.Float()
		if o1 && o2 {
			r := cmplx.Exp(complex(a, b))
			return Cplx{FloatC(real(r)), FloatC(imag(r))}, true
		}
		return Cplx{App("cexp.re", F64, c.Re, c.Im), App("cexp.im", F64, c.Re, c.Im)}, true
	case "math/cmplx.Conj":
		c := args[0].(Cplx)
		return Cplx{c.Re, FNegT(c.Im)}, true
	case "math/cmplx.Rect":
		a, o1 := asTerm(args[0]).Float()
		b, o2 := asTerm(args[1]).Float()
		if o1 && o2 {
			r := cmplx.Rect(a, b)
			return Cplx{FloatC(real(r)), FloatC(imag(r))}, true
		}
		unsupported("cmplx.Rect")
	case "math/bits.Len", "math/bits.Len64", "math/bits.Len32", "math/bits.TrailingZeros", "math/bits.TrailingZeros64", "math/bits.TrailingZeros32", "math/bits.OnesCount", "math/bits.OnesCount64":
		x := asTerm(args[0])
		if !x.IsConst() {
			unsupported("%s of a symbolic value", name)
		}
		n := int64(0)
		switch {
		case strings.Contains(name, "Len"):
			for v := x.C; v > 0; v >>= 1 {
				n++
			}
		case strings.Contains(name, "Trailing"):
			if x.C == 0 {
				n = int64(x.S.W)
			} else {
				for v := x.C; v&1 == 0; v >>= 1 {
					n++
				}
			}
		default:
			for v := x.C; v > 0; v >>= 1 {
				n += int64(v & 1)
			}
		}
		return Int(n), true
	case "math/rand.New":
		o := e.newObj("rng", types.Typ[types.Int], false, nil)
		return &Ptr{Obj: o, Fam: o.Home}, true
	case "math/rand.NewSource":
		return &IfaceV{types.Typ[types.Int64], args[0]}, true
	case "math/rand.Seed":
		return &TupleV{}, true
	case "math/rand.Int63", "(*math/rand.Rand).Int63":
		return LshrT(e.draw("u64", BV64), Int(1)), true
	case "math/rand.Uint64", "(*math/rand.Rand).Uint64":
		return e.draw("u64", BV64), true
	case "math/rand.Int31", "(*math/rand.Rand).Int31":
		return LshrT(e.draw("u32", BV32), BVc(1, BV32)), true
	case "math/rand.Int", "(*math/rand.Rand).Int":
		return LshrT(e.draw("u64", BV64), Int(1)), true
	case "math/rand.Uint32", "(*math/rand.Rand).Uint32":
		return e.draw("u32", BV32), true
	case "math/rand.Intn", "(*math/rand.Rand).Intn", "math/rand.Int63n", "(*math/rand.Rand).Int63n":
		n := to64(args[len(args)-1], types.Typ[types.Int])
		e.oblige(st, "rand.Intn argument positive "+e.pos(at), Slt(Int(0), n))
		return DivRem(OURem, ZextT(e.draw("u32", BV32), 64), n), true
	case "math/rand.Int31n", "(*math/rand.Rand).Int31n":
		n := asTerm(args[len(args)-1])
		return DivRem(OURem, e.draw("u32", BV32), n), true
	case "math/rand.NormFloat64", "(*math/rand.Rand).NormFloat64":
		d := e.draw("norm", F64)
		if e.quiet == 0 {
			e.norms = append(e.norms, d)
		}
		return d, true
	case "math/rand.Float64", "(*math/rand.Rand).Float64":
		return e.draw("f01", F64), true
	case "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.NumGoroutine":
		return NamedRVar("ncpu:"+name, BV64, 1, 1024), true
	case "(*sync.WaitGroup).Add":
		return e.wgAdd(st, args[0].(*Ptr), to64(args[1], types.Typ[types.Int]), at), true
	case "(*sync.WaitGroup).Done":
		return e.wgDone(st, args[0].(*Ptr), at), true
	case "(*sync.WaitGroup).Wait":
		return e.wgWait(st, args[0].(*Ptr), at), true
	case "(*sync.WaitGroup).Go":
		e.wgAdd(st, args[0].(*Ptr), Int(1), at)
		fv := args[1].(*FuncV)
		e.spawn(st, at, func() {
			e.callStatic(st, fv.Fn, nil, fv.Binds, at)
			e.wgDone(st, args[0].(*Ptr), at)
		})
		return &TupleV{}, true
	case "(*sync.Pool).Get":
		return e.poolGet(st, args[0].(*Ptr), at), true
	case "(*sync.Pool).Put":
		return e.poolPut(st, args[0].(*Ptr), args[1], at), true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		if e.task != nil || len(e.pending) > 0 {
			unsupported("mutex between goroutines")
		}
		return &TupleV{}, true
	case "(*sync.Once).Do":
		p := args[0].(*Ptr)
		k := RegKey{p.Obj, "#once" + pathOnly(p)}
		c := st.content(k).Read(nil).(*Term)
		switch e.decide(st, Eq(c, Int(0))) {
		case 1:
			st.heap.Set(k, &Content{FnVal: Int(1), Tag: "scalar"})
			fv := args[1].(*FuncV)
			e.callStatic(st, fv.Fn, nil, fv.Binds, at)
		case 0:
		default:
			unsupported("sync.Once undecided")
		}
		return &TupleV{}, true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "strconv.Itoa", "(*errors.errorString).Error":
		return StrV("<text>"), true
	case "fmt.Errorf", "errors.New":
		return &IfaceV{types.Typ[types.String], StrV("<error>")}, true
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		return &TupleV{[]Value{Int(0), &IfaceV{}}}, true
	}
	unsupported("call of %s", name)
	return nil, false
}

func pathOnly(p *Ptr) string {
	s, _ := pathString(p.Path)
	return s
}

// ---- goroutines --------------------------------------------------------------

func (e *Engine) goStmt(fr *Frame, st *State, x *ssa.Go) {
	cc := &x.Call
	var fnv Value
	if cc.IsInvoke() {
		fnv = e.val(fr, cc.Value)
	} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fnv = e.val(fr, cc.Value)
	}
	args := make([]Value, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = e.val(fr, a)
	}
	e.spawn(st, x, func() { e.invoke(fr, st, cc, fnv, args, x) })
}

func (e *Engine) spawn(st *State, at ssa.Instruction, body func()) {
	if e.task != nil {
		unsupported("nested goroutine at %s", e.pos(at))
	}
	e.accPos++
	tk := &Task{ID: len(e.pending) + 1, Pos: e.accPos, Where: e.pos(at), Pc: append([]*Term(nil), st.pc...)}
	if e.logging == 0 {
		e.logging++
	}
	e.task = tk
	body()
	e.task = nil
	if e.quiet == 0 {
		e.pending = append(append([]*Task(nil), e.pending...), tk)
	}
}

func (e *Engine) wgKey(p *Ptr) RegKey { return RegKey{p.Obj, "#wg" + pathOnly(p)} }

func (e *Engine) wgAdd(st *State, p *Ptr, n *Term, at ssa.Instruction) Value {
	if e.task != nil {
		e.fail("WaitGroup.Add happens before the goroutine starts "+e.pos(at), "Add is called inside the goroutine, so Wait may return first")
	}
	k := e.wgKey(p)
	if len(e.famDims(p)) != 0 {
		unsupported("WaitGroup family")
	}
	c := st.content(k).Read(nil).(*Term)
	st.heap.Set(k, &Content{FnVal: Add(c, n), Tag: "scalar"})
	return &TupleV{}
}
func (e *Engine) wgDone(st *State, p *Ptr, at ssa.Instruction) Value {
	k := e.wgKey(p)
	c := st.content(k).Read(nil).(*Term)
	st.heap.Set(k, &Content{FnVal: AddC(c, -1), Tag: "scalar"})
	if e.task != nil {
		e.task.Done = true
		e.task.Wg = p.Obj
	}
	return &TupleV{}
}

func (e *Engine) wgWait(st *State, p *Ptr, at ssa.Instruction) Value {
	if e.task != nil {
		unsupported("Wait inside a goroutine")
	}
	k := e.wgKey(p)
	c := st.content(k).Read(nil).(*Term)
	e.oblige(st, "WaitGroup counter reaches zero exactly when all goroutines are done "+e.pos(at), Eq(c, Int(0)))
	if e.quiet > 0 {
		return &TupleV{}
	}
	var left []*Task
	for _, t := range e.pending {
		if !t.Done || t.Wg != p.Obj {
			left = append(left, t)
		}
	}
	if len(left) == 0 {
		e.checkRaces(st, at)
		e.pending, e.accLog, e.logging = nil, nil, 0
	}
	return &TupleV{}
}

// joinAll is called when the function under verification returns.
func (e *Engine) joinAll(st *State) {
	if len(e.pending) > 0 {
		e.fail("every goroutine is joined before the result is returned", fmt.Sprintf("%d goroutine families never joined (first at %s)", len(e.pending), e.pending[0].Where))
		e.checkRaces(st, nil)
	}
	e.pending, e.accLog, e.logging = nil, nil, 0
}

func dimsKey(a *Access) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%p|%s|%v|%v|%p|", a.Key.Obj, a.Key.Path, a.Write, a.After, a.Task)
	for _, d := range a.Dims {
		fmt.Fprintf(&sb, "%d,", d.ID)
	}
	for _, d := range a.Vars {
		fmt.Fprintf(&sb, "v%d,", d.ID)
	}
	return sb.String()
}

// checkRaces: no two concurrent accesses meet unless both read.
func (e *Engine) checkRaces(st *State, at ssa.Instruction) {
	groups := map[RegKey][]*Access{}
	var order []RegKey
	seen := map[string]bool{}
	for _, a := range e.accLog {
		k := dimsKey(a)
		if a.Task == nil {
			k += fmt.Sprint(a.Pos < firstPos(e.pending))
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		if groups[a.Key] == nil {
			order = append(order, a.Key)
		}
		groups[a.Key] = append(groups[a.Key], a)
	}
	bad, n := 0, 0
	for _, k := range order {
		as := groups[k]
		w := false
		tk := false
		for _, a := range as {
			w = w || a.Write
			tk = tk || a.Task != nil
		}
		if !w || !tk {
			continue
		}
		for i, a := range as {
			for _, b := range as[i:] {
				if !a.Write && !b.Write {
					continue
				}
				if a.Task == nil && b.Task == nil {
					continue
				}
				x, y := a, b
				if x.Task == nil {
					x, y = b, a
				}
				n++
				if bad < 5 && e.conflict(x, y) {
					bad++
					e.fail("no data race", fmt.Sprintf("two goroutines may access %s%s without synchronisation, one of them writing", k.Obj.Name, k.Path))
				}
			}
		}
	}
	if bad == 0 {
		e.pass(fmt.Sprintf("no data race (%d access pairs)", n), "smt")
	}
}

func firstPos(ts []*Task) int {
	p := 1 << 60
	for _, t := range ts {
		if t.Pos < p {
			p = t.Pos
		}
	}
	return p
}

// conflict: x is performed by a goroutine; can y run concurrently on the same cell?
func (e *Engine) conflict(x, y *Access) bool {
	ren := map[*Term]*Term{}
	var conds []*Term
	for i, v := range x.Vars {
		conds = append(conds, Not(Slt(v, Int(0))), Slt(v, x.N[i]))
	}
	for _, v := range y.Vars {
		nv := NewRVar("y", BV64, v.Lo, v.Hi)
		ren[v] = nv
	}
	for i, v := range y.Vars {
		conds = append(conds, Not(Slt(ren[v], Int(0))), Slt(ren[v], Subst(y.N[i], ren)))
	}
	if y.Task == x.Task {
		if len(x.Task.Vars) == 0 {
			return false // one goroutine instance
		}
		same := True
		for _, v := range x.Task.Vars {
			if r, ok := ren[v]; ok {
				same = And(same, Eq(v, r))
			}
		}
		conds = append(conds, Not(same))
	} else if y.Task == nil {
		// main thread: before the spawn or after it?
		shared := (*Term)(nil)
		for _, v := range x.Task.Vars {
			if ren[v] != nil {
				shared = v
			}
		}
		if shared != nil {
			if y.Pos < x.Task.Pos {
				conds = append(conds, Slt(shared, ren[shared]))
			} else {
				conds = append(conds, Not(Slt(ren[shared], shared)))
			}
		} else if y.Pos < x.Task.Pos {
			return false
		}
	}
	for i := range x.Dims {
		if i < len(y.Dims) {
			conds = append(conds, Eq(x.Dims[i], Subst(y.Dims[i], ren)))
		}
	}
	if And(conds...) == False {
		return false
	}
	for _, p := range x.Pc {
		conds = append(conds, p)
	}
	for _, p := range y.Pc {
		conds = append(conds, Subst(p, ren))
	}
	if And(conds...) == False {
		return false
	}
	r, _ := checkSat(conds, false, 5000)
	return r != "unsat"
}

// ---- sync.Pool -----------------------------------------------------------------

func (e *Engine) poolGet(st *State, p *Ptr, at ssa.Instruction) Value {
	if e.poolHook != nil {
		return e.poolHook(st, p, at)
	}
	unsupported("sync.Pool without a model")
	return nil
}

// poolModel: Get returns either a new item or one that was put back earlier, of
// which only the declared structure is known.
func (v *Verifier) poolModel(c *Contract, in instance, st *State, p *Ptr, at ssa.Instruction) Value {
	e := v.e
	ft := p.typ().Underlying().(*types.Struct)
	var r Value
	for i := 0; i < ft.NumFields(); i++ {
		if ft.Field(i).Name() == "New" {
			f := e.load(st, p.field(i), ft.Field(i).Type(), "pool")
			fv, ok := f.(*FuncV)
			if !ok {
				unsupported("sync.Pool without New")
			}
			r = tuple(e.call(st, fv.Fn, nil, fv.Binds))
		}
	}
	iv, ok := r.(*IfaceV)
	if !ok {
		unsupported("sync.Pool.New")
	}
	env := v.env(st, nil)
	env.let = c.Let
	for k, x := range in.enum {
		env.vars[k] = SV{Int(x), tyInt}
	}
	if in.enum["d"] == 0 {
		v.poolScalars(c, st, iv, true)
		return iv
	}
	e.quiet++
	it := env.ctor(c.PoolX, st)
	e.drawSeq++
	v.havoc(st, SV{it, iv.T}, fmt.Sprintf("pooled:%d", e.drawSeq), nil)
	env.vars[c.Pooled] = SV{it, iv.T}
	env.inPlace = true
	for _, x := range c.PoolDo {
		y := x.(*ast.CallExpr)
		k := int64(1)
		if identName(y.Fun) == "repeat" {
			k, _ = env.intOf(y.Args[0]).Int()
			x = y.Args[1]
		}
		for ; k > 0; k-- {
			env.eval(x)
		}
	}
	e.quiet--
	v.poolScalars(c, st, &IfaceV{iv.T, it}, true)
	return &IfaceV{iv.T, it}
}

// poolScalars notes the scalar fields of an item taken from or put into the pool.
func (v *Verifier) poolScalars(c *Contract, st *State, iv *IfaceV, get bool) {
	for _, r := range v.e.scalars(st, iv.V, iv.T, "") {
		k := r.at + " = " + fmt.Sprint(r.v)
		if get {
			c.poolGet[k] = true
		} else {
			c.poolPut[k] = r.at
		}
	}
}

// poolClosed: every scalar state an item is put back with is one of those the
// items taken out were assumed to have, for the fields that are read at all.
func (v *Verifier) poolClosed(c *Contract) {
	e := v.e
	read := map[string]bool{}
	for _, d := range v.sp.Con {
		if !e.used[d.Key] {
			continue
		}
		for _, se := range d.States {
			for at := range se.start {
				if i := strings.IndexAny(at, ".["); i >= 0 {
					read[at[i:]] = true
				}
			}
		}
	}
	for k, at := range c.poolPut {
		if !c.poolGet[k] && read[at] {
			e.fail("pooled items keep the declared state", "put back with "+k)
			return
		}
	}
	e.pass("pooled items keep the declared state", "structure")
}

// putModel: what goes back has the declared structure.
func (v *Verifier) putModel(c *Contract, st *State, iv *IfaceV, at ssa.Instruction) {
	env := v.env(st, nil)
	env.let = c.Let
	env.vars[c.Pooled] = SV{iv.V, iv.T}
	env.like(iv.V, iv.T, c.PutX, "item put back at "+v.e.pos(at)+" is well formed", c.Pooled)
	v.poolScalars(c, st, iv, false)
}

func (e *Engine) poolPut(st *State, p *Ptr, v Value, at ssa.Instruction) Value {
	iv, ok := v.(*IfaceV)
	if !ok {
		unsupported("Pool.Put of %T", v)
	}
	if e.putHook != nil {
		e.putHook(st, iv, at)
	}
	for o := range e.reach(st, iv.V) {
		if o.Kind == "global" || o.Kind == "const" {
			continue
		}
		nd := map[*Obj]string{}
		for k, s := range st.dead {
			nd[k] = s
		}
		nd[o] = "given back by Pool.Put at " + e.pos(at)
		st.dead = nd
	}
	return &TupleV{}
}

// reach: objects reachable from a value.
func (e *Engine) reach(st *State, v Value) map[*Obj]bool {
	out := map[*Obj]bool{}
	var visit func(v Value)
	var obj func(o *Obj, fam []*Term)
	obj = func(o *Obj, fam []*Term) {
		if o == nil || out[o] {
			return
		}
		out[o] = true
		for _, w := range e.owned[o] {
			visit(w)
		}
		keys := map[string]bool{}
		for p := range o.paths {
			if st.heap.Get(RegKey{o, p}) != nil {
				keys[p] = true
			}
		}
		for k := range o.defs {
			keys[k] = true
		}
		for ps := range keys {
			if strings.HasPrefix(ps, "#") {
				continue
			}
			t := o.leafType(ps)
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Interface, *types.Signature:
			default:
				continue
			}
			c := st.content(RegKey{o, ps})
			// every stored reference in the chain
			for x := c; x != nil; x = x.Prev {
				switch {
				case x.Dense != nil:
					for _, w := range x.Dense {
						visit(w)
					}
				case x.W != nil:
					visit(x.W.Val)
				case x.FnVal != nil:
					visit(x.FnVal)
				case x.Base != nil:
					nd := len(o.Home) - o.Open
					if o.Input {
						nd = o.NFam
					}
					d := make([]*Term, 0)
					for i := 0; i < nd+strings.Count(ps, "[]"); i++ {
						d = append(d, NewVar("r", BV64))
					}
					func() {
						defer func() {
							if r := recover(); r != nil {
								if _, ok := r.(abort); !ok {
									panic(r)
								}
							}
						}()
						visit(x.Base(d))
					}()
				}
			}
		}
	}
	visit = func(v Value) {
		switch x := v.(type) {
		case *Ptr:
			obj(x.Obj, x.Fam)
		case *Slice:
			obj(x.Obj, x.Fam)
		case *StructV:
			for _, f := range x.F {
				visit(f)
			}
		case *ArrayV:
			for _, f := range x.E {
				visit(f)
			}
		case *TupleV:
			for _, f := range x.E {
				visit(f)
			}
		case *IfaceV:
			if x.T != nil {
				visit(x.V)
			}
		case *FuncV:
			for _, f := range x.Binds {
				visit(f)
			}
		case *Union:
			for _, a := range x.Alts {
				visit(a.V)
			}
		case *mapData:
			for i := range x.k {
				visit(x.v[i])
			}
		case objSet:
			for o := range x {
				out[o] = true
			}
		}
	}
	visit(v)
	return out
}

// ---- memoised constructors ---------------------------------------------------

// memoised: constructors executed once per argument (on the real code, every
// obligation checked) and then instantiated as a fresh object graph.
var memoFns = map[string]bool{
	modPath + "/poly.NewEvaluator":      true,
	modPath + "/evaluator.NewEvaluator": true,
}

type template struct {
	val  Value
	heap *Heap
	seq  int
}

func (e *Engine) memoCall(st *State, fn *ssa.Function, args []Value) (Value, bool) {
	if !memoFns[fn.String()] || e.inTemplate {
		return nil, false
	}
	key := fn.String() + "|" + e.levelKey(st)
	for _, a := range args {
		t, ok := a.(*Term)
		if !ok || !t.IsConst() {
			return nil, false
		}
		key += "|" + t.String()
	}
	tp := e.templates[key]
	if tp == nil {
		sv := e.save()
		e.homes, e.quiet, e.task, e.logging = nil, 0, nil, 0
		e.noSum++
		e.inTemplate = true
		lbl := e.label
		e.label = fn.String()
		s := NewState()
		st.heap.Each(func(k RegKey, v *Content) {
			if k.Obj.Kind == "global" || k.Obj.Seq <= e.initSeq {
				s.heap.Set(k, v)
			}
		})
		seq := e.objSeq
		r := e.call(s, fn, args, nil)
		tp = &template{val: tuple(r), heap: s.heap, seq: seq}
		e.templates[key] = tp
		e.noSum--
		e.inTemplate = false
		e.label = lbl
		nobl, fl := len(e.obls), e.failed
		e.restore(sv)
		_ = nobl
		_ = fl
	}
	return e.instantiate(st, tp), true
}

func (e *Engine) levelKey(st *State) string {
	g := e.curLevelKey
	if g == (RegKey{}) {
		return ""
	}
	return fmt.Sprint(st.content(g).Read(nil))
}

func (e *Engine) instantiate(st *State, tp *template) Value {
	m := map[*Obj]*Obj{}
	var cp func(v Value) Value
	mapObj := func(o *Obj) *Obj {
		if o == nil || o.Seq <= tp.seq {
			return o
		}
		n := m[o]
		if n == nil {
			n = e.newObj(o.Name, o.Typ, o.IsArr, o.Len)
			n.Kind = o.Kind
			n.Tmpl = o
			m[o] = n
		}
		return n
	}
	cp = func(v Value) Value {
		switch x := v.(type) {
		case *Ptr:
			n := mapObj(x.Obj)
			if n == x.Obj {
				return x
			}
			return &Ptr{n, n.Home, x.Path, x.Win}
		case *Slice:
			n := mapObj(x.Obj)
			if n == x.Obj {
				return x
			}
			return &Slice{n, n.Home, x.Path, x.Off, x.Len, x.Cap}
		case *StructV:
			r := &StructV{}
			for _, f := range x.F {
				r.F = append(r.F, cp(f))
			}
			return r
		case *ArrayV:
			r := &ArrayV{}
			for _, f := range x.E {
				r.E = append(r.E, cp(f))
			}
			return r
		case *TupleV:
			r := &TupleV{}
			for _, f := range x.E {
				r.E = append(r.E, cp(f))
			}
			return r
		case *IfaceV:
			if x.T == nil {
				return x
			}
			return &IfaceV{x.T, cp(x.V)}
		}
		return v
	}
	res := cp(tp.val)
	byObj := map[*Obj][]RegKey{}
	tp.heap.Each(func(k RegKey, _ *Content) { byObj[k.Obj] = append(byObj[k.Obj], k) })
	done := map[*Obj]bool{}
	for ch := true; ch; {
		ch = false
		for o, n := range m {
			if done[o] {
				continue
			}
			done[o] = true
			ch = true
			for _, k := range byObj[o] {
				st.heap.Set(RegKey{n, k.Path}, copyContent(tp.heap.Get(k), cp))
			}
		}
	}
	return res
}

func copyContent(c *Content, cp func(Value) Value) *Content {
	if c == nil {
		return nil
	}
	// scalar tables are shared
	n := &Content{Base: c.Base, Tag: c.Tag, FnVars: c.FnVars}
	if c.FnVal != nil {
		n.FnVal = cp(c.FnVal)
	}
	if c.Dense != nil {
		refs := false
		for _, v := range c.Dense {
			switch v.(type) {
			case *Term, Cplx, StrV:
			default:
				refs = true
			}
			break
		}
		if !refs {
			n.Dense = c.Dense
			n.owner = -1
		} else {
			n.Dense = map[dkey]Value{}
			for k, v := range c.Dense {
				n.Dense[k] = cp(v)
			}
		}
	}
	if c.W != nil {
		w := *c.W
		w.Val = cp(w.Val)
		n.W = &w
	}
	n.Prev = copyContent(c.Prev, cp)
	return n
}
