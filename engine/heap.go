package main

// Memory model.  Objects have identity; every scalar/pointer leaf reachable by a
// static field path inside an object is a "region" indexed by the dynamic array
// indices on that path.  Region contents are persistent update chains over a
// base, so the content after a loop is a function of the index (closed form).

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Step struct {
	F   int
	Idx *Term // non-nil: array index step
}

type Obj struct {
	ID    int
	Name  string
	Typ   types.Type // type of the whole object; for make([]T): T with IsArr
	IsArr bool
	Len   *Term   // IsArr: number of elements
	Home  []*Term // iteration variables of the summarised loops it was allocated in
	NFam  int     // input families: number of leading family dimensions
	Input bool
	Lazy  func(path string, leaf types.Type) *Content
	Seq   int // allocation sequence number
	Open  int // leading family dimensions that are still the current iteration
	defs  map[string]*Content
	Tmpl  *Obj
	Kind  string
	paths map[string]bool // regions ever written
}

type Ptr struct {
	Obj  *Obj
	Fam  []*Term
	Path []Step
	Win  int64 // >0: pointer to an overlay array of Win elements starting at the last index step
}

type Slice struct {
	Obj           *Obj
	Fam           []*Term
	Path          []Step
	Off, Len, Cap *Term
}

type StructV struct{ F []Value }
type ArrayV struct{ E []Value }
type TupleV struct{ E []Value }
type Cplx struct{ Re, Im *Term }
type StrV string
type FuncV struct {
	Fn    *ssa.Function
	Binds []Value
	Sym   string // uninterpreted function symbol (for callback parameters)
	Bound *ssa.Builtin
}
type IfaceV struct {
	T types.Type
	V Value
}
type UnkV struct{ Why string } // unknown non-scalar value; using it aborts
type Union struct{ Alts []Alt }
type Alt struct {
	C *Term
	V Value
}
type MapV struct{ id int }

var NilPtr = &Ptr{}
var NilSlice = &Slice{Off: Int(0), Len: Int(0), Cap: Int(0)}

type abort struct{ msg string }
type timeout struct{}

func unsupported(f string, a ...interface{}) { panic(abort{fmt.Sprintf(f, a...)}) }

type RegKey struct {
	Obj  *Obj
	Path string
}

type dkey struct {
	n       int
	a, b, c int64
}

type MapWrite struct {
	Vars  []*Term
	N     []*Term // Vars[i] in [0,N[i])
	Guard *Term
	Dims  []*Term
	Val   Value
}

type Content struct {
	Prev     *Content
	Base     func(dims []*Term) Value
	Tag      string
	Dense    map[dkey]Value
	W        *MapWrite
	FnVars   []*Term
	FnVal    Value
	Explicit bool
	owner    int
	depth    int
}

type State struct {
	id   int
	heap *Heap
	pc   []*Term
	dead map[*Obj]string // objects handed back to a pool: any access is a violation
}

var stateSeq int

func NewState() *State {
	stateSeq++
	return &State{id: stateSeq, heap: newHeap(), dead: map[*Obj]string{}}
}
func (s *State) Clone() *State {
	stateSeq++
	n := &State{id: stateSeq, heap: s.heap.Clone(), dead: s.dead}
	n.pc = append([]*Term(nil), s.pc...)
	if len(s.dead) > 0 {
		n.dead = map[*Obj]string{}
		for k, v := range s.dead {
			n.dead[k] = v
		}
	}
	// the original may no longer mutate shared dense layers in place either
	stateSeq++
	s.id = stateSeq
	return n
}
func (s *State) Assume(c *Term) {
	if c == True {
		return
	}
	if c.Op == OBAnd {
		for _, a := range c.Args {
			s.Assume(a)
		}
		return
	}
	for _, x := range s.pc {
		if x == c {
			return
		}
	}
	s.pc = append(s.pc, c)
}

// ---- values -------------------------------------------------------------

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func samePath(a, b []Step) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Ptr:
		y, ok := b.(*Ptr)
		return ok && x.Obj == y.Obj && x.Win == y.Win && sameTerms(x.Fam, y.Fam) && samePath(x.Path, y.Path)
	case *Slice:
		y, ok := b.(*Slice)
		return ok && x.Obj == y.Obj && sameTerms(x.Fam, y.Fam) && samePath(x.Path, y.Path) && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !sameVal(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !sameVal(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case Cplx:
		y, ok := b.(Cplx)
		return ok && x == y
	case StrV:
		y, ok := b.(StrV)
		return ok && x == y
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.Fn != y.Fn || x.Sym != y.Sym || len(x.Binds) != len(y.Binds) {
			return false
		}
		for i := range x.Binds {
			if !sameVal(x.Binds[i], y.Binds[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && (x.T == y.T || x.T != nil && y.T != nil && types.Identical(x.T, y.T)) && (x.T == nil || sameVal(x.V, y.V))
	case *Union:
		y, ok := b.(*Union)
		if !ok || len(x.Alts) != len(y.Alts) {
			return false
		}
		for i := range x.Alts {
			if x.Alts[i].C != y.Alts[i].C || !sameVal(x.Alts[i].V, y.Alts[i].V) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return a == b
}

// iteVal merges two values under a condition.
func iteVal(c *Term, a, b Value) Value {
	if c == True || sameVal(a, b) {
		return a
	}
	if c == False {
		return b
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return Ite(c, x, y)
		}
	case Cplx:
		if y, ok := b.(Cplx); ok {
			return Cplx{Ite(c, x.Re, y.Re), Ite(c, x.Im, y.Im)}
		}
	case *StructV:
		if y, ok := b.(*StructV); ok {
			r := &StructV{make([]Value, len(x.F))}
			for i := range x.F {
				r.F[i] = iteVal(c, x.F[i], y.F[i])
			}
			return r
		}
	case *ArrayV:
		if y, ok := b.(*ArrayV); ok {
			r := &ArrayV{make([]Value, len(x.E))}
			for i := range x.E {
				r.E[i] = iteVal(c, x.E[i], y.E[i])
			}
			return r
		}
	case *TupleV:
		if y, ok := b.(*TupleV); ok {
			r := &TupleV{make([]Value, len(x.E))}
			for i := range x.E {
				r.E[i] = iteVal(c, x.E[i], y.E[i])
			}
			return r
		}
	case *Slice:
		if y, ok := b.(*Slice); ok && x.Obj == y.Obj && sameTerms(x.Fam, y.Fam) && samePath(x.Path, y.Path) {
			return &Slice{x.Obj, x.Fam, x.Path, Ite(c, x.Off, y.Off), Ite(c, x.Len, y.Len), Ite(c, x.Cap, y.Cap)}
		}
	case *Ptr:
		if y, ok := b.(*Ptr); ok && x.Obj != nil && x.Obj == y.Obj && x.Win == y.Win && sameTerms(x.Fam, y.Fam) && len(x.Path) == len(y.Path) {
			np := make([]Step, len(x.Path))
			good := true
			for i := range x.Path {
				p, q := x.Path[i], y.Path[i]
				if p == q {
					np[i] = p
				} else if p.Idx != nil && q.Idx != nil {
					np[i] = Step{Idx: Ite(c, p.Idx, q.Idx)}
				} else {
					good = false
				}
			}
			if good {
				return &Ptr{x.Obj, x.Fam, np, x.Win}
			}
		}
	case *UnkV:
		return x
	}
	if u, ok := b.(*UnkV); ok {
		return u
	}
	var alts []Alt
	put := func(g *Term, v Value) {
		if g == False {
			return
		}
		for i := range alts {
			if sameVal(alts[i].V, v) {
				alts[i].C = Or(alts[i].C, g)
				return
			}
		}
		alts = append(alts, Alt{g, v})
	}
	each := func(g *Term, v Value) {
		if u, ok := v.(*Union); ok {
			for _, al := range u.Alts {
				put(And(g, al.C), al.V)
			}
			return
		}
		put(g, v)
	}
	each(c, a)
	each(Not(c), b)
	if len(alts) == 1 {
		return alts[0].V
	}
	if len(alts) > 64 {
		unsupported("pointer value with too many alternatives")
	}
	return &Union{alts}
}

func substTerms(ts []*Term, m map[*Term]*Term) []*Term {
	var out []*Term
	for i, t := range ts {
		n := Subst(t, m)
		if n != t && out == nil {
			out = append([]*Term(nil), ts...)
		}
		if out != nil {
			out[i] = n
		}
	}
	if out == nil {
		return ts
	}
	return out
}
func substPath(p []Step, m map[*Term]*Term) []Step {
	var out []Step
	for i, s := range p {
		if s.Idx == nil {
			continue
		}
		n := Subst(s.Idx, m)
		if n != s.Idx {
			if out == nil {
				out = append([]Step(nil), p...)
			}
			out[i].Idx = n
		}
	}
	if out == nil {
		return p
	}
	return out
}

func substVal(v Value, m map[*Term]*Term) Value {
	if len(m) == 0 {
		return v
	}
	switch x := v.(type) {
	case *Term:
		return Subst(x, m)
	case *Ptr:
		if x.Obj == nil {
			return x
		}
		return &Ptr{x.Obj, substTerms(x.Fam, m), substPath(x.Path, m), x.Win}
	case *Slice:
		if x.Obj == nil {
			return x
		}
		return &Slice{x.Obj, substTerms(x.Fam, m), substPath(x.Path, m), Subst(x.Off, m), Subst(x.Len, m), Subst(x.Cap, m)}
	case *StructV:
		r := &StructV{make([]Value, len(x.F))}
		for i := range x.F {
			r.F[i] = substVal(x.F[i], m)
		}
		return r
	case *ArrayV:
		r := &ArrayV{make([]Value, len(x.E))}
		for i := range x.E {
			r.E[i] = substVal(x.E[i], m)
		}
		return r
	case *TupleV:
		r := &TupleV{make([]Value, len(x.E))}
		for i := range x.E {
			r.E[i] = substVal(x.E[i], m)
		}
		return r
	case Cplx:
		return Cplx{Subst(x.Re, m), Subst(x.Im, m)}
	case *FuncV:
		if len(x.Binds) == 0 {
			return x
		}
		r := &FuncV{Fn: x.Fn, Sym: x.Sym, Binds: make([]Value, len(x.Binds))}
		for i := range x.Binds {
			r.Binds[i] = substVal(x.Binds[i], m)
		}
		return r
	case *IfaceV:
		if x.T == nil {
			return x
		}
		return &IfaceV{x.T, substVal(x.V, m)}
	case *Union:
		var r Value
		for i := len(x.Alts) - 1; i >= 0; i-- {
			w := substVal(x.Alts[i].V, m)
			if r == nil {
				r = w
			} else {
				r = iteVal(Subst(x.Alts[i].C, m), w, r)
			}
		}
		return r
	}
	return v
}

// eachTerm visits every term inside a value.
func eachTerm(v Value, f func(*Term)) {
	switch x := v.(type) {
	case *Term:
		f(x)
	case *Ptr:
		for _, t := range x.Fam {
			f(t)
		}
		for _, s := range x.Path {
			if s.Idx != nil {
				f(s.Idx)
			}
		}
	case *Slice:
		for _, t := range x.Fam {
			f(t)
		}
		for _, s := range x.Path {
			if s.Idx != nil {
				f(s.Idx)
			}
		}
		f(x.Off)
		f(x.Len)
		f(x.Cap)
	case *StructV:
		for _, e := range x.F {
			eachTerm(e, f)
		}
	case *ArrayV:
		for _, e := range x.E {
			eachTerm(e, f)
		}
	case *TupleV:
		for _, e := range x.E {
			eachTerm(e, f)
		}
	case Cplx:
		f(x.Re)
		f(x.Im)
	case *FuncV:
		for _, e := range x.Binds {
			eachTerm(e, f)
		}
	case *IfaceV:
		if x.T != nil {
			eachTerm(x.V, f)
		}
	case *Union:
		for _, a := range x.Alts {
			f(a.C)
			eachTerm(a.V, f)
		}
	}
}

// ---- types --------------------------------------------------------------

func isLeaf(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

func basicSort(t types.Type) (Sort, bool, bool) { // sort, signed, ok
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return Sort{}, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return Bool, false, true
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return BV64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return BV64, false, true
	case types.Int32:
		return BV32, true, true
	case types.Uint32:
		return BV32, false, true
	case types.Int16:
		return BV16, true, true
	case types.Uint16:
		return BV16, false, true
	case types.Int8:
		return BV8, true, true
	case types.Uint8:
		return BV8, false, true
	case types.Float64, types.UntypedFloat, types.Float32:
		return F64, true, true
	}
	return Sort{}, false, false
}

func zeroVal(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return StrV("")
		}
		if u.Info()&types.IsComplex != 0 {
			return Cplx{FloatC(0), FloatC(0)}
		}
		if u.Kind() == types.UnsafePointer {
			return NilPtr
		}
		s, _, ok := basicSort(t)
		if !ok {
			unsupported("zero of %s", t)
		}
		switch s.K {
		case KBool:
			return False
		case KF64:
			return FloatC(0)
		}
		return BVc(0, s)
	case *types.Pointer:
		return NilPtr
	case *types.Slice:
		return NilSlice
	case *types.Struct:
		r := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			r.F = append(r.F, zeroVal(u.Field(i).Type()))
		}
		return r
	case *types.Array:
		r := &ArrayV{}
		for i := int64(0); i < u.Len(); i++ {
			r.E = append(r.E, zeroVal(u.Elem()))
		}
		return r
	case *types.Interface:
		return &IfaceV{}
	case *types.Signature:
		return &FuncV{}
	case *types.Tuple:
		return &TupleV{}
	case *types.Map, *types.Chan:
		return &UnkV{"map/chan"}
	}
	unsupported("zero of %s", t)
	return nil
}

// ---- content ------------------------------------------------------------

func constKey(dims []*Term) (dkey, bool) {
	k := dkey{n: len(dims)}
	for i, d := range dims {
		c, ok := d.Int()
		if !ok {
			return k, false
		}
		switch i {
		case 0:
			k.a = c
		case 1:
			k.b = c
		case 2:
			k.c = c
		default:
			unsupported("too many dimensions")
		}
	}
	return k, true
}
func (k dkey) terms() []*Term {
	r := []*Term{}
	if k.n > 0 {
		r = append(r, Int(k.a))
	}
	if k.n > 1 {
		r = append(r, Int(k.b))
	}
	if k.n > 2 {
		r = append(r, Int(k.c))
	}
	return r
}

func dimsEq(a, b []*Term) *Term {
	r := True
	for i := range a {
		r = And(r, Eq(a[i], b[i]))
		if r == False {
			return r
		}
	}
	return r
}

// solveWrite: under which condition and variable assignment does w hit dims?
func solveWrite(w *MapWrite, dims []*Term) (*Term, map[*Term]*Term) {
	if len(w.Vars) == 0 {
		return And(w.Guard, dimsEq(w.Dims, dims)), nil
	}
	m := map[*Term]*Term{}
	cond := True
	left := map[*Term]*Term{}
	for i, v := range w.Vars {
		left[v] = w.N[i]
	}
	type eqn struct{ lhs, rhs *Term }
	var eqs []eqn
	for i := range w.Dims {
		eqs = append(eqs, eqn{w.Dims[i], dims[i]})
	}
	bind := func(v, e *Term) {
		cond = And(cond, Not(Slt(e, Int(0))), Slt(e, left[v]))
		m[v] = e
		delete(left, v)
		for i := range eqs {
			eqs[i].lhs = subst1(eqs[i].lhs, v, e)
		}
		for x, n := range left {
			left[x] = subst1(n, v, e)
		}
	}
	for len(left) > 0 {
		progress := false
		for i := range eqs {
			lhs, rhs := eqs[i].lhs, eqs[i].rhs
			var vs []*Term
			for v := range left {
				if occurs(v, lhs) {
					vs = append(vs, v)
				}
			}
			if len(vs) == 0 {
				continue
			}
			_, as, ks := linParts(lhs)
			// coefficient of each variable; other atoms must not contain variables
			co := map[*Term]int64{}
			ok := true
			rest := lhs
			for j, a := range as {
				isv := false
				for _, v := range vs {
					if a == v {
						co[v] = sx(ks[j], 64)
						isv = true
					}
				}
				if isv {
					rest = Sub(rest, Scale(a, ks[j]))
				}
			}
			for _, v := range vs {
				if occurs(v, rest) || co[v] == 0 {
					ok = false
				}
			}
			if !ok {
				continue
			}
			target := Sub(rhs, rest) // sum co[v]*v == target
			if len(vs) == 1 {
				v := vs[0]
				k := co[v]
				switch {
				case k == 1:
					bind(v, target)
				case k == -1:
					bind(v, Neg(target))
				default:
					if k < 0 {
						k = -k
						target = Neg(target)
					}
					q, r := exactDiv(target, k)
					if q == nil {
						if q2, c2 := uniqueMultiple(target, k); q2 != nil {
							cond = And(cond, c2, Not(Slt(q2, Int(0))))
							if cond == False {
								return False, nil
							}
							bind(v, q2)
							progress = true
							break
						}
						// non-syntactic: t = target / k with remainder test
						nn := Not(Slt(target, Int(0)))
						cond = And(cond, nn, Eq(DivRem(OSRem, target, Int(k)), Int(0)))
						if cond == False {
							return False, nil
						}
						q = DivRem(OSDiv, target, Int(k))
					} else if r != 0 {
						return False, nil
					}
					bind(v, q)
				}
				progress = true
				break
			}
			// mixed radix: strictly dominating coefficients, all positive
			sort.Slice(vs, func(a, b int) bool { return co[vs[a]] > co[vs[b]] })
			good := true
			span := int64(0)
			for j := len(vs) - 1; j >= 0; j-- {
				_, h, ok := left[vs[j]].srange()
				if !ok || co[vs[j]] <= span {
					good = false
					break
				}
				p, o := mulOv(co[vs[j]], h-1)
				if !o {
					good = false
					break
				}
				span += p
			}
			if !good {
				continue
			}
			cond = And(cond, Not(Slt(target, Int(0))))
			rem := target
			for j, v := range vs {
				k := co[v]
				if j == len(vs)-1 {
					if k == 1 {
						bind(v, rem)
					} else {
						cond = And(cond, Eq(DivRem(OSRem, rem, Int(k)), Int(0)))
						bind(v, DivRem(OSDiv, rem, Int(k)))
					}
				} else {
					if q2, r2 := floorSplit(rem, k); q2 != nil {
						bind(v, q2)
						rem = r2
						continue
					}
					q := DivRem(OSDiv, rem, Int(k))
					rem = DivRem(OSRem, rem, Int(k))
					bind(v, q)
				}
			}
			progress = true
			break
		}
		if !progress {
			unsupported("cannot invert write index %v", w.Dims)
		}
	}
	for i := range eqs {
		cond = And(cond, Eq(eqs[i].lhs, eqs[i].rhs))
	}
	cond = And(cond, Subst(w.Guard, m))
	return cond, m
}

// uniqueMultiple splits t = k*M + R; when only one multiple m*k of k lies in
// the range of R, then k divides t exactly when R = m*k, with quotient M + m.
func uniqueMultiple(t *Term, k int64) (*Term, *Term) {
	if t.Op != OLin || t.S.W != 64 || !noWrap(t) {
		return nil, nil
	}
	mul, rest := newLin(t.S), newLin(t.S)
	ci := sx(t.C, 64)
	rest.c = uint64(ci % k)
	mul.c = uint64(ci / k)
	for i, x := range t.Args {
		c := sx(t.Coef[i], 64)
		mul.m[x] += uint64(c / k)
		rest.m[x] += uint64(c % k)
	}
	m, r := mul.done(), rest.done()
	lo, hi, ok := r.srange()
	if !ok || r.Op == OLin && !noWrap(r) {
		return nil, nil
	}
	f := func(x int64) int64 { // floor
		q := x / k
		if x%k != 0 && x < 0 {
			q--
		}
		return q
	}
	a, b := -f(-lo), f(hi) // first and last multiple in range
	if a > b {
		return m, False
	}
	if a < b {
		return nil, nil
	}
	return AddC(m, a), Eq(r, Int(a*k))
}

// floorSplit writes t = k*q + r with 0 <= r < k when the parts are apparent.
func floorSplit(t *Term, k int64) (*Term, *Term) {
	if t.Op != OLin || t.S.W != 64 || !noWrap(t) {
		return nil, nil
	}
	mul, rest := newLin(t.S), newLin(t.S)
	ci := sx(t.C, 64)
	rest.c = uint64(ci % k)
	mul.c = uint64(ci / k)
	for i, x := range t.Args {
		c := sx(t.Coef[i], 64)
		mul.m[x] += uint64(c / k)
		rest.m[x] += uint64(c % k)
	}
	m, r := mul.done(), rest.done()
	lo, hi, ok := r.srange()
	if !ok || r.Op == OLin && !noWrap(r) {
		return nil, nil
	}
	f := func(x int64) int64 {
		q := x / k
		if x%k != 0 && x < 0 {
			q--
		}
		return q
	}
	if f(lo) != f(hi) {
		return nil, nil
	}
	return AddC(m, f(lo)), AddC(r, -f(lo)*k)
}

// exactDiv divides a linear term by k when all coefficients are multiples.
func exactDiv(t *Term, k int64) (*Term, int64) {
	c, as, ks := linParts(t)
	l := newLin(t.S)
	for i, a := range as {
		if sx(ks[i], 64)%k != 0 {
			return nil, 0
		}
		l.m[a] += uint64(sx(ks[i], 64) / k)
	}
	ci := sx(c, 64)
	r := ((ci % k) + k) % k
	l.c = uint64((ci - r) / k)
	return l.done(), r
}

const maxIte = 300

// Read the content at the given dims.
func (c *Content) Read(dims []*Term) Value {
	type pend struct {
		c *Term
		v Value
	}
	var ps []pend
	neg := map[*Term]bool{}
	key, isConst := constKey(dims)
	finish := func(v Value) Value {
		for i := len(ps) - 1; i >= 0; i-- {
			v = iteVal(ps[i].c, ps[i].v, v)
		}
		return v
	}
	add := func(cond *Term, v Value) bool { // true when decided
		if cond == True {
			return true
		}
		if neg[cond] {
			return false
		}
		neg[cond] = true
		ps = append(ps, pend{cond, v})
		if len(ps) > maxIte {
			unsupported("read resolves to too many writes")
		}
		return false
	}
	for x := c; x != nil; x = x.Prev {
		switch {
		case x.Dense != nil:
			if isConst {
				if v, ok := x.Dense[key]; ok {
					return finish(v)
				}
				continue
			}
			// symbolic index over dense cells: filter by range
			var lo, hi [3]int64
			for i, d := range dims {
				l, h, ok := d.srange()
				if !ok {
					l, h = -big, big
				}
				lo[i], hi[i] = l, h
			}
			var ks []dkey
			for k := range x.Dense {
				kk := [3]int64{k.a, k.b, k.c}
				in := true
				for i := range dims {
					if kk[i] < lo[i] || kk[i] > hi[i] {
						in = false
					}
				}
				if in {
					ks = append(ks, k)
				}
			}
			if len(ks) > maxIte {
				unsupported("symbolic read over %d dense cells", len(ks))
			}
			sort.Slice(ks, func(i, j int) bool {
				if ks[i].a != ks[j].a {
					return ks[i].a < ks[j].a
				}
				if ks[i].b != ks[j].b {
					return ks[i].b < ks[j].b
				}
				return ks[i].c < ks[j].c
			})
			for _, k := range ks {
				cond := dimsEq(k.terms(), dims)
				if cond == False {
					continue
				}
				if add(cond, x.Dense[k]) {
					return finish(x.Dense[k])
				}
			}
		case x.W != nil:
			cond, m := solveWrite(x.W, dims)
			if cond == False {
				continue
			}
			v := substVal(x.W.Val, m)
			if add(cond, v) {
				return finish(v)
			}
		case x.FnVars != nil || x.FnVal != nil:
			m := map[*Term]*Term{}
			for i, fv := range x.FnVars {
				m[fv] = dims[i]
			}
			return finish(substVal(x.FnVal, m))
		case x.Base != nil:
			return finish(x.Base(dims))
		}
	}
	panic("content without base")
}

func baseContent(tag string, f func(dims []*Term) Value) *Content {
	return &Content{Base: f, Tag: tag}
}
func zeroContent(t types.Type) *Content {
	z := zeroVal(t)
	return &Content{Base: func([]*Term) Value { return z }, Tag: "zero"}
}

// symContent: a symbolic array (or scalar when there is no dimension) of leaf type t.
func symContent(name string, t types.Type, nfam int) *Content {
	return &Content{Tag: "sym:" + name, Explicit: nfam > 0, Base: func(dims []*Term) Value {
		return symLeaf(name, t, nfam, dims)
	}}
}
func symLeaf(name string, t types.Type, nfam int, dims []*Term) Value {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return Cplx{symLeafS(name+".re", F64, nfam, dims), symLeafS(name+".im", F64, nfam, dims)}
	}
	s, _, ok := basicSort(t)
	if !ok {
		return &UnkV{"symbolic " + t.String() + " " + name}
	}
	return symLeafS(name, s, nfam, dims)
}
func symLeafS(name string, s Sort, nfam int, dims []*Term) *Term {
	if len(dims) == nfam {
		if nfam == 0 {
			if s.K == KBV && len(curRanges) > 0 {
				if r, ok := curRanges[strings.ReplaceAll(name, "*", "")]; ok && (s.W == 64 || r[0] >= 0 && r[1] <= int64(mask(s.W))) {
					return NamedRVar(name, s, r[0], r[1])
				}
			}
			return NamedVar(name, s)
		}
		return App(name, s, dims...)
	}
	if len(dims) > nfam+1 {
		// treat leading extra dims like family dims
		nfam = len(dims) - 1
	}
	var arr *Term
	if nfam == 0 {
		arr = NamedVar(name, arrSort(s))
	} else {
		arr = App(name, arrSort(s), dims[:nfam]...)
	}
	return Select(arr, dims[nfam])
}

func pathString(p []Step) (string, []*Term) {
	var sb strings.Builder
	var idx []*Term
	for _, s := range p {
		if s.Idx != nil {
			sb.WriteString("[]")
			idx = append(idx, s.Idx)
		} else {
			fmt.Fprintf(&sb, ".%d", s.F)
		}
	}
	return sb.String(), idx
}

// cut drops the history below a write that covers the whole object: the cells
// underneath can no longer be read.
func cut(k RegKey, c *Content) *Content {
	if !wholeWrite(k, c) {
		return c
	}
	w, o := c.W, k.Obj
	d := o.defaultContent(k.Path)
	if c.Prev == d {
		return c
	}
	return &Content{Prev: d, W: w}
}

func wholeWrite(k RegKey, c *Content) bool {
	w := c.W
	if w == nil || w.Guard != True || len(w.Vars) != 1 || len(w.Dims) != 1 || w.Dims[0] != w.Vars[0] {
		return false
	}
	o := k.Obj
	return o.IsArr && k.Path == "[]" && o.Len != nil && w.N[0] == o.Len
}

// curRanges: constant bounds that the current contract's preconditions put on
// scalar inputs (the preconditions themselves stay assumed as well).
var curRanges = map[string][2]int64{}
