package main

// The linear-domain back end for the Fourier functions ("checked fft").
//
// The functions' real SSA is executed once per degree with concrete integers,
// pointers and twiddle factors and with symbolic coefficients: a float is a
// linear form over all N input coefficients (transforms) or a polynomial of
// degree two over the input slots (pointwise operations).  The degree is fixed
// by the security level, so the loops are executed completely; the inputs are
// arbitrary.  The resulting matrix is then compared, entry by entry, with the
// evaluation matrix at the N/2 odd roots of unity (forward), its inverse
// (backward), or with complex arithmetic slot by slot (pointwise).
// Floating-point rounding of the linear forms is bounded by a tolerance, not
// proved; coefficients of the matrices are the ones the code computes.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/cmplx"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cval interface{}

type creg struct {
	el   []cval
	name string
	ro   int // 0 free, 1 may not change (operand, table), 2 outside the modifies clause
}
type cptr struct {
	r     *creg
	off   int
	n     int
	whole bool // aggregate at r[off:off+n] (n<0: all of r)
	et    types.Type
}
type cslice struct {
	r             *creg
	off, len, cap int
}
type cclos struct {
	fn   *ssa.Function
	bind []cval
}
type ctuple []cval

type mono [2]int32 // atom ids + 1, sorted; 0 = none

// sflt is a symbolic float.
type sflt struct {
	c float64
	v []float64        // dense linear form
	m map[mono]float64 // sparse polynomial
	r []ratom          // multiples of rounded values
}
type ratom struct {
	k   float64
	arg *sflt
}

// sint is a symbolic machine integer: sum of input atoms and rounded floats.
type sint struct {
	c    int64
	atom map[int]int64
	conv []rconv
	sgn  bool
}
type rconv struct {
	k int64
	v []float64
}

type fftErr struct {
	status, msg string
}

type cinterp struct {
	e     *Engine
	n     int // dense atoms
	steps int
	bad   []fftErr

	globals   map[*ssa.Global]*creg
	levelNo   int64
	atoms     map[interface{}]int
	atomNames map[int]interface{}
}

func (ci *cinterp) stop(status, f string, a ...interface{}) {
	panic(fftErr{status, fmt.Sprintf(f, a...)})
}
func (ci *cinterp) note(status, f string, a ...interface{}) {
	if len(ci.bad) < 20 {
		ci.bad = append(ci.bad, fftErr{status, fmt.Sprintf(f, a...)})
	}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (ci *cinterp) zero(t types.Type) cval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		}
		return nil
	case *types.Struct:
		r := &creg{el: make([]cval, u.NumFields())}
		for i := range r.el {
			r.el[i] = ci.zero(u.Field(i).Type())
		}
		return r
	case *types.Array:
		r := &creg{el: make([]cval, int(u.Len()))}
		for i := range r.el {
			r.el[i] = ci.zero(u.Elem())
		}
		return r
	case *types.Slice:
		return cslice{}
	}
	return nil
}

func cloneAgg(v cval) cval {
	r, ok := v.(*creg)
	if !ok {
		return v
	}
	o := &creg{el: make([]cval, len(r.el)), name: r.name}
	for i, x := range r.el {
		o.el[i] = cloneAgg(x)
	}
	return o
}

func (ci *cinterp) load(p cptr) cval {
	if p.r == nil {
		ci.stop("failed", "nil pointer dereference")
	}
	if p.whole {
		if p.n < 0 {
			return cloneAgg(p.r)
		}
		return cloneAgg(&creg{el: p.r.el[p.off : p.off+p.n]})
	}
	return cloneAgg(p.r.el[p.off])
}

func (ci *cinterp) wr(r *creg) {
	switch r.ro {
	case 1:
		ci.stop("failed", "writes to %s, which it may not change", r.name)
	case 2:
		ci.stop("unknown", "writes to %s, outside the modifies clause", r.name)
	}
}

func (ci *cinterp) store(p cptr, v cval) {
	if p.r == nil {
		ci.stop("failed", "nil pointer dereference")
	}
	ci.wr(p.r)
	if p.whole {
		src := v.(*creg)
		n, off := p.n, p.off
		if n < 0 {
			n, off = len(p.r.el), 0
		}
		c := cloneAgg(src).(*creg)
		for i := 0; i < n; i++ {
			ci.put(p.r, off+i, c.el[i])
		}
		return
	}
	ci.put(p.r, p.off, cloneAgg(v))
}

func (ci *cinterp) put(r *creg, i int, v cval) {
	if old, ok := r.el[i].(*creg); ok { // keep the identity of nested aggregates
		nw := v.(*creg)
		for k := range old.el {
			ci.put(old, k, nw.el[k])
		}
		return
	}
	r.el[i] = v
}

func elemPtr(r *creg, i int) cptr {
	if sub, ok := r.el[i].(*creg); ok {
		return cptr{r: sub, n: -1, whole: true}
	}
	return cptr{r: r, off: i}
}

func wrapInt(t types.Type, x int64) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return x
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(x))
	case types.Int16:
		return int64(int16(x))
	case types.Int32:
		return int64(int32(x))
	case types.Uint8:
		return int64(uint8(x))
	case types.Uint16:
		return int64(uint16(x))
	case types.Uint32:
		return int64(uint32(x))
	}
	return x
}

func isUns(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// ---- symbolic floats

func (ci *cinterp) toS(x cval) *sflt {
	switch y := x.(type) {
	case *sflt:
		return y
	case float64:
		return &sflt{c: y}
	}
	ci.stop("unknown", "not a float: %T", x)
	return nil
}

func (ci *cinterp) lin(a *sflt, ka float64, b *sflt, kb float64) *sflt {
	o := &sflt{c: ka*a.c + kb*b.c}
	if a.v != nil || b.v != nil {
		o.v = make([]float64, ci.n)
		if a.v != nil && b.v != nil {
			av, bv := a.v, b.v
			for i := range o.v {
				o.v[i] = ka*av[i] + kb*bv[i]
			}
		} else if a.v != nil {
			for i, x := range a.v {
				o.v[i] = ka * x
			}
		} else {
			for i, x := range b.v {
				o.v[i] = kb * x
			}
		}
	}
	if a.m != nil || b.m != nil {
		o.m = map[mono]float64{}
		for k, x := range a.m {
			o.m[k] += ka * x
		}
		for k, x := range b.m {
			o.m[k] += kb * x
		}
	}
	for _, x := range a.r {
		o.r = append(o.r, ratom{ka * x.k, x.arg})
	}
	for _, x := range b.r {
		o.r = append(o.r, ratom{kb * x.k, x.arg})
	}
	return o
}

func (ci *cinterp) mulS(a, b *sflt) *sflt {
	if a.v == nil && a.m == nil && a.r == nil {
		return ci.lin(b, a.c, &sflt{}, 0)
	}
	if b.v == nil && b.m == nil && b.r == nil {
		return ci.lin(a, b.c, &sflt{}, 0)
	}
	if a.v != nil || b.v != nil || a.r != nil || b.r != nil {
		ci.stop("unknown", "product of two symbolic values in a transform")
	}
	o := &sflt{c: a.c * b.c, m: map[mono]float64{}}
	for k, x := range a.m {
		if b.c != 0 {
			o.m[k] += x * b.c
		}
	}
	for k, x := range b.m {
		if a.c != 0 {
			o.m[k] += x * a.c
		}
	}
	for k, x := range a.m {
		for l, y := range b.m {
			if k[1] != 0 || l[1] != 0 {
				ci.stop("unknown", "product of degree above two")
			}
			q := mono{k[0], l[0]}
			if q[0] > q[1] {
				q[0], q[1] = q[1], q[0]
			}
			// a mono with one atom has it in position 0
			o.m[q] += x * y
		}
	}
	return o
}

func (ci *cinterp) symFloatOp(op token.Token, x, y cval) cval {
	a, b := ci.toS(x), ci.toS(y)
	switch op {
	case token.ADD:
		return ci.lin(a, 1, b, 1)
	case token.SUB:
		return ci.lin(a, 1, b, -1)
	case token.MUL:
		return ci.mulS(a, b)
	case token.QUO:
		if b.v != nil || b.m != nil || b.r != nil {
			ci.stop("unknown", "division by a symbolic value")
		}
		if b.c == 0 {
			ci.stop("failed", "division by zero")
		}
		return ci.lin(a, 1/b.c, &sflt{}, 0)
	}
	ci.stop("unknown", "control depends on coefficient values (%s)", op)
	return nil
}

// ---- symbolic integers

func (ci *cinterp) toI(x cval) *sint {
	switch y := x.(type) {
	case *sint:
		return y
	case int64:
		return &sint{c: y}
	}
	ci.stop("unknown", "not an integer: %T", x)
	return nil
}

func (ci *cinterp) symIntOp(op token.Token, x, y cval, t types.Type) cval {
	b, _ := t.Underlying().(*types.Basic)
	if b == nil || (b.Kind() != types.Uint32 && b.Kind() != types.Int32) {
		ci.stop("unknown", "arithmetic on a symbolic %s", t)
	}
	p, q := ci.toI(x), ci.toI(y)
	k := int64(1)
	switch op {
	case token.ADD:
	case token.SUB:
		k = -1
	default:
		ci.stop("unknown", "operation %s on symbolic coefficients", op)
	}
	o := &sint{c: p.c + k*q.c, atom: map[int]int64{}, sgn: b.Kind() == types.Int32}
	for i, c := range p.atom {
		o.atom[i] += c
	}
	for i, c := range q.atom {
		o.atom[i] += k * c
	}
	o.conv = append(o.conv, p.conv...)
	for _, c := range q.conv {
		o.conv = append(o.conv, rconv{k * c.k, c.v})
	}
	return o
}

func (ci *cinterp) round(x cval) cval {
	if f, ok := x.(float64); ok {
		return math.Round(f)
	}
	return &sflt{r: []ratom{{1, ci.toS(x)}}}
}

// toInt is the conversion of a float to a 64-bit integer.
func (ci *cinterp) toInt(x cval) cval {
	if f, ok := x.(float64); ok {
		return int64(f)
	}
	s := ci.toS(x)
	if s.c != 0 || s.v != nil || s.m != nil || len(s.r) != 1 || s.r[0].k != 1 {
		ci.stop("failed", "a coefficient is converted to an integer without rounding to nearest")
	}
	in := s.r[0].arg
	if in.c != 0 || in.v == nil || in.m != nil {
		ci.stop("unknown", "rounded value is not a linear form")
	}
	// reduced modulo 2^32 first, with the quotient of the same value
	q := 0.0
	for _, a := range in.r {
		if a.k != -4294967296 {
			ci.stop("failed", "reduction by a multiple (%g) other than 2^32 of the rounded quotient", -a.k)
		}
		if a.arg.c != 0 || len(a.arg.r) != 0 || a.arg.v == nil {
			ci.stop("unknown", "quotient is not a linear form")
		}
		for i, w := range a.arg.v {
			if math.Abs(w*4294967296-in.v[i]) > 1e-9*math.Abs(in.v[i])+1e-30 {
				ci.stop("failed", "reduced by the quotient of another value")
			}
		}
		q++
	}
	if q != 1 {
		ci.stop("failed", "a coefficient is converted to an integer without reduction modulo 2^32 (out of the integer range for large products)")
	}
	return &sint{conv: []rconv{{1, in.v}}, sgn: true}
}

func (ci *cinterp) convert(v cval, from, to types.Type) cval {
	if p, ok := v.(cptr); ok {
		if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			if pt, ok := from.Underlying().(*types.Pointer); ok {
				p.et = pt.Elem()
			}
			return p
		}
		if pt, ok := to.Underlying().(*types.Pointer); ok && p.et != nil {
			at, ok := pt.Elem().Underlying().(*types.Array)
			if !ok || p.whole {
				if types.Identical(pt.Elem().Underlying(), p.et.Underlying()) {
					return p
				}
				ci.stop("unknown", "pointer cast from *%s to %s", p.et, to)
			}
			if !types.Identical(at.Elem().Underlying(), p.et.Underlying()) {
				ci.stop("unknown", "pointer cast from *%s to %s", p.et, to)
			}
			if p.off+int(at.Len()) > len(p.r.el) {
				ci.stop("failed", "unchecked access to %s beyond its end: elements %d..%d of %d", p.r.name, p.off, p.off+int(at.Len())-1, len(p.r.el))
			}
			return cptr{r: p.r, off: p.off, n: int(at.Len()), whole: true}
		}
		return p
	}
	tb, ok := to.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	fb, _ := from.Underlying().(*types.Basic)
	switch x := v.(type) {
	case int64:
		switch {
		case tb.Info()&types.IsInteger != 0:
			return wrapInt(to, x)
		case tb.Info()&types.IsFloat != 0:
			if fb != nil && fb.Kind() == types.Uint64 || fb != nil && fb.Kind() == types.Uint {
				return float64(uint64(x))
			}
			return float64(x)
		}
	case float64:
		if tb.Info()&types.IsInteger != 0 {
			if isUns(to) {
				return wrapInt(to, int64(uint64(x)))
			}
			return wrapInt(to, int64(x))
		}
		if tb.Kind() == types.Float32 {
			return float64(float32(x))
		}
		return x
	case complex128:
		return x
	case *sflt:
		if tb.Info()&types.IsInteger != 0 {
			if tb.Kind() != types.Int64 && tb.Kind() != types.Int {
				ci.stop("unknown", "coefficient converted to %s", to)
			}
			return ci.toInt(x)
		}
		if tb.Kind() == types.Float32 {
			ci.stop("failed", "coefficient rounded to 32-bit floating point")
		}
		return x
	case *sint:
		switch tb.Kind() {
		case types.Int32, types.Uint32:
			y := *x
			y.sgn = tb.Kind() == types.Int32
			return &y
		case types.Float64:
			if fb != nil && (fb.Kind() == types.Int32 || fb.Kind() == types.Int64 && x.sgn || fb.Kind() == types.Int && x.sgn) && len(x.conv) == 0 && x.c == 0 && len(x.atom) == 1 {
				for i, c := range x.atom {
					if c == 1 {
						o := &sflt{v: make([]float64, ci.n)}
						o.v[i] = 1
						return o
					}
				}
			}
			ci.stop("unknown", "conversion of a %s coefficient to a float", from)
		case types.Int64, types.Int:
			if x.sgn || len(x.conv) == 1 && len(x.atom) == 0 {
				return x
			}
		}
		ci.stop("unknown", "conversion of a coefficient from %s to %s", from, to)
	case string, bool:
		return v
	}
	ci.stop("unknown", "conversion from %s to %s", from, to)
	return nil
}

// ---- interpreter

// cfnc is a function with its operands resolved to frame slots or constants.
type cfnc struct {
	n      int
	blocks [][]cinst
	params []int
	free   []int
}
type copnd struct {
	slot int // -1: constant k; -2: evaluated on use (v)
	k    cval
	v    ssa.Value
}
type cinst struct {
	in  ssa.Instruction
	ops []copnd
	dst int
}

var compiled = map[*ssa.Function]*cfnc{}

func (ci *cinterp) compile(fn *ssa.Function) *cfnc {
	if c := compiled[fn]; c != nil {
		return c
	}
	c := &cfnc{}
	slots := map[ssa.Value]int{}
	slot := func(v ssa.Value) int {
		k, ok := slots[v]
		if !ok {
			k = len(slots)
			slots[v] = k
		}
		return k
	}
	for _, p := range fn.Params {
		c.params = append(c.params, slot(p))
	}
	for _, p := range fn.FreeVars {
		c.free = append(c.free, slot(p))
	}
	for _, b := range fn.Blocks {
		var l []cinst
		for _, in := range b.Instrs {
			x := cinst{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				x.dst = slot(v)
			}
			for _, o := range in.Operands(nil) {
				if *o == nil {
					x.ops = append(x.ops, copnd{slot: -1})
					continue
				}
				switch y := (*o).(type) {
				case *ssa.Const:
					if y.Value == nil {
						if _, agg := ci.zero(y.Type()).(*creg); agg {
							x.ops = append(x.ops, copnd{slot: -2, v: y})
							continue
						}
					}
					x.ops = append(x.ops, copnd{slot: -1, k: ci.constant(y)})
				case *ssa.Function, *ssa.Global, *ssa.Builtin:
					x.ops = append(x.ops, copnd{slot: -2, v: y})
				default:
					x.ops = append(x.ops, copnd{slot: slot(y)})
				}
			}
			l = append(l, x)
		}
		c.blocks = append(c.blocks, l)
	}
	c.n = len(slots)
	compiled[fn] = c
	return c
}

type cframe struct {
	fn  *ssa.Function
	env []cval
	ops []copnd
}

func (ci *cinterp) constant(x *ssa.Const) cval {
	if x.Value == nil {
		return ci.zero(x.Type())
	}
	b, _ := x.Type().Underlying().(*types.Basic)
	switch {
	case b == nil:
		ci.stop("unknown", "constant of type %s", x.Type())
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(x.Value)
	case b.Info()&types.IsString != 0:
		return constant.StringVal(x.Value)
	case b.Info()&types.IsInteger != 0:
		if isUns(x.Type()) {
			u, _ := constant.Uint64Val(constant.ToInt(x.Value))
			return wrapInt(x.Type(), int64(u))
		}
		i, _ := constant.Int64Val(constant.ToInt(x.Value))
		return i
	case b.Info()&types.IsFloat != 0:
		fl, _ := constant.Float64Val(x.Value)
		return fl
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(x.Value))
		im, _ := constant.Float64Val(constant.Imag(x.Value))
		return complex(re, im)
	}
	ci.stop("unknown", "constant of type %s", x.Type())
	return nil
}

// op is the value of the current instruction's k-th operand.
func (ci *cinterp) op(f *cframe, k int) cval {
	o := &f.ops[k]
	if o.slot >= 0 {
		return f.env[o.slot]
	}
	if o.slot == -1 {
		return o.k
	}
	switch x := o.v.(type) {
	case *ssa.Const:
		return ci.zero(x.Type())
	case *ssa.Function:
		return cclos{x, nil}
	case *ssa.Global:
		return ci.global(x)
	case *ssa.Builtin:
		return x
	}
	return nil
}

func (ci *cinterp) call(fn *ssa.Function, args []cval, bind []cval) cval {
	if r, ok := ci.encode(fn, args); ok {
		return r
	}
	if fn.Name() == "init" && fn.Pkg != nil && fn.Synthetic != "" {
		if g, ok := fn.Pkg.Members["init$guard"].(*ssa.Global); !ok || ci.globals[g] == nil {
			return nil // another package's initialiser
		}
	}
	if fn.Blocks == nil || fn.Pkg == nil && fn.Origin() == nil || fn.Pkg != nil && !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		return ci.external(fn, args)
	}
	code := ci.compile(fn)
	f := &cframe{fn: fn, env: make([]cval, code.n)}
	for i, p := range code.params {
		f.env[p] = cloneAgg(args[i])
	}
	for i, p := range code.free {
		f.env[p] = bind[i]
	}
	blk := fn.Blocks[0]
	var prev *ssa.BasicBlock
	var phis []cval
	for {
		l := code.blocks[blk.Index]
		nph := 0
		phis = phis[:0]
		for nph < len(l) {
			if _, ok := l[nph].in.(*ssa.Phi); !ok {
				break
			}
			f.ops = l[nph].ops
			for k, b := range blk.Preds {
				if b == prev {
					phis = append(phis, ci.op(f, k))
					break
				}
			}
			nph++
		}
		for k, p := range phis {
			f.env[l[k].dst] = p
		}
		var next *ssa.BasicBlock
		for k := nph; k < len(l); k++ {
			in := &l[k]
			f.ops = in.ops
			ci.steps++
			if ci.steps > 400_000_000 {
				ci.stop("unknown", "step budget exceeded")
			}
			switch x := in.in.(type) {
			case *ssa.If:
				c, ok := ci.op(f, 0).(bool)
				if !ok {
					ci.stop("unknown", "branch on a coefficient value in %s", fn)
				}
				if c {
					next = blk.Succs[0]
				} else {
					next = blk.Succs[1]
				}
			case *ssa.Jump:
				next = blk.Succs[0]
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					return nil
				case 1:
					return ci.op(f, 0)
				}
				var t ctuple
				for k := range x.Results {
					t = append(t, ci.op(f, k))
				}
				return t
			case *ssa.Panic:
				ci.stop("failed", "panics in %s", fn)
			case *ssa.Store:
				p, ok := ci.op(f, 0).(cptr)
				if !ok {
					ci.stop("failed", "nil pointer dereference in %s", fn)
				}
				ci.store(p, ci.op(f, 1))
			case *ssa.DebugRef:
			default:
				v, ok := in.in.(ssa.Value)
				if !ok {
					ci.stop("unknown", "instruction %T in %s", in.in, fn)
				}
				r := ci.eval(f, v)
				f.env[in.dst] = r
			}
		}
		if next == nil {
			ci.stop("unknown", "no successor in %s", fn)
		}
		prev, blk = blk, next
	}
}

func (ci *cinterp) idx(v cval) int {
	i, ok := v.(int64)
	if !ok {
		ci.stop("unknown", "index depends on coefficient values")
	}
	return int(i)
}

func (ci *cinterp) eval(f *cframe, v ssa.Value) cval {
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		z := ci.zero(t)
		if r, ok := z.(*creg); ok {
			return cptr{r: r, n: -1, whole: true}
		}
		return cptr{r: &creg{el: []cval{z}}}
	case *ssa.BinOp:
		return ci.binop(x.Op, ci.op(f, 0), ci.op(f, 1), x.X.Type(), x.Y.Type())
	case *ssa.UnOp:
		a := ci.op(f, 0)
		switch x.Op {
		case token.MUL:
			p, ok := a.(cptr)
			if !ok {
				ci.stop("failed", "nil pointer dereference in %s", f.fn)
			}
			return ci.load(p)
		case token.SUB:
			switch y := a.(type) {
			case int64:
				return wrapInt(x.Type(), -y)
			case float64:
				return -y
			case complex128:
				return -y
			case *sflt:
				return ci.lin(y, -1, &sflt{}, 0)
			case *sint:
				return ci.symIntOp(token.SUB, int64(0), y, x.Type())
			}
		case token.NOT:
			return !a.(bool)
		case token.XOR:
			if y, ok := a.(int64); ok {
				return wrapInt(x.Type(), ^y)
			}
		}
		ci.stop("unknown", "operator %s", x.Op)
	case *ssa.ChangeType:
		return ci.op(f, 0)
	case *ssa.Convert:
		return ci.convert(ci.op(f, 0), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		return ci.op(f, 0)
	case *ssa.Extract:
		return ci.op(f, 0).(ctuple)[x.Index]
	case *ssa.Field:
		return cloneAgg(ci.op(f, 0).(*creg).el[x.Field])
	case *ssa.Index:
		i := ci.idx(ci.op(f, 1))
		r, ok := ci.op(f, 0).(*creg)
		if !ok {
			ci.stop("unknown", "index of %s", x.X.Type())
		}
		if i < 0 || i >= len(r.el) {
			ci.stop("failed", "index %d out of range", i)
		}
		return cloneAgg(r.el[i])
	case *ssa.FieldAddr:
		p, ok := ci.op(f, 0).(cptr)
		if !ok {
			ci.stop("failed", "nil pointer dereference in %s", f.fn)
		}
		return elemPtr(p.r, x.Field)
	case *ssa.IndexAddr:
		i := ci.idx(ci.op(f, 1))
		switch s := ci.op(f, 0).(type) {
		case cslice:
			if i < 0 || i >= s.len {
				ci.stop("failed", "index %d out of range [0,%d) in %s", i, s.len, f.fn)
			}
			return elemPtr(s.r, s.off+i)
		case cptr:
			n := s.n
			if n < 0 {
				n = len(s.r.el)
			}
			if i < 0 || i >= n {
				ci.stop("failed", "index %d out of range [0,%d) in %s", i, n, f.fn)
			}
			return elemPtr(s.r, s.off+i)
		}
	case *ssa.MakeSlice:
		n, c := ci.idx(ci.op(f, 0)), ci.idx(ci.op(f, 1))
		if n < 0 || c < n || c > 1<<24 {
			ci.stop("failed", "make with length %d, capacity %d", n, c)
		}
		return ci.mkslice(x.Type().Underlying().(*types.Slice).Elem(), n, c)
	case *ssa.Slice:
		lo, hi := 0, -1
		if x.Low != nil {
			lo = ci.idx(ci.op(f, 1))
		}
		if x.High != nil {
			hi = ci.idx(ci.op(f, 2))
		}
		var s cslice
		switch y := ci.op(f, 0).(type) {
		case cslice:
			s = y
		case cptr:
			n := y.n
			if n < 0 {
				n = len(y.r.el)
			}
			s = cslice{y.r, y.off, n, n}
		default:
			ci.stop("unknown", "slice of %T", y)
		}
		if hi < 0 {
			hi = s.len
		}
		cp := s.cap
		if x.Max != nil {
			cp = ci.idx(ci.op(f, 3))
		}
		if lo < 0 || lo > hi || hi > cp || cp > s.cap {
			ci.stop("failed", "slice bounds [%d:%d] out of range (capacity %d) in %s", lo, hi, s.cap, f.fn)
		}
		return cslice{s.r, s.off + lo, hi - lo, cp - lo}
	case *ssa.SliceToArrayPointer:
		s := ci.op(f, 0).(cslice)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if n > s.len {
			ci.stop("failed", "slice of length %d to array of %d", s.len, n)
		}
		return cptr{r: s.r, off: s.off, n: n, whole: true}
	case *ssa.MakeClosure:
		c := cclos{fn: x.Fn.(*ssa.Function)}
		for k := range x.Bindings {
			c.bind = append(c.bind, ci.op(f, k+1))
		}
		return c
	case *ssa.Call:
		var args []cval
		for k := range x.Call.Args {
			args = append(args, ci.op(f, k+1))
		}
		if x.Call.IsInvoke() {
			ci.stop("unknown", "interface call in %s", f.fn)
		}
		callee := ci.op(f, 0)
		switch c := callee.(type) {
		case *ssa.Builtin:
			return ci.builtin(c.Name(), args, x)
		case cclos:
			return ci.call(c.fn, args, c.bind)
		case cfun:
			return ci.applyFun(c, args)
		}
	}
	ci.stop("unknown", "instruction %T in %s", v, f.fn)
	return nil
}

func (ci *cinterp) mkslice(et types.Type, n, c int) cslice {
	r := &creg{el: make([]cval, c), name: "a new slice"}
	for i := range r.el {
		r.el[i] = ci.zero(et)
	}
	return cslice{r, 0, n, c}
}

func (ci *cinterp) builtin(name string, a []cval, at *ssa.Call) cval {
	switch name {
	case "len", "cap":
		switch s := a[0].(type) {
		case cslice:
			if name == "len" {
				return int64(s.len)
			}
			return int64(s.cap)
		case string:
			return int64(len(s))
		case *creg:
			return int64(len(s.el))
		case cptr:
			if s.n < 0 {
				return int64(len(s.r.el))
			}
			return int64(s.n)
		}
	case "real":
		return real(a[0].(complex128))
	case "imag":
		return imag(a[0].(complex128))
	case "complex":
		re, ok1 := a[0].(float64)
		im, ok2 := a[1].(float64)
		if ok1 && ok2 {
			return complex(re, im)
		}
		ci.stop("unknown", "complex value from coefficients")
	case "copy":
		d, ok := a[0].(cslice)
		s, ok2 := a[1].(cslice)
		if ok && ok2 {
			n := d.len
			if s.len < n {
				n = s.len
			}
			tmp := make([]cval, n)
			for i := range tmp {
				tmp[i] = cloneAgg(s.r.el[s.off+i])
			}
			if n > 0 {
				ci.wr(d.r)
			}
			for i := range tmp {
				ci.put(d.r, d.off+i, tmp[i])
			}
			return int64(n)
		}
	case "append":
		d := a[0].(cslice)
		s, ok := a[1].(cslice)
		if !ok {
			break
		}
		if d.len+s.len > d.cap {
			c := 2 * (d.len + s.len)
			nd := ci.mkslice(at.Type().Underlying().(*types.Slice).Elem(), d.len, c)
			for i := 0; i < d.len; i++ {
				ci.put(nd.r, i, cloneAgg(d.r.el[d.off+i]))
			}
			d = nd
		}
		if s.len > 0 {
			ci.wr(d.r)
		}
		for i := 0; i < s.len; i++ {
			ci.put(d.r, d.off+d.len+i, cloneAgg(s.r.el[s.off+i]))
		}
		d.len += s.len
		return d
	case "min", "max":
		x, ok1 := a[0].(int64)
		y, ok2 := a[1].(int64)
		if ok1 && ok2 && len(a) == 2 {
			if (x < y) == (name == "min") {
				return x
			}
			return y
		}
	case "clear":
		if s, ok := a[0].(cslice); ok {
			ci.wr(s.r)
			et := at.Call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := 0; i < s.len; i++ {
				ci.put(s.r, s.off+i, ci.zero(et))
			}
			return nil
		}
	}
	ci.stop("unknown", "builtin %s", name)
	return nil
}

func (ci *cinterp) external(fn *ssa.Function, a []cval) cval {
	nm := fn.String()
	extUsed["fft:"+nm] = true
	if nm == "math.Round" || nm == "math.RoundToEven" {
		return ci.round(a[0])
	}
	if nm == "math.FMA" {
		return ci.binop(token.ADD, ci.binop(token.MUL, a[0], a[1], tyF64, tyF64), a[2], tyF64, tyF64)
	}
	if nm == "math.Floor" {
		if s, ok := a[0].(*sflt); ok { // floor(x+1/2)
			if s.c == 0.5 {
				y := *s
				y.c = 0
				return ci.round(&y)
			}
			ci.stop("unknown", "math.Floor of a coefficient")
		}
	}
	fl := func(i int) float64 {
		f, ok := a[i].(float64)
		if !ok {
			ci.stop("unknown", "%s of a coefficient", nm)
		}
		return f
	}
	switch nm {
	case "math.Exp2":
		return math.Exp2(fl(0))
	case "math.Exp":
		return math.Exp(fl(0))
	case "math.Cos":
		return math.Cos(fl(0))
	case "math.Sin":
		return math.Sin(fl(0))
	case "math.Sincos":
		s, c := math.Sincos(fl(0))
		return ctuple{s, c}
	case "math.Pow":
		return math.Pow(fl(0), fl(1))
	case "math.Ldexp":
		return math.Ldexp(fl(0), ci.idx(a[1]))
	case "math.Floor":
		return math.Floor(fl(0))
	case "math.Sqrt":
		return math.Sqrt(fl(0))
	case "math/cmplx.Exp":
		return cmplx.Exp(a[0].(complex128))
	case "math/cmplx.Conj":
		return cmplx.Conj(a[0].(complex128))
	case "math/cmplx.Rect":
		return cmplx.Rect(fl(0), fl(1))
	}
	bi := func(i int) uint { return uint(ci.idx(a[i])) }
	switch nm {
	case "math/bits.Len", "math/bits.Len64":
		n := int64(0)
		for x := bi(0); x != 0; x >>= 1 {
			n++
		}
		return n
	case "math/bits.Reverse32":
		x, o := uint32(bi(0)), uint32(0)
		for k := 0; k < 32; k++ {
			o = o<<1 | x>>k&1
		}
		return int64(o)
	case "math/bits.TrailingZeros":
		n := int64(0)
		for x := bi(0); x&1 == 0 && n < 64; x >>= 1 {
			n++
		}
		return n
	}
	ci.stop("unknown", "calls %s", nm)
	return nil
}

func (ci *cinterp) binop(op token.Token, a, b cval, ta, tb types.Type) cval {
	switch x := a.(type) {
	case *sflt:
		return ci.symFloatOp(op, a, b)
	case *sint:
		return ci.symIntOp(op, a, b, ta)
	case float64:
		if _, ok := b.(*sflt); ok {
			return ci.symFloatOp(op, a, b)
		}
		y := b.(float64)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		case token.EQL:
			return x == y
		case token.NEQ:
			return x != y
		}
	case complex128:
		y, ok := b.(complex128)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		}
	case bool:
		y := b.(bool)
		switch op {
		case token.EQL:
			return x == y
		case token.NEQ:
			return x != y
		}
	case string:
		y := b.(string)
		switch op {
		case token.EQL:
			return x == y
		case token.NEQ:
			return x != y
		case token.ADD:
			return x + y
		}
	case int64:
		if _, ok := b.(*sint); ok {
			return ci.symIntOp(op, a, b, ta)
		}
		y := b.(int64)
		u := isUns(ta)
		switch op {
		case token.ADD:
			return wrapInt(ta, x+y)
		case token.SUB:
			return wrapInt(ta, x-y)
		case token.MUL:
			return wrapInt(ta, x*y)
		case token.QUO, token.REM:
			if y == 0 {
				ci.stop("failed", "division by zero")
			}
			if u {
				if op == token.QUO {
					return wrapInt(ta, int64(uint64(x)/uint64(y)))
				}
				return wrapInt(ta, int64(uint64(x)%uint64(y)))
			}
			if op == token.QUO {
				return wrapInt(ta, x/y)
			}
			return wrapInt(ta, x%y)
		case token.AND:
			return x & y
		case token.OR:
			return x | y
		case token.XOR:
			return wrapInt(ta, x^y)
		case token.AND_NOT:
			return x &^ y
		case token.SHL, token.SHR:
			if !isUns(tb) && y < 0 {
				ci.stop("failed", "negative shift")
			}
			if op == token.SHL {
				return wrapInt(ta, x<<uint64(y))
			}
			if u {
				return wrapInt(ta, int64(uint64(x)>>uint64(y)))
			}
			return x >> uint64(y)
		case token.EQL:
			return x == y
		case token.NEQ:
			return x != y
		}
		lt := x < y
		if u {
			lt = uint64(x) < uint64(y)
		}
		switch op {
		case token.LSS:
			return lt
		case token.LEQ:
			return lt || x == y
		case token.GTR:
			return !lt && x != y
		case token.GEQ:
			return !lt
		}
	}
	// nil comparisons
	if op == token.EQL || op == token.NEQ {
		isNil := func(v cval) (bool, bool) {
			switch z := v.(type) {
			case nil:
				return true, true
			case cptr:
				return z.r == nil, true
			case cslice:
				return z.r == nil, true
			}
			return false, false
		}
		p, ok1 := isNil(a)
		q, ok2 := isNil(b)
		if ok1 && ok2 && (p || q) {
			return (p == q) == (op == token.EQL)
		}
	}
	ci.stop("unknown", "operator %s on %T and %T", op, a, b)
	return nil
}

// ---- obligations

// protect marks everything reachable from an evaluator: the tables may never
// change, the buffers are outside the modifies clauses of these functions.
func protect(v cval, seen map[*creg]bool) {
	switch x := v.(type) {
	case *creg:
		if seen[x] {
			return
		}
		seen[x] = true
		x.ro = 2
		x.name = "the evaluator"
		for _, y := range x.el {
			protect(y, seen)
		}
	case cptr:
		if x.r != nil {
			protect(x.r, seen)
		}
	case cslice:
		if x.r == nil || seen[x.r] {
			return
		}
		protect(x.r, seen)
		if len(x.r.el) > 0 {
			if _, cpl := x.r.el[0].(complex128); cpl {
				x.r.ro, x.r.name = 1, "the evaluator's tables"
			}
		}
	}
}

func junk(seen map[*creg]bool) {
	k := int32(900000)
	for r := range seen {
		if r.ro == 1 {
			continue
		}
		flt := len(r.el) > 1
		for _, x := range r.el {
			_, ok := x.(float64)
			flt = flt && ok
		}
		if flt {
			r.ro = 0
			for i := range r.el {
				r.el[i] = &sflt{m: map[mono]float64{{k, 0}: 1}}
				k++
			}
		}
	}
}

type fftRoots struct {
	k []int // slot -> index of its root exp(i*pi*(2k+1)/N), k in [0,N)
}

var fftCache = map[string]interface{}{}

// fftArgs builds the arguments of a Fourier function: coefficient slices of
// length N with the given atoms.
func (v *Verifier) fftRun(c *Contract, fn *ssa.Function, N int, alias map[string]string, dense bool) (*cinterp, map[string]*creg, []fftErr) {
	ci := &cinterp{e: v.e, n: N}
	regs := map[string]*creg{}
	var bad []fftErr
	func() {
		defer func() {
			if r := recover(); r != nil {
				if fe, ok := r.(fftErr); ok {
					bad = append(bad, fe)
					return
				}
				bad = append(bad, fftErr{"unknown", fmt.Sprint("interpreter: ", r)})
			}
		}()
		ctor := v.e.findFunc("poly.NewEvaluator")
		if ctor == nil {
			ci.stop("unknown", "poly.NewEvaluator not found")
		}
		ev := ci.call(ctor, []cval{int64(N)}, nil)
		var args []cval
		nat := 0
		mod := map[string]bool{}
		for _, m := range c.Mod {
			if !m.Except {
				mod[exprString(m.X)] = true
			}
		}
		seen := map[*creg]bool{}
		protect(ev, seen)
		if mod[c.Params[0]] {
			junk(seen) // scratch buffers: any content, may be written
		}
		for i, p := range fn.Params {
			nm := p.Name()
			if i < len(c.Params) {
				nm = c.Params[i]
			}
			t := p.Type()
			if i == 0 && fn.Signature.Recv() != nil {
				args = append(args, ev)
				continue
			}
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float64 {
				args = append(args, &sflt{m: map[mono]float64{{int32(nat + 1), 0}: 1}})
				regs[nm] = &creg{el: []cval{args[len(args)-1]}}
				nat++
				continue
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok || st.NumFields() != 1 {
				ci.stop("unknown", "parameter %s has type %s", nm, t)
			}
			et := st.Field(0).Type().Underlying().(*types.Slice).Elem()
			isF := et.Underlying().(*types.Basic).Info()&types.IsFloat != 0
			r := &creg{el: make([]cval, N), name: nm}
			if o := alias[nm]; o != "" {
				r = regs[o]
				if mod[nm+".Coeffs"] {
					r.ro = 0
				}
			} else {
				if !mod[nm+".Coeffs"] {
					r.ro = 1
				}
				for k := range r.el {
					switch {
					case !isF:
						r.el[k] = &sint{atom: map[int]int64{k + 100000*i: 1}}
						if dense {
							r.el[k] = &sint{atom: map[int]int64{k: 1}}
						}
						if mod[nm+".Coeffs"] {
							r.el[k] = &sint{atom: map[int]int64{1000000 + k: 1}}
						}
					case dense && mod[nm+".Coeffs"] && c.fftKind() == "forward":
						r.el[k] = &sflt{m: map[mono]float64{{int32(900000 + k), 0}: 1}} // previous content must not matter
					case dense:
						x := &sflt{v: make([]float64, N)}
						x.v[k] = 1
						r.el[k] = x
					default:
						r.el[k] = &sflt{m: map[mono]float64{{int32(nat + k + 1), 0}: 1}}
					}
				}
				nat += N
			}
			regs[nm] = r
			args = append(args, &creg{el: []cval{cslice{r, 0, N, N}}})
		}
		ci.call(fn, args, nil)
	}()
	return ci, regs, bad
}

func (c *Contract) fftKind() string {
	f := strings.Fields(c.Assume)
	if len(f) > 1 {
		return f[1]
	}
	return ""
}

func (v *Verifier) verifyFFT(c *Contract) {
	if strings.HasPrefix(c.Assume, "lut") {
		v.verifyLUT(c)
		return
	}
	e := v.e
	fn := e.findFunc(c.Key)
	if fn == nil {
		e.label = c.Key
		e.obls = append(e.obls, &Obligation{Name: c.Key + "@" + v.level + " :: function present", Status: "unknown", Detail: "function not found"})
		e.failed++
		return
	}
	lvN := 0
	if msg := e.guard(func() {
		env := v.env(v.base.Clone(), nil)
		if t, ok := env.eval(parseExpr("N", "fft")).V.(*Term); ok {
			if k, ok := t.Int(); ok {
				lvN = int(k)
			}
		}
	}); msg != "" || lvN == 0 {
		e.obls = append(e.obls, &Obligation{Name: c.Key + "@" + v.level + " :: degree", Status: "unknown", Detail: "degree unknown: " + msg})
		e.failed++
		return
	}
	degs := []int{lvN}
	if v.level == "Security128Bit" && (v.prop == "C11" || v.prop == "") {
		for n := 16; n <= 4096; n *= 2 {
			if n != lvN {
				degs = append(degs, n)
			}
		}
	}
	kind := c.fftKind()
	als := []map[string]string{nil}
	for _, a := range c.Alias {
		m := map[string]string{}
		for _, p := range strings.Fields(a) {
			kv := strings.SplitN(p, "=", 2)
			m[kv[0]] = kv[1]
		}
		als = append(als, m)
	}
	for _, N := range degs {
		for ai, al := range als {
			v.inst++
			label := fmt.Sprintf("%s{N=%d", c.Key, N)
			if ai > 0 {
				label += " " + c.Alias[ai-1]
			}
			label += "}@" + v.level
			add := func(name, status, detail string) {
				o := &Obligation{Name: label + " :: " + name, Status: status, Detail: detail}
				if status == "proved" {
					o.How = "linear"
				} else {
					e.failed++
				}
				e.obls = append(e.obls, o)
			}
			dense := kind == "forward" || kind == "inverse" || kind == "inverse+" || kind == "inverse-"
			ci, regs, bad := v.fftRun(c, fn, N, al, dense)
			if len(bad) > 0 {
				for _, b := range bad {
					add("execution", b.status, b.msg)
				}
				continue
			}
			add("executes without panic, inside its buffers, writing only what it may", "proved", "")
			switch kind {
			case "forward":
				rt, msg := rootsOf(regs[c.Params[len(c.Params)-1]], N, ci)
				if msg != "" {
					add("evaluation at the odd roots of unity", "failed", msg)
					continue
				}
				for k := 0; k < N; k++ {
					add("evaluation at the odd roots of unity", "proved", "")
				}
				fftCache[fmt.Sprint("roots", N)] = rt
			case "inverse", "inverse+", "inverse-":
				rt, _ := fftCache[fmt.Sprint("roots", N)].(*fftRoots)
				if rt == nil {
					fc := v.byKey["poly.(*Evaluator).ToFourierPolyAssign"]
					ff := e.findFunc("poly.(*Evaluator).ToFourierPolyAssign")
					if fc == nil || ff == nil {
						add("forward transform", "unknown", "not found")
						continue
					}
					cj, rg, b2 := v.fftRun(fc, ff, N, nil, true)
					if len(b2) > 0 {
						add("forward transform", "unknown", b2[0].msg)
						continue
					}
					var msg string
					if rt, msg = rootsOf(rg[fc.Params[len(fc.Params)-1]], N, cj); msg != "" {
						add("forward transform", "unknown", msg)
						continue
					}
					fftCache[fmt.Sprint("roots", N)] = rt
				}
				v.checkInverse(kind, regs[c.Params[len(c.Params)-1]], N, rt, add)
			default:
				v.checkPointwise(kind, c, regs, N, al, add)
			}
		}
	}
}

func slotRe(s int) int { return s/4*8 + s%4 }
func slotIm(s int) int { return s/4*8 + 4 + s%4 }

const fftTol = 1e-9

// rootsOf reads the forward matrix: slot s must be evaluation at one odd root
// of unity, and the roots must represent every conjugate pair exactly once.
func rootsOf(out *creg, N int, ci *cinterp) (*fftRoots, string) {
	rt := &fftRoots{}
	row := func(i int) ([]float64, string) {
		s, ok := out.el[i].(*sflt)
		if !ok {
			if f, ok := out.el[i].(float64); ok && f == 0 {
				return make([]float64, N), ""
			}
			return nil, fmt.Sprintf("output %d is not a linear form", i)
		}
		if s.c != 0 || len(s.m) != 0 || len(s.r) != 0 || s.v == nil {
			for k := range s.m {
				return nil, fmt.Sprintf("output %d depends on the previous content of the output (atom %d)", i, k[0])
			}
			return nil, fmt.Sprintf("output %d is not a linear form of the input", i)
		}
		return s.v, ""
	}
	seen := map[int]bool{}
	for s := 0; s < N/2; s++ {
		re, m1 := row(slotRe(s))
		im, m2 := row(slotIm(s))
		if m1+m2 != "" {
			return nil, m1 + m2
		}
		th := math.Atan2(im[1], re[1])
		k := int(math.Round((th*float64(N)/math.Pi - 1) / 2))
		k = ((k % N) + N) % N
		rep := k
		if N-1-k < rep {
			rep = N - 1 - k
		}
		if seen[rep] {
			return nil, fmt.Sprintf("slot %d evaluates at the same root (or its conjugate) as another slot: exp(i*pi*%d/%d)", s, 2*k+1, N)
		}
		seen[rep] = true
		rt.k = append(rt.k, k)
		for i := 0; i < N; i++ {
			a := math.Pi * float64(((2*k+1)*i)%(2*N)) / float64(N)
			if d := math.Hypot(re[i]-math.Cos(a), im[i]-math.Sin(a)); !(d <= fftTol) {
				return nil, fmt.Sprintf("slot %d, coefficient %d of the input: weight (%.9g,%.9g), evaluation at exp(i*pi*%d/%d) needs (%.9g,%.9g)", s, i, re[i], im[i], 2*k+1, N, math.Cos(a), math.Sin(a))
			}
		}
	}
	return rt, ""
}

func (v *Verifier) checkInverse(kind string, out *creg, N int, rt *fftRoots, add func(a, b, c string)) {
	ctab := make([]float64, 2*N)
	stab := make([]float64, 2*N)
	for j := range ctab {
		a := math.Pi * float64(j) / float64(N)
		ctab[j], stab[j] = math.Cos(a), math.Sin(a)
	}
	// the characters are orthogonal: sum over the slots of 2/N cos(theta_s d) = [d = 0]
	for d := -(N - 1); d < N; d++ {
		s := 0.0
		for _, k := range rt.k {
			s += ctab[(((2*k+1)*d)%(2*N)+2*N)%(2*N)]
		}
		s *= 2 / float64(N)
		want := 0.0
		if d == 0 {
			want = 1
		}
		if math.Abs(s-want) > fftTol {
			add("orthogonality of the roots", "failed", fmt.Sprintf("sum at distance %d is %g", d, s))
			return
		}
	}
	add("orthogonality of the roots", "proved", "")
	sign := map[string]int64{"inverse": 1, "inverse+": 1, "inverse-": -1}[kind]
	for i := 0; i < N; i++ {
		x, ok := out.el[i].(*sint)
		if !ok {
			add("inverse transform", "failed", fmt.Sprintf("coefficient %d is not computed from the input", i))
			return
		}
		nat := 0
		for a, c := range x.atom {
			if c == 0 {
				continue
			}
			nat++
			if kind == "inverse" || a != 1000000+i || c != 1 {
				add("inverse transform", "failed", fmt.Sprintf("coefficient %d depends on the previous content at %d", i, a-1000000))
				return
			}
		}
		if kind != "inverse" && nat != 1 || x.c != 0 {
			add("inverse transform", "failed", fmt.Sprintf("coefficient %d loses the previous content", i))
			return
		}
		if len(x.conv) != 1 || x.conv[0].k != sign {
			add("inverse transform", "failed", fmt.Sprintf("coefficient %d: %d rounded terms", i, len(x.conv)))
			return
		}
		w := x.conv[0].v
		for s, k := range rt.k {
			j := ((2*k + 1) * i) % (2 * N)
			re, im := 2/float64(N)*ctab[j], 2/float64(N)*stab[j]
			if !(math.Abs(w[slotRe(s)]-re) <= fftTol/float64(N)*2) || !(math.Abs(w[slotIm(s)]-im) <= fftTol/float64(N)*2) {
				add("inverse transform", "failed", fmt.Sprintf("coefficient %d, slot %d: weight (%.9g,%.9g), the inverse of the forward transform needs (%.9g,%.9g)", i, s, w[slotRe(s)], w[slotIm(s)], re, im))
				return
			}
		}
		add("inverse transform", "proved", "")
	}
}

func (v *Verifier) checkPointwise(kind string, c *Contract, regs map[string]*creg, N int, al map[string]string, add func(a, b, c string)) {
	// atoms are numbered in parameter order
	at := map[string]int{}
	n := 0
	for _, p := range c.Params[1:] {
		if al[p] != "" {
			at[p] = at[al[p]]
			continue
		}
		at[p] = n
		n += len(regs[p].el)
	}
	out := c.Params[len(c.Params)-1]
	atom := func(p string, i int) *sflt { return &sflt{m: map[mono]float64{{int32(at[p] + i + 1), 0}: 1}} }
	ci := &cinterp{n: N}
	names := c.Params[1 : len(c.Params)-1]
	for s := 0; s < N/2; s++ {
		r, m := slotRe(s), slotIm(s)
		var wr, wi *sflt
		or, oi := atom(out, r), atom(out, m)
		a := names[0]
		ar, ai := atom(a, r), atom(a, m)
		var br, bi *sflt
		if kind == "scale" || kind == "scaleadd" {
			br, bi = atom(names[1], 0), &sflt{}
		} else {
			br, bi = atom(names[1], r), atom(names[1], m)
		}
		pr := ci.lin(ci.mulS(ar, br), 1, ci.mulS(ai, bi), -1)
		pi := ci.lin(ci.mulS(ar, bi), 1, ci.mulS(ai, br), 1)
		switch kind {
		case "add":
			wr, wi = ci.lin(ar, 1, br, 1), ci.lin(ai, 1, bi, 1)
		case "sub":
			wr, wi = ci.lin(ar, 1, br, -1), ci.lin(ai, 1, bi, -1)
		case "mul", "scale":
			wr, wi = pr, pi
		case "muladd", "scaleadd":
			wr, wi = ci.lin(or, 1, pr, 1), ci.lin(oi, 1, pi, 1)
		case "mulsub":
			wr, wi = ci.lin(or, 1, pr, -1), ci.lin(oi, 1, pi, -1)
		default:
			add("pointwise", "unknown", "no meaning for "+kind)
			return
		}
		for k, w := range []*sflt{wr, wi} {
			i := []int{r, m}[k]
			if msg := sameSparse(regs[out].el[i], w); msg != "" {
				add(fmt.Sprintf("slot value (%s)", kind), "failed", fmt.Sprintf("element %d of the output (slot %d): %s", i, s, msg))
				return
			}
			add(fmt.Sprintf("slot value (%s)", kind), "proved", "")
		}
	}
}

func sameSparse(got cval, want *sflt) string {
	g, ok := got.(*sflt)
	if !ok {
		return fmt.Sprintf("constant %v", got)
	}
	if g.c != want.c || g.v != nil || g.r != nil {
		return "not a polynomial of the inputs"
	}
	keys := map[mono]bool{}
	for k := range g.m {
		keys[k] = true
	}
	for k := range want.m {
		keys[k] = true
	}
	var ks []mono
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i][0] < ks[j][0] || ks[i][0] == ks[j][0] && ks[i][1] < ks[j][1] })
	for _, k := range ks {
		if g.m[k] != want.m[k] {
			return fmt.Sprintf("coefficient %g of input elements (%d,%d), expected %g", g.m[k], k[0]-1, k[1]-1, want.m[k])
		}
	}
	return ""
}
