package main

// The concrete-control back end for lookup-table generation ("checked lut").
//
// For every message modulus m from 1 to the polynomial degree, the function's
// real SSA is executed with the concrete m of that run and with an arbitrary
// function f: every value f(x) is a symbol, and Encoder.Encode is applied
// through its contract (a symbol Encode(f(x)) for the encoder's modulus and
// scale).  The resulting table is then inspected at every rotation position:
// a position closer to message x than half a message step less two positions
// must select the symbol of f(x), negated in the second half turn; no entry may
// depend on the table's previous content.

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cfun is an arbitrary function parameter.
type cfun struct {
	id   string
	kind string // "torus" or "int"
}

// cres is a symbolic integer f(x).
type cres struct {
	id string
	x  int64
}

// atomID numbers the symbols of a run.
func (ci *cinterp) atomID(key interface{}) int {
	if ci.atoms == nil {
		ci.atoms = map[interface{}]int{}
		ci.atomNames = map[int]interface{}{}
	}
	k, ok := ci.atoms[key]
	if !ok {
		k = len(ci.atoms) + 1
		ci.atoms[key] = k
		ci.atomNames[k] = key
	}
	return k
}

func (ci *cinterp) sym(key interface{}) *sint {
	return &sint{atom: map[int]int64{ci.atomID(key): 1}}
}

func (ci *cinterp) global(g *ssa.Global) cval {
	if ci.globals == nil {
		ci.stop("unknown", "reads package variable %s", g.Name())
	}
	r, ok := ci.globals[g]
	if !ok {
		p := g.Pkg
		if p == nil || !strings.HasPrefix(p.Pkg.Path(), modPath) {
			ci.stop("unknown", "reads variable %s of another module", g.Name())
		}
		for _, m := range p.Members {
			if x, ok := m.(*ssa.Global); ok {
				z := ci.zero(x.Type().Underlying().(*types.Pointer).Elem())
				if a, ok := z.(*creg); ok {
					ci.globals[x] = a
				} else {
					ci.globals[x] = &creg{el: []cval{z}, name: "package variable " + x.Name()}
				}
			}
		}
		if f := p.Func("init"); f != nil {
			ci.call(f, nil, nil)
		}
		if x, ok := p.Members["CurrentSecurityLevel"].(*ssa.Global); ok && p.Pkg.Name() == "params" {
			ci.globals[x].el[0] = ci.levelNo
		}
		r = ci.globals[g]
	}
	if _, agg := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); agg {
		return cptr{r: r, n: -1, whole: true}
	}
	if _, agg := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); agg {
		return cptr{r: r, n: -1, whole: true}
	}
	return cptr{r: r}
}

// applyFun is a call of an arbitrary function at a known argument.
func (ci *cinterp) applyFun(f cfun, a []cval) cval {
	if len(a) != 1 {
		ci.stop("unknown", "function parameter called with %d arguments", len(a))
	}
	x, ok := a[0].(int64)
	if !ok {
		ci.stop("unknown", "function parameter called on a symbolic value")
	}
	if f.kind == "torus" {
		return ci.sym(valAtom{f.id, x})
	}
	return &cres{f.id, x}
}

// encode is Encoder.Encode through its contract.
func (ci *cinterp) encode(fn *ssa.Function, a []cval) (cval, bool) {
	if fn.Name() != "Encode" && fn.Name() != "EncodeWithCustomScale" || len(a) < 2 {
		return nil, false
	}
	nm := fn.String()
	if !strings.Contains(nm, "lut.Encoder)") {
		return nil, false
	}
	r, ok := a[1].(*cres)
	if !ok {
		return nil, false
	}
	p, ok := a[0].(cptr)
	if !ok || p.r == nil || len(p.r.el) < 2 {
		return nil, false
	}
	st, ok := fn.Params[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	var m, s cval
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "MessageModulus":
			m = p.r.el[i]
		case "Scale":
			s = p.r.el[i]
		}
	}
	switch {
	case strings.HasSuffix(nm, ".EncodeWithCustomScale") && len(a) == 3:
		s = a[2]
		ci.e.useKey("lut.(*Encoder).EncodeWithCustomScale")
	case strings.HasSuffix(nm, ".Encode") && len(a) == 2:
		ci.e.useKey("lut.(*Encoder).Encode")
	default:
		return nil, false
	}
	return ci.sym(encAtom{r.id, r.x, m, s}), true
}

type encAtom struct {
	id   string
	x    int64
	m, s cval
}

func (k encAtom) String() string {
	return fmt.Sprintf("Encode[modulus %v, scale %v](%s(%d))", k.m, k.s, k.id, k.x)
}

type valAtom struct {
	id string
	x  int64
}

func (k valAtom) String() string { return fmt.Sprintf("%s(%d)", k.id, k.x) }

func (ci *cinterp) show(v cval) string {
	switch y := v.(type) {
	case int64:
		return fmt.Sprint(y)
	case *sint:
		var ks []int
		for k, c := range y.atom {
			if c != 0 {
				ks = append(ks, k)
			}
		}
		sort.Ints(ks)
		s := ""
		if y.c != 0 {
			s = fmt.Sprint(y.c)
		}
		for _, k := range ks {
			s += fmt.Sprintf(" %+d*%v", y.atom[k], ci.atomNames[k])
		}
		return strings.TrimSpace(s)
	}
	return fmt.Sprintf("%T", v)
}

// isSym: v == k*atom.
func (ci *cinterp) isSym(v cval, key interface{}, k int64) bool {
	y, ok := v.(*sint)
	if !ok || uint32(y.c) != 0 || len(y.conv) != 0 {
		return false
	}
	id := ci.atomID(key)
	for a, c := range y.atom {
		if a == id {
			if uint32(c) != uint32(k) {
				return false
			}
		} else if uint32(c) != 0 {
			return false
		}
	}
	return uint32(y.atom[id]) == uint32(k)
}

func deepCopy(v cval, seen map[*creg]*creg) cval {
	switch x := v.(type) {
	case *creg:
		if x == nil {
			return x
		}
		if o, ok := seen[x]; ok {
			return o
		}
		o := &creg{el: make([]cval, len(x.el))}
		seen[x] = o
		for i, y := range x.el {
			o.el[i] = deepCopy(y, seen)
		}
		return o
	case cptr:
		if x.r != nil {
			x.r = deepCopy(x.r, seen).(*creg)
		}
		return x
	case cslice:
		if x.r != nil {
			x.r = deepCopy(x.r, seen).(*creg)
		}
		return x
	}
	return v
}

// sameDeep compares a value with an earlier snapshot of it.
func sameDeep(a, b cval, seen map[*creg]bool) bool {
	switch x := a.(type) {
	case *creg:
		y, ok := b.(*creg)
		if !ok || len(x.el) != len(y.el) {
			return false
		}
		if seen[x] {
			return true
		}
		seen[x] = true
		for i := range x.el {
			if !sameDeep(x.el[i], y.el[i], seen) {
				return false
			}
		}
		return true
	case cptr:
		y, ok := b.(cptr)
		if !ok || (x.r == nil) != (y.r == nil) || x.off != y.off {
			return false
		}
		return x.r == nil || sameDeep(x.r, y.r, seen)
	case cslice:
		y, ok := b.(cslice)
		if !ok || (x.r == nil) != (y.r == nil) || x.off != y.off || x.len != y.len {
			return false
		}
		return x.r == nil || sameDeep(x.r, y.r, seen)
	case *sint, *cres, cfun:
		return a == b
	case cclos:
		y, ok := b.(cclos)
		return ok && x.fn == y.fn
	}
	return a == b
}

func regsOf(v cval, seen map[*creg]bool) {
	switch x := v.(type) {
	case *creg:
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		for _, y := range x.el {
			regsOf(y, seen)
		}
	case cptr:
		if x.r != nil {
			regsOf(x.r, seen)
		}
	case cslice:
		if x.r != nil {
			regsOf(x.r, seen)
		}
	case cclos:
		for _, y := range x.bind {
			regsOf(y, seen)
		}
	}
}

// tableOf: the mask and body slices of a *LookUpTable.
func (ci *cinterp) tableOf(v cval) (cslice, cslice) {
	bad := func() { ci.stop("unknown", "lookup table has an unexpected shape") }
	p, ok := v.(cptr)
	if !ok || p.r == nil {
		ci.stop("failed", "no lookup table was returned")
	}
	q, ok := p.r.el[0].(cptr)
	if !ok || q.r == nil || len(q.r.el) != 2 {
		bad()
	}
	a, ok1 := q.r.el[0].(cslice)
	b, ok2 := q.r.el[1].(cslice)
	if !ok1 || !ok2 {
		bad()
	}
	return a, b
}

type lutRunRes struct {
	ci  *cinterp
	bad []fftErr
	msg []string // failed conditions
}

// lutRun generates two tables for modulus m with one generator and checks them.
func (v *Verifier) lutRun(c *Contract, fn *ssa.Function, N int, m int64, lvl int64, scaled bool) (res lutRunRes) {
	ci := &cinterp{e: v.e, n: 0, globals: map[*ssa.Global]*creg{}, levelNo: lvl}
	res.ci = ci
	defer func() {
		if r := recover(); r != nil {
			if fe, ok := r.(fftErr); ok {
				res.bad = append(res.bad, fe)
				return
			}
			res.bad = append(res.bad, fftErr{"unknown", fmt.Sprint("interpreter: ", r)})
		}
	}()
	find := func(k string) *ssa.Function {
		f := v.e.findFunc(k)
		if f == nil {
			ci.stop("unknown", "%s not found", k)
		}
		v.e.useKey(k)
		return f
	}
	custom := false
	for i, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && i > 0 && b.Info()&types.IsInteger != 0 {
			custom = true
		}
	}
	scale := 1.0 / float64(2*m)
	if scaled {
		scale = 0.37 / float64(m)
	}
	var g cval
	switch {
	case custom:
		g = ci.call(find("lut.NewGenerator"), []cval{int64(2)}, nil)
	case scaled:
		g = ci.call(find("lut.NewGeneratorWithScale"), []cval{m, scale}, nil)
	default:
		g = ci.call(find("lut.NewGenerator"), []cval{m}, nil)
	}
	snap := deepCopy(g, map[*creg]*creg{})
	newLut := find("lut.NewLookUpTable")
	torus := false
	gen := func(id string) cval {
		var args []cval
		var out cval
		for i, p := range fn.Params {
			t := p.Type()
			if i == 0 {
				args = append(args, g)
				continue
			}
			switch u := t.Underlying().(type) {
			case *types.Signature:
				k := "int"
				if b, ok := u.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint32 {
					k = "torus"
					torus = true
				}
				args = append(args, cfun{id, k})
			case *types.Basic:
				if u.Info()&types.IsFloat != 0 {
					args = append(args, scale)
				} else {
					args = append(args, m)
				}
			case *types.Pointer:
				out = ci.call(newLut, nil, nil)
				for _, s := range func() []cslice { a, b := ci.tableOf(out); return []cslice{a, b} }() {
					for k := 0; k < s.len; k++ {
						s.r.el[s.off+k] = ci.sym("previous content")
					}
				}
				args = append(args, out)
			default:
				ci.stop("unknown", "parameter of type %s", t)
			}
		}
		r := ci.call(fn, args, nil)
		if out == nil {
			out = r
		}
		return out
	}
	fail := func(f string, a ...interface{}) {
		if len(res.msg) < 4 {
			res.msg = append(res.msg, fmt.Sprintf(f, a...))
		}
	}
	t1 := gen("f")
	t2 := t1
	twice := m <= 64 || m%16 == 0 || m >= int64(N)-1
	if twice {
		t2 = gen("h")
	}
	if !sameDeep(g, snap, map[*creg]bool{}) {
		fail("the generator is changed")
	}
	r1, r2, rg := map[*creg]bool{}, map[*creg]bool{}, map[*creg]bool{}
	regsOf(t1, r1)
	regsOf(t2, r2)
	regsOf(g, rg)
	for _, r := range ci.globals {
		regsOf(r, rg)
	}
	for r := range r1 {
		if twice && r2[r] {
			fail("two generated tables share storage")
			break
		}
		if rg[r] {
			fail("a generated table shares storage with the generator or a package variable")
			break
		}
	}
	for i, t := range []cval{t1, t2} {
		if i == 1 && !twice {
			continue
		}
		id := []string{"f", "h"}[i]
		a, b := ci.tableOf(t)
		if a.len != N || b.len != N {
			fail("table has %d and %d coefficients, not %d", a.len, b.len, N)
			continue
		}
		for k := 0; k < N; k++ {
			if x, ok := a.r.el[a.off+k].(int64); !ok || x != 0 {
				fail("mask coefficient %d is %s, not 0", k, ci.show(a.r.el[a.off+k]))
				break
			}
		}
		for k := 0; k < N; k++ {
			if x, ok := b.r.el[b.off+k].(*sint); ok && x.atom[ci.atomID("previous content")] != 0 {
				fail("entry %d keeps the table's previous content", k)
				break
			}
		}
		n := int64(N)
		for x := int64(0); x < m; x++ {
			var key interface{} = encAtom{id, x, m, scale}
			if torus {
				key = valAtom{id, x}
			}
			// |p - xN/m| <= N/(2m) - 2
			lo := -floorDiv(-((2*x-1)*n + 4*m), 2*m)
			hi := floorDiv((2*x+1)*n-4*m, 2*m)
			for p := lo; p <= hi; p++ {
				q, sgn := p, int64(1)
				if q < 0 {
					q, sgn = q+n, -1
				}
				if !ci.isSym(b.r.el[b.off+int(q)], key, sgn) {
					fail("rotation position %d (message %d, modulus %d): entry %d is %s, expected %+d*%v", p, x, m, q, ci.show(b.r.el[b.off+int(q)]), sgn, key)
					break
				}
			}
		}
	}
	return
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (e *Engine) useKey(k string) {
	if e.used != nil {
		e.used[k] = true
	}
}

func (v *Verifier) verifyLUT(c *Contract) {
	e := v.e
	fn := e.findFunc(c.Key)
	if fn == nil {
		if c.Aux {
			return
		}
		e.obls = append(e.obls, &Obligation{Name: c.Key + "@" + v.level + " :: function present", Status: "unknown", Detail: "function not found"})
		e.failed++
		return
	}
	num := func(x string) int64 {
		var r int64 = -1
		e.guard(func() {
			if t, ok := v.env(v.base.Clone(), nil).eval(parseExpr(x, "lut")).V.(*Term); ok {
				if k, ok := t.Int(); ok {
					r = k
				}
			}
		})
		return r
	}
	N, lvl := num("N"), num("level()")
	run := func(m int64, scaled bool) bool {
		v.inst++
		label := fmt.Sprintf("%s{m=%d", c.Key, m)
		if scaled {
			label += " own scale"
		}
		label += "}@" + v.level
		add := func(name, status, detail string) {
			o := &Obligation{Name: label + " :: " + name, Status: status, Detail: detail}
			if status == "proved" {
				o.How = "linear"
			} else {
				e.failed++
			}
			e.obls = append(e.obls, o)
		}
		r := v.lutRun(c, fn, int(N), m, lvl, scaled)
		for _, b := range r.bad {
			add("execution", b.status, b.msg)
		}
		if len(r.bad) > 0 {
			return false
		}
		add("executes without panic", "proved", "")
		for _, s := range r.msg {
			add("table", "failed", s)
		}
		if len(r.msg) > 0 {
			return false
		}
		add("every rotation position selects its message's value", "proved", "")
		add("mask zero, entries independent of the previous content, generator unchanged, storage private", "proved", "")
		return true
	}
	if N <= 0 || lvl < 0 {
		e.obls = append(e.obls, &Obligation{Name: c.Key + "@" + v.level + " :: level", Status: "unknown", Detail: "level or degree unknown"})
		e.failed++
		return
	}
	defer debug.SetGCPercent(debug.SetGCPercent(400))
	nbad := 0
	for m := int64(1); m <= N && nbad < 3; m++ {
		if !run(m, false) {
			nbad++
		}
		if m <= 9 || m == N/2 || m == N {
			if !run(m, true) {
				nbad++
			}
		}
	}
}
