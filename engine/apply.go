package main

// Conditions under which a contract may replace a call: the callee's memory
// assumptions (operands do not share memory except in the combinations the
// contract was verified for, receivers look like freshly constructed ones).

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modSet: the objects the modifies/except clauses of a contract allow to be written.
func (n *Env) modSet(c *Contract) map[*Obj]bool {
	s := map[*Obj]bool{}
	for _, m := range c.Mod {
		for o := range n.e.reach(n.st, n.eval(m.X).V) {
			if m.Except {
				delete(s, o)
			} else {
				s[o] = true
			}
		}
	}
	return s
}

func (v *Verifier) separate(st *State, n *Env, c *Contract, fn *ssa.Function, args []Value, mod map[*Obj]bool, where string) {
	e := v.e
	if c.Assume != "" {
		return
	}
	for _, r := range c.Req {
		if strings.Contains(r.Text, "disjoint(") {
			return
		}
	}
	if len(c.With) > 0 {
		var scal []scalRef
		for i, p := range c.Params {
			if w := c.With[p]; w != nil {
				n.like(args[i], fn.Params[i].Type(), w, "receiver of "+where+" is well formed", p)
				scal = append(scal, e.scalars(n.st, args[i], fn.Params[i].Type(), p)...)
			}
		}
		v.applyState(st, c, scal, where)
	}
	rs := make([]map[*Obj]bool, len(args))
	for i := range args {
		switch fn.Params[i].Type().Underlying().(type) {
		case *types.Pointer, *types.Slice:
			rs[i] = e.reach(n.st, args[i])
		}
	}
	idx := map[string]int{}
	for i, p := range c.Params {
		idx[p] = i
	}
	// does one of the verified alias combinations describe this call?
	covered := func(i, j int) bool {
		for _, al := range c.Alias {
			for _, f := range strings.Fields(al) {
				k := strings.Index(f, "=")
				if f[:k] != c.Params[j] && f[:k] != c.Params[i] {
					continue
				}
				t := args[idx[f[:k]]]
				if a, ok := idx[f[k+1:]]; ok {
					if (a == i || a == j) && sameVal(t, args[a]) {
						return true
					}
					continue
				}
				var sv SV
				if e.guard(func() { sv = n.eval(parseExpr(f[k+1:], c.Pos)) }) == "" && sameVal(t, sv.V) {
					return true
				}
			}
		}
		return false
	}
	for i := range args {
		for j := i + 1; j < len(args); j++ {
			if rs[i] == nil || rs[j] == nil {
				continue
			}
			var hit *Obj
			for o := range rs[i] {
				if rs[j][o] && mod[o] {
					hit = o
				}
			}
			if hit != nil && !covered(i, j) {
				e.fail(fmt.Sprintf("operands %s and %s of %s do not share memory", c.Params[i], c.Params[j], where), "both reach "+hit.Name)
			}
		}
	}
	e.pass("operands separated in "+where, "normal form")
}

// like: the value has the structure (buffer dimensions, sharing) of a freshly
// constructed one; contents of numeric arrays and scalar fields are arbitrary.
func (n *Env) like(val Value, t types.Type, w ast.Expr, name, root string) string {
	e := n.e
	sv := e.save()
	e.quiet++
	st2 := n.st.Clone()
	m := *n
	m.st = st2
	var fresh Value
	err := e.guard(func() { fresh = m.ctor(w, st2) })
	e.quiet--
	e.restore(sv)
	if err != "" {
		panic(specErr{"like: " + err})
	}
	bij := map[*Obj]*Obj{}
	back := map[*Obj]*Obj{}
	msg := ""
	bad := func(f string, a ...interface{}) {
		if msg == "" {
			msg = fmt.Sprintf(f, a...)
		}
	}
	pair := func(a, b *Obj, at string) bool {
		if x, ok := bij[a]; ok || back[b] != nil {
			if x != b || back[b] != a {
				bad("%s: buffers shared differently from a fresh one (%s / %s)", at, a.Name, b.Name)
			}
			return false
		}
		bij[a], back[b] = b, a
		return true
	}
	var walk func(a, b *Ptr, t types.Type, at string)
	var cmp func(a, b Value, t types.Type, at string)
	cmp = func(a, b Value, t types.Type, at string) {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			pa, ok1 := a.(*Ptr)
			pb, ok2 := b.(*Ptr)
			if !ok1 || !ok2 || pa.Obj == nil || pb.Obj == nil {
				if ok1 && ok2 && pa.Obj == nil && pb.Obj == nil || sameVal(a, b) {
					return
				}
				bad("%s: pointer differs", at)
				return
			}
			first := pair(pa.Obj, pb.Obj, at)
			if fmt.Sprint(len(pa.Path)) != fmt.Sprint(len(pb.Path)) || !samePath(pa.Path, pb.Path) {
				bad("%s: pointer path differs", at)
			}
			if first && msg == "" {
				walk(pa, pb, u.Elem(), at)
			}
		case *types.Slice:
			sa, ok1 := a.(*Slice)
			sb, ok2 := b.(*Slice)
			if !ok1 || !ok2 || sa.Obj == nil || sb.Obj == nil {
				if ok1 && ok2 && sa.Obj == nil && sb.Obj == nil || sameVal(a, b) {
					return
				}
				bad("%s: slice differs", at)
				return
			}
			if sa.Len != sb.Len || sa.Off != sb.Off || sa.Cap != sb.Cap || !samePath(sa.Path, sb.Path) {
				bad("%s: length %v, a fresh one has %v", at, sa.Len, sb.Len)
				return
			}
			if !pair(sa.Obj, sb.Obj, at) {
				return
			}
			if bt, ok := u.Elem().Underlying().(*types.Basic); ok && bt.Info()&types.IsNumeric != 0 {
				return
			}
			k, ok := sa.Len.Int()
			if !ok || k > 4096 {
				bad("%s: unbounded", at)
				return
			}
			for i := int64(0); i < k && msg == ""; i++ {
				walk(sa.elemPtr(Int(i)), sb.elemPtr(Int(i)), u.Elem(), fmt.Sprintf("%s[%d]", at, i))
			}
		default:
			if !sameVal(a, b) {
				bad("%s: differs", at)
			}
		}
	}
	walk = func(a, b *Ptr, t types.Type, at string) {
		if msg != "" {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(a.field(i), b.field(i), u.Field(i).Type(), at+"."+u.Field(i).Name())
			}
			return
		case *types.Array:
			if bt, ok := u.Elem().Underlying().(*types.Basic); ok && bt.Info()&types.IsNumeric != 0 {
				return
			}
			for i := int64(0); i < u.Len(); i++ {
				walk(a.index(Int(i)), b.index(Int(i)), u.Elem(), fmt.Sprintf("%s[%d]", at, i))
			}
			return
		}
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			return
		}
		x := e.load(n.st, a, t, "like")
		y := e.load(st2, b, t, "like")
		cmp(x, y, t, at)
	}
	e.quiet++
	err = e.guard(func() { cmp(val, fresh, t, root) })
	e.quiet--
	if err != "" {
		bad("%s", err)
	}
	if name == "" {
		return msg
	}
	if msg != "" {
		e.fail(name, msg)
	} else {
		e.pass(name, "structure")
	}
	return msg
}

// scalRef: a scalar field of a receiver's object graph, by access path.
type scalRef struct {
	at string
	p  *Ptr
	t  types.Type
	v  Value
}

// startEnd: the scalar state of the constructed operands before and after the
// body, for one verified instance of a contract.
type startEnd struct {
	start, end map[string]Value
}

// scalars lists the scalar fields reachable from a value.
func (e *Engine) scalars(st *State, val Value, t types.Type, name string) []scalRef {
	var out []scalRef
	seen := map[*Obj]bool{}
	var walk func(a *Ptr, t types.Type, at string)
	var ref func(a Value, t types.Type, at string)
	ref = func(a Value, t types.Type, at string) {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if p, ok := a.(*Ptr); ok && p.Obj != nil && !seen[p.Obj] {
				seen[p.Obj] = true
				walk(p, u.Elem(), at)
			}
		case *types.Slice:
			s, ok := a.(*Slice)
			if !ok || s.Obj == nil || seen[s.Obj] {
				return
			}
			seen[s.Obj] = true
			if bt, ok := u.Elem().Underlying().(*types.Basic); ok && bt.Info()&types.IsNumeric != 0 {
				return
			}
			if k, ok := s.Len.Int(); ok && k <= 4096 {
				for i := int64(0); i < k; i++ {
					walk(s.elemPtr(Int(i)), u.Elem(), fmt.Sprintf("%s[%d]", at, i))
				}
			}
		}
	}
	walk = func(a *Ptr, t types.Type, at string) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(a.field(i), u.Field(i).Type(), at+"."+u.Field(i).Name())
			}
			return
		case *types.Array:
			if bt, ok := u.Elem().Underlying().(*types.Basic); ok && bt.Info()&types.IsNumeric != 0 {
				return
			}
			for i := int64(0); i < u.Len(); i++ {
				walk(a.index(Int(i)), u.Elem(), fmt.Sprintf("%s[%d]", at, i))
			}
			return
		case *types.Basic:
			if u.Info()&(types.IsInteger|types.IsBoolean) != 0 {
				out = append(out, scalRef{at, a, t, e.load(st, a, t, "scalars")})
			}
			return
		}
		ref(e.load(st, a, t, "scalars"), t, at)
	}
	e.quiet++
	tr := e.tracking
	e.tracking = nil
	ref(val, t, name)
	e.tracking = tr
	e.quiet--
	return out
}

// tracker notes which scalar fields a body reads before writing them.
type tracker struct {
	keys map[RegKey]string
	pre  *Heap
	read map[string]bool
}

func (e *Engine) trackRead(st *State, k RegKey) {
	at, ok := e.tracking.keys[k]
	if ok && st.heap.Get(k) == e.tracking.pre.Get(k) {
		e.tracking.read[at] = true
	}
}

// beginTrack / endTrack surround the execution of a body under contract.
func (v *Verifier) beginTrack(c *Contract, fn *ssa.Function, args []Value, st *State) func(post *State) {
	e := v.e
	tr := &tracker{keys: map[RegKey]string{}, pre: st.heap.Clone(), read: map[string]bool{}}
	se := &startEnd{map[string]Value{}, map[string]Value{}}
	for i, p := range c.Params {
		if c.With[p] == nil {
			continue
		}
		for _, r := range e.scalars(st, args[i], fn.Params[i].Type(), p) {
			k, _ := e.region(st, r.p)
			tr.keys[k] = r.at
			se.start[r.at] = r.v
		}
	}
	e.tracking = tr
	return func(post *State) {
		e.tracking = nil
		for i, p := range c.Params {
			if c.With[p] == nil {
				continue
			}
			for _, r := range e.scalars(post, args[i], fn.Params[i].Type(), p) {
				se.end[r.at] = r.v
			}
		}
		// the start value matters only where the body reads it
		for at, x := range se.start {
			if !tr.read[at] {
				delete(se.start, at)
				if y, ok := se.end[at]; ok && sameVal(x, y) {
					delete(se.end, at)
				}
			}
		}
		c.States = append(c.States, se)
	}
}

// applyState finds the verified instance that matches the scalar state at a call
// and performs its scalar effect.
func (v *Verifier) applyState(st *State, c *Contract, scal []scalRef, where string) {
	e := v.e
	if len(c.States) == 0 {
		v.need = c.Key
		unsupported("%s must be verified before it is used", c.Key)
	}
	for _, se := range c.States {
		ok := true
		for _, r := range scal {
			if x, in := se.start[r.at]; in && !sameVal(x, r.v) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		for _, r := range scal {
			if y, in := se.end[r.at]; in && !sameVal(y, r.v) {
				t, isT := y.(*Term)
				if !isT || !t.IsConst() {
					unsupported("%s leaves %s in a state that is not constant", c.Key, r.at)
				}
				e.store(st, r.p, y, r.t, True, "contract")
			}
		}
		e.pass("state covered by the contract of "+where, "structure")
		return
	}
	e.fail("the contract of "+where+" covers the state of its receiver", "no verified instance starts in this state")
}

// objSet is a set of objects as a specification value.
type objSet map[*Obj]bool

// tables: the precomputed tables of every polynomial evaluator reachable from v,
// i.e. the numeric slices held directly in a poly.Evaluator.  They may be shared
// between evaluators because no function under contract writes them.
func (n *Env) tables(v Value) objSet {
	out := objSet{}
	for o := range n.e.reach(n.st, v) {
		for _, s := range n.tableSlices(o) {
			out[s.Obj] = true
		}
	}
	return out
}

func (n *Env) tableSlices(o *Obj) []*Slice {
	e := n.e
	ev := e.pkgs["poly"].Type("Evaluator")
	if ev == nil || o.Typ == nil || o.IsArr || !types.Identical(types.Unalias(o.Typ), ev.Type()) {
		return nil
	}
	var out []*Slice
	u := ev.Type().Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		sl, ok := u.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Info()&types.IsNumeric == 0 {
			continue
		}
		if s, ok := e.load(n.st, (&Ptr{Obj: o, Fam: o.Home}).field(i), u.Field(i).Type(), "tables").(*Slice); ok && s.Obj != nil {
			out = append(out, s)
		}
	}
	return out
}

// sameTables: the tables of two polynomial evaluators hold the same numbers.
func (n *Env) sameTables(a, b Value) bool {
	pa, ok1 := a.(*Ptr)
	pb, ok2 := b.(*Ptr)
	if !ok1 || !ok2 || pa.Obj == nil || pb.Obj == nil {
		return false
	}
	x, y := n.tableSlices(pa.Obj), n.tableSlices(pb.Obj)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		s, t := x[i], y[i]
		if s.Obj == t.Obj && s.Off == t.Off && s.Len == t.Len {
			continue
		}
		if s.Len != t.Len || s.Off != t.Off {
			return false
		}
		j := NewRVar("j", BV64, 0, 1<<32)
		if !sameVal(n.st.content(RegKey{s.Obj, "[]"}).Read([]*Term{j}), n.st.content(RegKey{t.Obj, "[]"}).Read([]*Term{j})) {
			return false
		}
	}
	return true
}

// shares: two values of the same type hold a common pointer or slice.
func (n *Env) shares(a, b Value, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		r := n.e.eqVal(n.st, a, b)
		pa, ok1 := a.(*Ptr)
		pb, ok2 := b.(*Ptr)
		if st, ok := u.Elem().Underlying().(*types.Struct); ok && ok1 && ok2 && pa.Obj != nil && pb.Obj != nil {
			for i := 0; i < st.NumFields(); i++ {
				ft := st.Field(i).Type()
				switch ft.Underlying().(type) {
				case *types.Pointer, *types.Slice:
					r = Or(r, n.shares(n.load(pa.field(i), ft), n.load(pb.field(i), ft), ft))
				}
			}
		}
		return r
	case *types.Slice:
		sa, ok1 := a.(*Slice)
		sb, ok2 := b.(*Slice)
		if !ok1 || !ok2 {
			return True
		}
		if sa.Obj == nil || sb.Obj == nil {
			return False
		}
		return n.e.eqVal(n.st, &Ptr{Obj: sa.Obj, Fam: sa.Fam}, &Ptr{Obj: sb.Obj, Fam: sb.Fam})
	}
	return False
}
