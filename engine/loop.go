package main

// Loop rule.  A counted loop is replaced by the closed form of its effect:
// induction variables, accumulations (sums), element-wise writes and last
// values, found by executing the real body at a symbolic iteration t and
// checked by executing it again from the closed form (initiation holds by
// construction, consecution is compared).  Loops outside this class are
// executed iteration by iteration (trip counts are concrete at a fixed
// security level), which is complete as well.

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const unrollBelow = 16

func (e *Engine) unrollLim() int64 {
	if e.unroll > 0 {
		return e.unroll
	}
	return unrollBelow
}

type forced struct {
	stay int
	exit bool
	cond *Term
}

func (e *Engine) loopStops(l *Loop, stops map[*ssa.BasicBlock]bool) map[*ssa.BasicBlock]bool {
	ns := map[*ssa.BasicBlock]bool{l.H: true}
	for k := range stops {
		ns[k] = true
	}
	for b := range l.Blocks {
		for _, s := range b.Succs {
			if !l.Blocks[s] {
				ns[s] = true
			}
		}
	}
	return ns
}

func (e *Engine) execLoop(fr *Frame, st *State, l *Loop, prev *ssa.BasicBlock, phis []Value, stops map[*ssa.BasicBlock]bool) []*Exit {
	why := "disabled"
	if e.noSum == 0 {
		var outs []*Exit
		if outs, why = e.trySum(fr, st, l, prev, phis, stops); why == "" {
			return outs
		}
		if lv := os.Getenv("GOVC_LOOP"); lv == "2" || lv != "" && e.quiet == 0 {
			fmt.Fprintf(os.Stderr, "loop %s b%d: %s\n", fr.fn, l.H.Index, why)
		}
	}
	ns := e.loopStops(l, stops)
	cur := &Exit{cond: True, st: st, at: l.H, prev: prev, phis: phis}
	var outs []*Exit
	name := why != "few iterations" && e.preHeap != nil
	mark := e.preHeap
	if name {
		nameArrays(st, mark)
		mark = st.heap.Clone()
	}
	open := 0
	if l.hasGo && e.quiet == 0 {
		e.logging++
	}
	for it := 0; ; it++ {
		if os.Getenv("GOVC_IT") != "" {
			fmt.Fprintln(os.Stderr, fr.fn, it, cur.phis, len(outs))
		}
		if it > 200000 {
			unsupported("loop in %s does not terminate within the unrolling limit (%s)", fr.fn, why)
		}
		exits := e.run(fr, cur.st, l.H, cur.prev, cur.phis, ns, l)
		var backs []*Exit
		n := 0
		for _, o := range exits {
			if o.at == l.H {
				backs = append(backs, o)
				continue
			}
			n++
			o.cond = And(cur.cond, o.cond)
			outs = append(outs, o)
		}
		if len(backs) == 0 {
			break
		}
		if n > 0 {
			if open++; open > 130 {
				unsupported("loop in %s: exit undecided (%s)", fr.fn, why)
			}
		}
		m := e.merge(backs)
		m.cond = And(cur.cond, m.cond)
		cur = m
		if name {
			nameArrays(cur.st, mark)
			stateSeq++
			cur.st.id = stateSeq
			mark = cur.st.heap.Clone()
		}
	}
	return outs
}

// nameArrays abbreviates the large arrays written since mark (see compress).
func nameArrays(st *State, mark *Heap) {
	for _, k := range st.heap.Diff(mark) {
		c := st.heap.Get(k)
		if c == nil || c.W == nil || !wholeWrite(k, c) {
			if os.Getenv("GOVC_NAME") != "" && c != nil {
				fmt.Fprintln(os.Stderr, "unnamed", k.Obj.Name, k.Path, c.W != nil, c.Dense != nil, len(k.Obj.Home), c.depth)
				if c.W != nil {
					fmt.Fprintln(os.Stderr, "   ", c.W.Vars, c.W.N, c.W.Guard, c.W.Dims, k.Obj.Len, c.W.Val)
				}
			}
			continue
		}
		v, ok := c.W.Val.(*Term)
		if !ok || c.W.Vars[0].Op != OVar {
			continue
		}
		x := c.W.Vars[0]
		l := Lam(x, c.W.N[0], v)
		if a := nameState(l); a != l {
			st.heap.Set(k, &Content{Prev: c.Prev, W: &MapWrite{Vars: c.W.Vars, N: c.W.N, Guard: True, Dims: c.W.Dims, Val: Select(a, x)}})
		}
	}
}

// ---- summarisation ----------------------------------------------------------

type regInfo struct {
	key    RegKey
	id     int
	uname  string
	sort   Sort
	scalar bool // leaf is a scalar sort
	cplx   bool
	closed *Content    // closed form: content after t iterations (t free)
	layers []*MapWrite // derived per-iteration writes
	accs   []accInfo
	u      *Content
}
type accInfo struct {
	w *MapWrite
	f Value // per-iteration increment (nil: last value)
}

var uSeq int

func (e *Engine) trySum(fr *Frame, st0 *State, l *Loop, prev *ssa.BasicBlock, phis0 []Value, stops map[*ssa.BasicBlock]bool) (outs []*Exit, why string) {
	iff, ok := l.H.Instrs[len(l.H.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, "header has no test"
	}
	_ = iff
	stay, out := -1, -1
	for i, s := range l.H.Succs {
		if l.Blocks[s] {
			stay = i
		} else {
			out = i
		}
	}
	if stay < 0 || out < 0 {
		return nil, "header is not the exit"
	}
	for b := range l.Blocks {
		if b == l.H {
			continue
		}
		for _, s := range b.Succs {
			if !l.Blocks[s] && fr.inf.ipdom[s] == nil && !isReturn(s) {
				continue // leads to a panic only
			}
			if !l.Blocks[s] {
				return nil, "exit inside the body"
			}
		}
	}
	sv := e.save()
	defer func() {
		if r := recover(); r != nil {
			delete(fr.force, l.H)
			e.restore(sv)
			if a, ok := r.(abort); ok {
				outs, why = nil, a.msg
				return
			}
			if a, ok := r.(specErr); ok {
				outs, why = nil, a.msg
				return
			}
			if _, ok := r.(deadPath); ok {
				outs, why = nil, "body always panics"
				return
			}
			panic(r)
		}
		if why != "" {
			e.restore(sv)
		}
	}()
	ls := &loopSum{e: e, fr: fr, st0: st0.Clone(), l: l, prev: prev, phis0: phis0, stay: stay, out: out, stops: e.loopStops(l, stops)}
	// trip count
	T := ls.staticTrip()
	if T == nil {
		ls.t = NewRVar("t", BV64, 0, 1<<40)
		T = ls.findTrip()
		if T == nil {
			return nil, "no trip count"
		}
	}
	if c, ok := T.Int(); ok && c <= e.unrollLim() && !(l.hasGo && c > 1) {
		return nil, "few iterations"
	}
	hi := int64(1) << 40
	if _, h, ok := T.srange(); ok {
		hi = h - 1
	}
	if hi < 0 {
		return nil, "few iterations"
	}
	ls.T = T
	ls.t = NewRVar("t", BV64, 0, hi)
	ls.reset()
	if w := ls.solve(); w != "" {
		return nil, w
	}
	return ls.finish()
}

func isReturn(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	return ok
}

type saved struct {
	homes                                     []*Term
	draw, quiet, nobl, failed, nacc, log, pos int
	norms                                     int
	task                                      *Task
	pending                                   []*Task
	nstack                                    int
}

func (e *Engine) save() saved {
	return saved{e.homes, e.drawSeq, e.quiet, len(e.obls), e.failed, len(e.accLog), e.logging, e.accPos, len(e.norms), e.task, e.pending, len(e.stack)}
}
func (e *Engine) restore(s saved) {
	e.homes, e.drawSeq, e.quiet, e.failed, e.logging, e.accPos = s.homes, s.draw, s.quiet, s.failed, s.log, s.pos
	e.obls = e.obls[:min(s.nobl, len(e.obls))]
	e.accLog = e.accLog[:min(s.nacc, len(e.accLog))]
	e.norms = e.norms[:min(s.norms, len(e.norms))]
	e.task, e.pending = s.task, s.pending
	e.stack = e.stack[:s.nstack]
}

type loopSum struct {
	e         *Engine
	fr        *Frame
	st0       *State
	l         *Loop
	prev      *ssa.BasicBlock
	phis0     []Value
	stay, out int
	stops     map[*ssa.BasicBlock]bool
	t, T      *Term
	closed    []Value // closed forms of the header phis at t
	uphi      []*Term
	regs      map[RegKey]*regInfo
	order     []*regInfo
	cond      *Term
	pcEnd     []*Term
	startSeq  int
	grew      bool
	why       string
}

func (ls *loopSum) reset() {
	ls.closed = make([]Value, len(ls.phis0))
	ls.uphi = make([]*Term, len(ls.phis0))
	for i, v := range ls.phis0 {
		if x, ok := v.(*Term); ok {
			ls.uphi[i] = NewVar("Uphi", x.S)
		}
	}
	ls.regs = map[RegKey]*regInfo{}
	ls.order = nil
	ls.startSeq = ls.e.objSeq
}

// staticTrip recognises i := a; i < n; i += c with invariant operands.
func (ls *loopSum) staticTrip() *Term {
	iff := ls.l.H.Instrs[len(ls.l.H.Instrs)-1].(*ssa.If)
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok || b.Block() != ls.l.H {
		return nil
	}
	lin := func(v ssa.Value) (*Term, int64, bool) { // value at iteration t = base + c*t
		add := int64(0)
		if bo, ok := v.(*ssa.BinOp); ok && bo.Op.String() == "+" && ls.l.Blocks[bo.Block()] {
			c, ok := bo.Y.(*ssa.Const)
			if !ok {
				return nil, 0, false
			}
			k, ok := ls.e.constVal(c).(*Term)
			if !ok {
				return nil, 0, false
			}
			add, _ = k.Int()
			v = bo.X
		}
		ph, ok := v.(*ssa.Phi)
		if !ok || ph.Block() != ls.l.H {
			return nil, 0, false
		}
		var idx int
		for i, in := range ls.l.H.Instrs {
			if in == ph {
				idx = i
			}
		}
		init, ok := ls.phis0[idx].(*Term)
		if !ok || init.S != BV64 {
			return nil, 0, false
		}
		step := int64(0)
		for i, p := range ls.l.H.Preds {
			if !ls.l.Blocks[p] {
				continue
			}
			bo, ok := ph.Edges[i].(*ssa.BinOp)
			if !ok || bo.X != ph {
				return nil, 0, false
			}
			c, ok := bo.Y.(*ssa.Const)
			if !ok {
				return nil, 0, false
			}
			k, _ := ls.e.constVal(c).(*Term)
			if k == nil {
				return nil, 0, false
			}
			v, _ := k.Int()
			switch bo.Op.String() {
			case "+":
			case "-":
				v = -v
			default:
				return nil, 0, false
			}
			if step != 0 && step != v {
				return nil, 0, false
			}
			step = v
		}
		return AddC(init, add), step, step != 0
	}
	var inv func(v ssa.Value) *Term
	inv = func(v ssa.Value) *Term {
		if bo, ok := v.(*ssa.BinOp); ok && ls.l.Blocks[bo.Block()] {
			x, y := inv(bo.X), inv(bo.Y)
			if x == nil || y == nil {
				return nil
			}
			switch bo.Op.String() {
			case "+":
				return Add(x, y)
			case "-":
				return Sub(x, y)
			case "*":
				return Mul(x, y)
			}
			return nil
		}
		if in, ok := v.(ssa.Instruction); ok && ls.l.Blocks[in.Block()] {
			return nil
		}
		if t, ok := v.Type().Underlying().(*types.Basic); !ok || t.Kind() != types.Int {
			return nil
		}
		x, _ := ls.e.val(ls.fr, v).(*Term)
		return x
	}
	x, cx, okx := lin(b.X)
	y, cy, oky := lin(b.Y)
	if !okx {
		x, cx = inv(b.X), 0
	}
	if !oky {
		y, cy = inv(b.Y), 0
	}
	if x == nil || y == nil || okx == oky {
		return nil
	}
	tt := NewRVar("t", BV64, 0, 1<<40)
	xs := Add(x, Mul(Int(cx), tt))
	ys := Add(y, Mul(Int(cy), tt))
	var c *Term
	switch b.Op.String() {
	case "<":
		c = Slt(xs, ys)
	case ">":
		c = Slt(ys, xs)
	case "<=":
		c = Not(Slt(ys, xs))
	case ">=":
		c = Not(Slt(xs, ys))
	case "!=":
		c = Not(Eq(xs, ys))
	default:
		return nil
	}
	if ls.stay == 1 {
		c = Not(c)
	}
	return solveTrip(c, tt)
}

// solveTrip: number of leading t for which the monotone condition holds.
func solveTrip(c, t *Term) *Term {
	if c == False {
		return Int(0)
	}
	neg := false
	if c.Op == ONot {
		neg = true
		c = c.Args[0]
	}
	var d *Term
	switch c.Op {
	case OLtZ:
		d = c.Args[0]
	case OSlt:
		// no overflow known: only small offsets
		a, b := c.Args[0], c.Args[1]
		d = Sub(a, b)
		for _, z := range []*Term{a, b} {
			k, _, _ := linParts(z)
			if v := sx(k, 64); v < -1<<32 || v > 1<<32 {
				return nil
			}
		}
	case OEq0:
		d = c.Args[0]
		k := coefOf(d, t)
		d0 := Sub(d, Scale(t, uint64(k)))
		if occurs(t, d0) || (k != 1 && k != -1) {
			return nil
		}
		if !neg { // true for at most one value of t
			return Ite(Eq(d0, Int(0)), Int(1), Int(0))
		}
		r := Neg(d0)
		if k == -1 {
			r = d0
		}
		if v, ok := r.Int(); ok && v >= 0 {
			return r
		}
		return nil
	default:
		return nil
	}
	k := coefOf(d, t)
	d0 := Sub(d, Scale(t, uint64(k)))
	if occurs(t, d0) || k == 0 {
		return nil
	}
	var n *Term // stay while t < n
	if !neg {
		if k < 0 { // d0 - |k|t < 0
			return nil
		}
		// d0 + k t < 0  <=> t < ceil(-d0/k)
		n = ceilDiv(Neg(d0), k)
	} else {
		if k > 0 {
			return nil
		}
		// d0 + k t >= 0 <=> t <= floor(d0/|k|) <=> t < ceil((d0+1)/|k|)
		n = ceilDiv(AddC(d0, 1), -k)
	}
	if n == nil {
		return nil
	}
	if l, _, ok := n.srange(); ok && l >= 0 {
		return n
	}
	return Ite(Slt(Int(0), n), n, Int(0))
}

func ceilDiv(a *Term, k int64) *Term {
	if k == 1 {
		return a
	}
	if v, ok := a.Int(); ok {
		if v <= 0 {
			return Int(0)
		}
		return Int((v + k - 1) / k)
	}
	q, r := exactDiv(a, k)
	if q != nil {
		if r != 0 {
			q = AddC(q, 1)
		}
		return q
	}
	if l, _, ok := a.srange(); ok && l >= 0 {
		return DivRem(OSDiv, AddC(a, k-1), Int(k))
	}
	return nil
}

func coefOf(d, t *Term) int64 {
	_, as, ks := linParts(d)
	for i, a := range as {
		if a == t {
			return sx(ks[i], 64)
		}
	}
	return 0
}

// pass executes one symbolic iteration.
func (ls *loopSum) pass(quiet bool) (*Exit, []Value, *State) {
	e := ls.e
	sv := e.save()
	if quiet {
		e.quiet++
	}
	s := ls.st0.Clone()
	if ls.T != nil && !ls.T.IsConst() {
		s.Assume(Slt(ls.t, ls.T))
	}
	for _, r := range ls.order {
		if r.closed != nil {
			s.heap.Set(r.key, r.closed)
		} else {
			s.heap.Set(r.key, ls.uContent(r))
		}
	}
	start := s.heap.Clone()
	ph := make([]Value, len(ls.phis0))
	for i := range ph {
		switch {
		case ls.closed[i] != nil:
			ph[i] = ls.closed[i]
		case ls.uphi[i] != nil:
			ph[i] = ls.uphi[i]
		default:
			ph[i] = ls.phis0[i]
		}
	}
	e.homes = append(append([]*Term(nil), e.homes...), ls.t)
	fr := ls.fr
	if fr.force == nil {
		fr.force = map[*ssa.BasicBlock]*forced{}
	}
	f := &forced{stay: ls.stay}
	fr.force[ls.l.H] = f
	exits := e.run(fr, s, ls.l.H, ls.prev, ph, ls.stops, ls.l)
	delete(fr.force, ls.l.H)
	ls.cond = f.cond
	if quiet {
		e.restore(sv)
	} else {
		e.homes = sv.homes
	}
	if len(exits) == 0 {
		unsupported("body never completes")
	}
	for _, x := range exits {
		if x.at != ls.l.H {
			unsupported("irregular exit from the body")
		}
	}
	m := e.merge(exits)
	// modified regions
	for _, k := range m.st.heap.Diff(start) {
		v := m.st.heap.Get(k)
		if v == nil {
			continue
		}
		if start.Get(k) == nil && k.Obj.Seq > ls.startSeq && len(k.Obj.Home) > 0 && k.Obj.Home[len(k.Obj.Home)-1] == ls.t {
			continue
		}
		if start.Get(k) == nil && v == k.Obj.defs[k.Path] {
			continue
		}
		if k.Obj.Seq > ls.startSeq && !k.Obj.Input {
			continue // allocated in the body (inner loop family)
		}
		if ls.regs[k] == nil {
			uSeq++
			r := &regInfo{key: k, id: uSeq, uname: fmt.Sprintf("U$%d", uSeq)}
			if strings.HasPrefix(k.Path, "#") {
				r.sort, r.scalar = BV64, k.Path != "#map"
			} else {
				t := k.Obj.leafType(k.Path)
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
					r.cplx = true
				} else if so, _, ok := basicSort(t); ok {
					r.sort, r.scalar = so, true
				}
			}
			ls.regs[k] = r
			ls.order = append(ls.order, r)
			ls.grew = true
		}
	}
	ls.pcEnd = m.st.pc
	return m, ph, m.st
}

func (ls *loopSum) uContent(r *regInfo) *Content {
	if r.u == nil {
		r.u = &Content{Tag: fmt.Sprintf("U$%d", r.id), Base: func(d []*Term) Value {
			if r.scalar {
				return App(fmt.Sprintf("U$%d", r.id), r.sort, d...)
			}
			if r.cplx {
				return Cplx{App(fmt.Sprintf("U$%d.re", r.id), F64, d...), App(fmt.Sprintf("U$%d.im", r.id), F64, d...)}
			}
			return &UnkV{"loop-carried reference"}
		}}
	}
	return r.u
}

func (ls *loopSum) hasU(v Value) bool {
	found := false
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if found || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OApp && strings.HasPrefix(t.Name, "U$") && ls.ownU(t.Name) {
			found = true
			return
		}
		if t.Op == OVar && strings.HasPrefix(t.Name, "Uphi") {
			for _, u := range ls.uphi {
				if u == t {
					found = true
					return
				}
			}
		}
		for _, a := range t.Args {
			f(a)
		}
	}
	eachTerm(v, f)
	if !found {
		if _, ok := v.(*UnkV); ok {
			return true
		}
	}
	return found
}

// ownU: unknowns of enclosing loops are ordinary symbols here.
func (ls *loopSum) ownU(name string) bool {
	name = strings.TrimSuffix(strings.TrimSuffix(name, ".re"), ".im")
	for _, r := range ls.order {
		if name == r.uname {
			return true
		}
	}
	return false
}

// findTrip runs passes until the exit condition has a closed form.
func (ls *loopSum) findTrip() *Term {
	ls.reset()
	for round := 0; round < 6; round++ {
		ls.grew = false
		m, _, _ := ls.pass(true)
		if !ls.hasU(ls.cond) {
			if T := solveTrip(ls.cond, ls.t); T != nil {
				return T
			}
		}
		if ls.grew {
			continue
		}
		if !ls.derive(m, true) {
			return nil
		}
	}
	return nil
}

// solve iterates passes until everything has a closed form; returns "" or why not.
func (ls *loopSum) solve() string {
	for round := 0; round < 10; round++ {
		ls.grew = false
		m, _, _ := ls.pass(true)
		if ls.grew {
			continue
		}
		done := ls.allClosed()
		if done {
			return ""
		}
		if !ls.derive(m, false) {
			return ls.why
		}
	}
	return "no fixpoint"
}

func (ls *loopSum) allClosed() bool {
	for i := range ls.closed {
		if ls.closed[i] == nil {
			return false
		}
	}
	for _, r := range ls.order {
		if r.closed == nil {
			return false
		}
	}
	return true
}

func (ls *loopSum) at(v Value, x *Term) Value { return substVal(v, map[*Term]*Term{ls.t: x}) }

func (ls *loopSum) sumTo(f *Term) *Term { // Sum_{s<t} f(s)
	s := NewRVar("s", BV64, ls.t.Lo, ls.t.Hi)
	return Sum(s, ls.t, subst1(f, ls.t, s))
}

// scalarClosed solves u' = b for a scalar with initial value init.
func (ls *loopSum) scalarClosed(u *Term, b, init Value) Value {
	if sameVal(b, u) {
		return init
	}
	bt, ok1 := b.(*Term)
	it, ok2 := init.(*Term)
	if !ok1 || !ok2 {
		return nil
	}
	if bt.S.K == KBV {
		d := Sub(bt, u)
		if !ls.hasU(d) {
			if ls.cleanPc(d) {
				return Add(it, ls.sumTo(d))
			}
		}
	}
	if !ls.hasU(bt) {
		return ls.lastValue(bt, it)
	}
	return nil
}
func (ls *loopSum) cleanPc(*Term) bool { return true }
func (ls *loopSum) lastValue(b, init Value) Value {
	return iteVal(Eq(ls.t, Int(0)), init, ls.at(b, AddC(ls.t, -1)))
}

// derive finds new closed forms; false when stuck.
func (ls *loopSum) derive(m *Exit, loose bool) bool {
	progress := false
	for i := range ls.closed {
		if ls.closed[i] != nil {
			continue
		}
		if ls.uphi[i] == nil {
			if sameVal(m.phis[i], ls.phis0[i]) {
				ls.closed[i] = ls.phis0[i]
				progress = true
				continue
			}
			if loose {
				continue
			}
			ls.why = "loop-carried reference"
			return false
		}
		b := ls.resolve(m.phis[i], m.st)
		if c := ls.scalarClosed(ls.uphi[i], b, ls.phis0[i]); c != nil {
			ls.closed[i] = c
			progress = true
		}
	}
	for _, r := range ls.order {
		if r.closed != nil {
			continue
		}
		if ls.regionClosed(r, m) {
			progress = true
		}
	}
	if !progress && ls.why == "" {
		ls.why = "no closed form"
	}
	return progress
}

// layers between the current content and the U base.
func (ls *loopSum) chain(r *regInfo, c *Content, base *Content) ([]*MapWrite, bool) {
	var out []*MapWrite
	def := r.key.Obj.defaultContent(r.key.Path)
	for x := c; x != base; x = x.Prev {
		if x == nil {
			return nil, false
		}
		if x == def && len(out) > 0 && cutLayer(r.key, out[len(out)-1]) {
			break // below a write of the whole object
		}
		switch {
		case x.W != nil:
			out = append(out, x.W)
		case x.Dense != nil:
			var ks []dkey
			for k := range x.Dense {
				ks = append(ks, k)
			}
			sortKeys(ks)
			for _, k := range ks {
				out = append(out, &MapWrite{Guard: True, Dims: k.terms(), Val: x.Dense[k]})
			}
		default:
			return nil, false
		}
	}
	// bottom to top
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out, true
}

func cutLayer(k RegKey, w *MapWrite) bool {
	c := &Content{W: w}
	return cut(k, c) != c
}

func (ls *loopSum) dep(w *MapWrite) bool {
	for _, d := range w.Dims {
		if occurs(ls.t, d) {
			return true
		}
	}
	return false
}

// resolve replaces reads of loop-modified regions that no earlier iteration wrote.
func (ls *loopSum) resolve(v Value, st *State) Value {
	if !ls.hasU(v) {
		return v
	}
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if t.Op == OLam || t.Op == OSum {
			memo[t] = t // inner binders keep their U (treated as unresolved)
			if !ls.hasU(t) {
				return t
			}
			bi := len(t.Args) - 1
			fresh := NewRVar("b", t.Args[0].S, t.Args[0].Lo, t.Args[0].Hi)
			b := f(subst1(t.Args[bi], t.Args[0], fresh))
			if t.Op == OLam {
				hi := Int(1 << 40)
				if fresh.Hi < 1<<40 {
					hi = Int(fresh.Hi + 1)
				}
				r = Lam(fresh, hi, b)
			} else {
				r = Sum(fresh, f(t.Args[1]), b)
			}
		} else if t.Op == OApp && strings.HasPrefix(t.Name, "U$") {
			as := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				as[i] = f(a)
			}
			if x := ls.resolveU(t, as, st); x != nil {
				r = x
			} else {
				r = App(t.Name, t.S, as...)
			}
		} else if len(t.Args) > 0 {
			as := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				as[i] = f(a)
				ch = ch || as[i] != a
			}
			if ch {
				r = Rebuild(t, as)
			}
		}
		memo[t] = r
		return r
	}
	return mapTerms(v, f)
}

func mapTerms(v Value, f func(*Term) *Term) Value {
	switch x := v.(type) {
	case *Term:
		return f(x)
	case Cplx:
		return Cplx{f(x.Re), f(x.Im)}
	case *Ptr:
		if x.Obj == nil {
			return x
		}
		p := &Ptr{x.Obj, nil, nil, x.Win}
		for _, t := range x.Fam {
			p.Fam = append(p.Fam, f(t))
		}
		for _, s := range x.Path {
			if s.Idx != nil {
				s.Idx = f(s.Idx)
			}
			p.Path = append(p.Path, s)
		}
		return p
	case *Slice:
		if x.Obj == nil {
			return x
		}
		p := &Slice{Obj: x.Obj, Off: f(x.Off), Len: f(x.Len), Cap: f(x.Cap)}
		for _, t := range x.Fam {
			p.Fam = append(p.Fam, f(t))
		}
		for _, s := range x.Path {
			if s.Idx != nil {
				s.Idx = f(s.Idx)
			}
			p.Path = append(p.Path, s)
		}
		return p
	case *StructV:
		r := &StructV{}
		for _, e := range x.F {
			r.F = append(r.F, mapTerms(e, f))
		}
		return r
	case *ArrayV:
		r := &ArrayV{}
		for _, e := range x.E {
			r.E = append(r.E, mapTerms(e, f))
		}
		return r
	}
	return v
}

func (ls *loopSum) resolveU(u *Term, dims []*Term, st *State) *Term {
	name := strings.TrimSuffix(strings.TrimSuffix(u.Name, ".re"), ".im")
	var r *regInfo
	for _, x := range ls.order {
		if fmt.Sprintf("U$%d", x.id) == name {
			r = x
		}
	}
	if r == nil {
		return nil
	}
	for _, d := range dims {
		if ls.hasU(d) {
			return nil
		}
	}
	ws, ok := ls.chain(r, st.content(r.key), ls.uContent(r))
	if !ok {
		return nil
	}
	s := NewRVar("s", BV64, ls.t.Lo, ls.t.Hi)
	m := map[*Term]*Term{ls.t: s}
	for _, w := range ws {
		nw := &MapWrite{Guard: True}
		ren := map[*Term]*Term{ls.t: s}
		for i, v := range w.Vars {
			nv := NewRVar("v", BV64, v.Lo, v.Hi)
			ren[v] = nv
			nw.Vars = append(nw.Vars, nv)
			nw.N = append(nw.N, Subst(w.N[i], ren))
		}
		for _, d := range w.Dims {
			if ls.hasU(d) {
				return nil
			}
			nw.Dims = append(nw.Dims, Subst(d, ren))
		}
		if !ls.hasU(w.Guard) {
			nw.Guard = Subst(w.Guard, ren)
		}
		// exists s<t, vars: dims equal
		conds := []*Term{Slt(s, ls.t), Not(Slt(s, Int(0))), nw.Guard}
		for i, v := range nw.Vars {
			conds = append(conds, Not(Slt(v, Int(0))), Slt(v, nw.N[i]))
		}
		for i, d := range nw.Dims {
			conds = append(conds, Eq(d, dims[i]))
		}
		c := And(conds...)
		if c == False {
			continue
		}
		for _, p := range st.pc {
			if !ls.hasU(p) {
				conds = append(conds, p)
			}
		}
		if r, _ := checkSat(conds, false, 3000); r == "unsat" {
			continue
		}
		return nil
	}
	_ = m
	v := ls.st0.content(r.key).Read(dims)
	switch x := v.(type) {
	case *Term:
		return x
	case Cplx:
		if strings.HasSuffix(u.Name, ".re") {
			return x.Re
		}
		return x.Im
	}
	return nil
}

func (ls *loopSum) regionClosed(r *regInfo, m *Exit) bool {
	c := m.st.content(r.key)
	base := ls.uContent(r)
	old := ls.st0.content(r.key)
	if c == base {
		r.closed = old
		return true
	}
	ndims := -1
	if c.FnVal != nil && c.FnVars == nil && c.Prev == nil && c.Tag == "scalar" {
		ndims = 0
	}
	if ndims == 0 {
		if !r.scalar {
			ls.why = "loop-carried reference cell " + r.key.Obj.Name
			return false
		}
		u := App(fmt.Sprintf("U$%d", r.id), r.sort)
		b := ls.resolve(c.FnVal, m.st)
		if x := ls.scalarClosed(u, b, old.Read(nil)); x != nil {
			r.closed = &Content{Tag: "scalar", FnVal: x}
			return true
		}
		return false
	}
	ws, ok := ls.chain(r, c, base)
	if !ok {
		if c.Tag == "merge" && c.Base != nil {
			// a conditional scalar update
			func() {
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(abort); !ok {
							panic(x)
						}
					}
				}()
				if r.scalar && len(r.key.Obj.Home) == r.key.Obj.Open && !strings.Contains(r.key.Path, "[]") {
					u := App(fmt.Sprintf("U$%d", r.id), r.sort)
					b := ls.resolve(c.Base(nil), m.st)
					if x := ls.scalarClosed(u, b, old.Read(nil)); x != nil {
						r.closed = &Content{Tag: "scalar", FnVal: x}
						ok = true
					}
				}
			}()
			if ok {
				return true
			}
		}
		ls.why = "write pattern of " + r.key.Obj.Name
		for x := c; x != nil && len(ls.why) < 600; x = x.Prev {
			ls.why += fmt.Sprintf(" <%s w=%v dense=%v fn=%v base=%v>", x.Tag, x.W != nil, x.Dense != nil, x.FnVal != nil, x.Base != nil)
		}
		return false
	}
	var deps, indeps []*MapWrite
	for _, w := range ws {
		for _, d := range w.Dims {
			if ls.hasU(d) {
				ls.why = "index depends on loop-carried data"
				return false
			}
		}
		if ls.dep(w) {
			deps = append(deps, w)
		} else {
			indeps = append(indeps, w)
		}
	}
	cur := old
	r.layers, r.accs = nil, nil
	for _, w := range deps {
		nw := *w
		nw.Guard = ls.resolve(w.Guard, m.st).(*Term)
		nw.Val = ls.resolve(w.Val, m.st)
		if ls.hasU(nw.Guard) || ls.hasU(nw.Val) {
			ls.why = "value depends on earlier iterations of " + r.key.Obj.Name
			return false
		}
		r.layers = append(r.layers, &nw)
	}
	// cross-iteration overlaps between different layers
	all := append(append([]*MapWrite{}, deps...), indeps...)
	for i := range all {
		for j := range all {
			if i == j || (i >= len(deps) && j >= len(deps)) {
				continue
			}
			if !ls.disjointIter(all[i], all[j], m.st) {
				ls.why = "overlapping writes"
				return false
			}
		}
	}
	for i, w := range r.layers {
		s := NewRVar("s", BV64, ls.t.Lo, ls.t.Hi)
		ren := map[*Term]*Term{ls.t: s}
		nw := &MapWrite{Guard: Subst(w.Guard, ren), Val: substVal(w.Val, ren)}
		nw.Vars = append(append([]*Term{}, w.Vars...), s)
		nw.N = append(substTerms(append([]*Term{}, w.N...), ren), ls.t)
		nw.Dims = substTerms(append([]*Term{}, w.Dims...), ren)
		_ = i
		cur = &Content{Prev: cur, W: nw}
	}
	for _, w := range indeps {
		// the guard may depend on t: use the merged value at the cell
		nv := ls.resolve(c.Read(w.Dims), m.st)
		ov := old.Read(w.Dims)
		var f, val Value
		switch x := nv.(type) {
		case *Term:
			if x.S.K == KBV {
				d := Sub(x, ls.uContent(r).Base(w.Dims).(*Term))
				if !ls.hasU(d) {
					f = d
					val = Add(ov.(*Term), ls.sumTo(d))
				}
			}
		}
		if val == nil && !ls.hasU(nv) {
			val = ls.lastValue(nv, ov)
		}
		if val == nil {
			ls.why = "recurrence on " + r.key.Obj.Name
			return false
		}
		r.accs = append(r.accs, accInfo{w, f})
		if len(w.Vars) == 0 {
			if k, ok := constKey(w.Dims); ok {
				cur = &Content{Prev: cur, Dense: map[dkey]Value{k: val}}
				continue
			}
		}
		cur = &Content{Prev: cur, W: &MapWrite{Vars: w.Vars, N: w.N, Guard: True, Dims: w.Dims, Val: val}}
	}
	r.closed = cur
	return true
}

// disjointIter: writes a(t) and b(s) with s != t never meet.
func (ls *loopSum) disjointIter(a, b *MapWrite, st *State) bool {
	s := NewRVar("s", BV64, ls.t.Lo, ls.t.Hi)
	ren := map[*Term]*Term{ls.t: s}
	conds := []*Term{Not(Eq(s, ls.t))}
	if ls.T != nil {
		conds = append(conds, Slt(s, ls.T), Slt(ls.t, ls.T))
	}
	for i, v := range b.Vars {
		nv := NewRVar("v", BV64, v.Lo, v.Hi)
		ren[v] = nv
		conds = append(conds, Not(Slt(nv, Int(0))), Slt(nv, Subst(b.N[i], ren)))
	}
	for i, v := range a.Vars {
		conds = append(conds, Not(Slt(v, Int(0))), Slt(v, a.N[i]))
	}
	for i := range a.Dims {
		conds = append(conds, Eq(a.Dims[i], Subst(b.Dims[i], ren)))
	}
	c := And(conds...)
	if c == False {
		return true
	}
	r, _ := checkSat(conds, false, 3000)
	return r == "unsat"
}

// finish: the checking pass and the state after the loop.
func (ls *loopSum) finish() ([]*Exit, string) {
	e := ls.e
	T := ls.T
	nAcc, nPend := len(e.accLog), len(e.pending)
	if ls.l.hasGo {
		e.logging++
	}
	obj0 := e.objSeq
	m, _, sEnd := ls.pass(false)
	// the exit test agrees with the trip count
	if !e.equiv(sEnd0(ls), ls.cond, Slt(ls.t, T)) {
		// cond must hold for every t<T and fail at T
		st := ls.st0.Clone()
		if !T.IsConst() {
			st.Assume(Slt(ls.t, T))
		}
		if ok, _, _ := e.prove(st, ls.cond); !ok {
			return nil, "exit test disagrees with the trip count"
		}
	}
	// consecution
	for i := range ls.closed {
		want := ls.at(ls.closed[i], AddC(ls.t, 1))
		if !e.sameValProve(sEnd, m.phis[i], want) {
			return nil, fmt.Sprintf("closed form of loop variable %d not inductive", i)
		}
	}
	for _, r := range ls.order {
		if w := ls.checkRegion(r, m); w != "" {
			return nil, w
		}
	}
	// state after the loop
	s := ls.st0.Clone()
	if !T.IsConst() {
		s.Assume(Not(Slt(T, Int(0))))
	}
	for _, r := range ls.order {
		s.heap.Set(r.key, cut(r.key, contentAt(r.closed, ls.t, T)))
	}
	// objects allocated in the body become families
	closedObj := map[*Obj]bool{}
	depth := len(e.homes)
	for _, k := range sEnd.heap.Diff(s.heap) {
		v := sEnd.heap.Get(k)
		o := k.Obj
		if v == nil {
			continue
		}
		if o.Seq <= obj0 || len(o.Home) <= depth || o.Home[depth] != ls.t {
			continue
		}
		closedObj[o] = true
		if v == o.defs[k.Path] && o.Lazy == nil {
			continue
		}
		s.heap.Set(k, famContent(v, ls.t))
	}
	for o := range closedObj {
		o.Open = depth
	}
	e.closeObjs(obj0, depth)
	for o, wy := range sEnd.dead {
		s.dead[o] = wy
	}
	for _, a := range e.accLog[nAcc:] {
		a.Vars, a.N = append(a.Vars, ls.t), append(a.N, T)
	}
	for _, tk := range e.pending[nPend:] {
		tk.Vars, tk.N = append(tk.Vars, ls.t), append(tk.N, T)
	}
	// run the header once more to leave the loop
	ph := make([]Value, len(ls.phis0))
	for i := range ph {
		ph[i] = ls.at(ls.closed[i], T)
	}
	f := &forced{stay: ls.out, exit: true}
	ls.fr.force[ls.l.H] = f
	exits := e.run(ls.fr, s, ls.l.H, ls.prev, ph, ls.stops, ls.l)
	delete(ls.fr.force, ls.l.H)
	if f.cond != nil {
		nc := Not(f.cond)
		if ok, _, _ := e.prove(s, nc); !ok {
			return nil, "loop exit not provable at the trip count"
		}
	}
	return exits, ""
}

func sEnd0(ls *loopSum) *State {
	return ls.st0
}

func (e *Engine) equiv(st *State, a, b *Term) bool { return a == b }

// closeObjs lowers the open dimension of every object allocated in the body.
func (e *Engine) closeObjs(obj0, depth int) {
	for _, o := range e.allObjs {
		if o.Seq > obj0 && o.Open > depth {
			o.Open = depth
		}
	}
}

// contentAt instantiates a closed form (t free) at x.
func contentAt(c *Content, t, x *Term) *Content {
	var rec func(c *Content) *Content
	m := map[*Term]*Term{t: x}
	rec = func(c *Content) *Content {
		if c == nil {
			return nil
		}
		if c.W != nil {
			dep := false
			for _, n := range c.W.N {
				dep = dep || occurs(t, n)
			}
			w := *c.W
			w.N = substTerms(append([]*Term{}, c.W.N...), m)
			w.Guard = Subst(c.W.Guard, m)
			w.Val = substVal(c.W.Val, m)
			w.Dims = substTerms(append([]*Term{}, c.W.Dims...), m)
			p := rec(c.Prev)
			if !dep && p == c.Prev && w.Guard == c.W.Guard && sameVal(w.Val, c.W.Val) {
				return c
			}
			return &Content{Prev: p, W: &w}
		}
		if c.Dense != nil {
			p := rec(c.Prev)
			ch := p != c.Prev
			nd := c.Dense
			if len(c.Dense) < 64 {
				nd = map[dkey]Value{}
				for k, v := range c.Dense {
					nv := substVal(v, m)
					nd[k] = nv
					ch = ch || !sameVal(nv, v)
				}
			}
			if !ch {
				return c
			}
			return &Content{Prev: p, Dense: nd}
		}
		if c.FnVal != nil {
			nv := substVal(c.FnVal, m)
			if sameVal(nv, c.FnVal) {
				return c
			}
			return &Content{Tag: c.Tag, FnVars: c.FnVars, FnVal: nv}
		}
		return c
	}
	return rec(c)
}

// famContent turns the content of one iteration's object into that of the family.
func famContent(c *Content, t *Term) *Content {
	memo := map[string]Value{}
	_ = memo
	return &Content{Tag: "family", Base: func(d []*Term) Value {
		v := c.Read(d[1:])
		if d[0] == t {
			return v
		}
		return substVal(v, map[*Term]*Term{t: d[0]})
	}}
}

func (e *Engine) sameValProve(st *State, a, b Value) bool {
	if sameVal(a, b) {
		return true
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 || x.S != y.S {
		return false
	}
	if x.S.K == KF64 {
		return false
	}
	if x.S.K == KBV {
		if d := expandSums(Sub(x, y)); d.IsConst() && d.C == 0 {
			return true
		}
	}
	ok, _, _ := e.prove(st, Eq(x, y))
	return ok
}

// expandSums peels the last term of sums whose bound is (t+1).
func expandSums(t *Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if t.Op == OSum {
			n := t.Args[1]
			c, as, _ := linParts(n)
			if len(as) > 0 && c == 1 {
				n1 := AddC(n, -1)
				fresh := NewRVar("b", BV64, t.Args[0].Lo, t.Args[0].Hi)
				body := subst1(t.Args[2], t.Args[0], fresh)
				r = Add(Sum(fresh, n1, body), subst1(body, fresh, n1))
			}
		} else if len(t.Args) > 0 && t.Op != OLam {
			as := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				as[i] = f(a)
				ch = ch || as[i] != a
			}
			if ch {
				r = Rebuild(t, as)
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func (ls *loopSum) checkRegion(r *regInfo, m *Exit) string {
	c := m.st.content(r.key)
	if c == r.closed {
		return ""
	}
	nm := r.key.Obj.Name
	if r.closed.Tag == "scalar" {
		want := ls.at(r.closed.FnVal, AddC(ls.t, 1))
		if !ls.e.sameValProve(m.st, c.Read(nil), want) {
			return "cell " + nm + " not inductive"
		}
		return ""
	}
	ws, ok := ls.chain(r, c, r.closed)
	if !ok {
		// small arrays written element by element: compare them with the closed form at t+1
		if c.Dense != nil && r.closed.Dense != nil {
			ks := map[dkey]bool{}
			bottom := func(x *Content) *Content {
				for x != nil && x.Dense != nil {
					for k := range x.Dense {
						ks[k] = true
					}
					x = x.Prev
				}
				return x
			}
			if bottom(c) != bottom(r.closed) {
				return "pattern of " + nm + " changed"
			}
			for k := range ks {
				if !ls.e.sameValProve(m.st, c.Read(k.terms()), ls.at(r.closed.Read(k.terms()), AddC(ls.t, 1))) {
					return "cells of " + nm + " not inductive"
				}
			}
			return ""
		}
		return "pattern of " + nm + " changed"
	}
	di := 0
	for _, w := range ws {
		if !ls.dep(w) {
			continue
		}
		if di >= len(r.layers) {
			return "extra write to " + nm
		}
		d := r.layers[di]
		di++
		ren := map[*Term]*Term{}
		if len(w.Vars) != len(d.Vars) {
			return "write shape of " + nm
		}
		for i := range w.Vars {
			ren[d.Vars[i]] = w.Vars[i]
		}
		for i := range w.Dims {
			if w.Dims[i] != Subst(d.Dims[i], ren) {
				return "write index of " + nm
			}
		}
		st := m.st
		if !ls.e.sameValProve(st, w.Guard, Subst(d.Guard, ren)) {
			return "guard of " + nm
		}
		if !sameShapeVal(ls.e, st, w.Val, substVal(d.Val, ren)) {
			return "value of " + nm
		}
	}
	if di != len(r.layers) {
		return "missing write to " + nm
	}
	if !r.scalar && !r.cplx {
		// references: rebuild the family from this pass, whose objects are live
		if len(r.accs) > 0 {
			return "reference cell " + nm
		}
		cur := ls.st0.content(r.key)
		for _, w := range ws {
			s := NewRVar("s", BV64, ls.t.Lo, ls.t.Hi)
			ren := map[*Term]*Term{ls.t: s}
			nw := &MapWrite{Guard: Subst(w.Guard, ren), Val: substVal(w.Val, ren)}
			nw.Vars = append(append([]*Term{}, w.Vars...), s)
			nw.N = append(substTerms(append([]*Term{}, w.N...), ren), ls.t)
			nw.Dims = substTerms(append([]*Term{}, w.Dims...), ren)
			cur = &Content{Prev: cur, W: nw}
		}
		r.closed = cur
	}
	for _, a := range r.accs {
		if a.w == nil {
			continue
		}
		nv := c.Read(a.w.Dims)
		if a.f != nil {
			ov := r.closed.Read(a.w.Dims)
			if !ls.e.sameValProve(m.st, Sub(nv.(*Term), ov.(*Term)), a.f) {
				return "accumulation in " + nm
			}
		} else {
			want := contentAt(r.closed, ls.t, AddC(ls.t, 1)).Read(a.w.Dims)
			if !ls.e.sameValProve(m.st, nv, want) {
				return "last value of " + nm
			}
		}
	}
	return ""
}

// sameShapeVal compares values that may refer to objects re-allocated in this pass.
func sameShapeVal(e *Engine, st *State, a, b Value) bool {
	if e.sameValProve(st, a, b) {
		return true
	}
	pa, ok1 := a.(*Ptr)
	pb, ok2 := b.(*Ptr)
	if ok1 && ok2 && pa.Obj != nil && pb.Obj != nil {
		return pa.Obj.Name == pb.Obj.Name && len(pa.Path) == len(pb.Path)
	}
	sa, ok1 := a.(*Slice)
	sb, ok2 := b.(*Slice)
	if ok1 && ok2 && sa.Obj != nil && sb.Obj != nil {
		return sa.Obj.Name == sb.Obj.Name && sa.Len == sb.Len
	}
	return false
}

var _ = math.MaxInt64
