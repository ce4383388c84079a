package main

// Symbolic executor over go/ssa: the real functions of /repo are executed on
// symbolic inputs; forks are merged at the immediate post-dominator, loops are
// handled in loop.go, calls to functions under contract in spec.go.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Name   string
	Status string // "proved" | "failed" | "unknown"
	How    string // "normal form" | "smt"
	Detail string
	Model  string
}

type Engine struct {
	unroll      int64
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package
	globals     map[*ssa.Global]*Obj
	homes       []*Term
	objSeq      int
	drawSeq     int
	norms       []*Term // gaussian draws executed in the current verification
	quiet       int
	label       string
	obls        []*Obligation
	failed      int
	stack       []*ssa.Function
	con         map[string]*Contract
	skipCon     map[string]bool
	used        map[string]bool // contracts relied upon
	inlined     map[string]bool
	info        map[*ssa.Function]*fnInfo
	task        *Task
	pending     []*Task
	accLog      []*Access
	logging     int
	accPos      int
	trace       bool
	noSum       int // >0: never summarise loops
	level       string
	memo        map[string]interface{}
	steps       int64
	maxStep     int64
	allObjs     []*Obj
	poolHook    func(st *State, p *Ptr, at ssa.Instruction) Value
	putHook     func(st *State, iv *IfaceV, at ssa.Instruction)
	inTemplate  bool
	templates   map[string]*template
	initSeq     int
	curLevelKey RegKey
	ver         *Verifier
	preHeap     *Heap
	deadline    time.Time
	levelT      *Term // the selected level
	tracking    *tracker
	owned       map[*Obj][]Value // results that live in memory of an operand
	startOb     int              // objects with Seq < startOb existed before the call under verification
}

type fnInfo struct {
	loops map[*ssa.BasicBlock]*Loop // by header
	ipdom map[*ssa.BasicBlock]*ssa.BasicBlock
	hasGo bool
}

type Loop struct {
	H      *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
	hasGo  bool
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	binds  []Value
	args   []Value
	defers []deferred
	inf    *fnInfo
	force  map[*ssa.BasicBlock]*forced
}
type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}

// Exit of a run: at a stop block (with evaluated phis) or a return.
type Exit struct {
	cond *Term
	st   *State
	at   *ssa.BasicBlock // nil: return
	prev *ssa.BasicBlock
	phis []Value
	rets []Value
}

func (e *Engine) pos(i ssa.Instruction) string {
	p := e.prog.Fset.Position(i.Pos())
	if !p.IsValid() {
		return i.Parent().String()
	}
	f := p.Filename
	if k := strings.LastIndex(f, "/"); k >= 0 {
		f = f[k+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// ---- obligations ---------------------------------------------------------

const smtMs = 20000

func (e *Engine) prove(st *State, c *Term) (bool, string, string) {
	if c == True {
		return true, "normal form", ""
	}
	for _, p := range st.pc {
		if p == c {
			return true, "normal form", ""
		}
		if p == False {
			return true, "normal form", ""
		}
	}
	if c.Op == OBAnd {
		how := "normal form"
		for _, a := range c.Args {
			ok, h, m := e.prove(st, a)
			if !ok {
				return false, h, m
			}
			if h == "smt" {
				how = h
			}
		}
		return true, how, ""
	}
	arith := needsArith(c, st.pc)
	if arith && arithUnsat(append([]*Term{Not(c)}, st.pc...), 8000) == "unsat" {
		return true, "arithmetic", ""
	}
	as := append([]*Term{Not(c)}, relevant(st.pc, c)...)
	r, m := checkSat(as, true, smtMs)
	if r == "unsat" {
		return true, "smt", ""
	}
	// unfold abbreviations
	for d, t := 0, c; d < 3 && r == "sat"; d++ {
		u := unfoldAbbrev(t)
		if u == t || termSize(u, 20000) >= 20000 {
			break
		}
		t = u
		if u == True {
			return true, "normal form", ""
		}
		if r2, _ := checkSat(append([]*Term{Not(u)}, st.pc...), false, smtMs); r2 == "unsat" {
			return true, "smt", ""
		}
	}
	if r == "sat" && len(as) < len(st.pc)+1 {
		as = append([]*Term{Not(c)}, st.pc...)
		r, m = checkSat(as, true, smtMs)
		if r == "unsat" {
			return true, "smt", ""
		}
	}
	if r == "sat" {
		if u := unrollSums(c, map[*Term]*Term{}); u == True {
			return true, "normal form", ""
		}
		if u := merge(c); u != c {
			if u == True {
				return true, "congruence", ""
			}
			if r2, _ := checkSat(append([]*Term{Not(u)}, st.pc...), false, smtMs); r2 == "unsat" {
				return true, "congruence", ""
			}
		}
	}
	if arith {
		if a := arithUnsat(append([]*Term{Not(c)}, st.pc...), 20000); a == "unsat" {
			return true, "arithmetic", ""
		}
	}
	return false, r, m
}

// relevant keeps the path conditions that are not enormous.
func relevant(pc []*Term, c *Term) []*Term {
	return pc
}

func (e *Engine) oblige(st *State, name string, c *Term) bool {
	if e.quiet > 0 {
		return true
	}
	ok, how, m := e.prove(st, c)
	if ok {
		e.passed(name, how)
		return true
	}
	o := &Obligation{Name: e.label + " :: " + name, Status: "proved", How: how}
	if !ok {
		o.Status = "failed"
		if how == "unknown" {
			o.Status = "unknown"
		}
		o.Model = m
		o.Detail = clip(c.String(), 1500)
		if len(st.pc) > 0 {
			o.Detail += "\n under: " + clip(fmt.Sprint(st.pc), 800)
		}
		e.failed++
	}
	e.obls = append(e.obls, o)
	return ok
}
func (e *Engine) fail(name, detail string) {
	if e.quiet > 0 {
		return
	}
	e.failed++
	e.obls = append(e.obls, &Obligation{Name: e.label + " :: " + name, Status: "failed", Detail: clip(detail, 3000)})
}
func (e *Engine) pass(name, how string) {
	if e.quiet > 0 {
		return
	}
	e.passed(name, how)
}

// passed counts a discharged obligation; its name is kept only when asked for.
func (e *Engine) passed(name, how string) {
	if keepNames {
		e.obls = append(e.obls, &Obligation{Name: e.label + " :: " + name, Status: "proved", How: how})
		return
	}
	o := provedBy[how]
	if o == nil {
		o = &Obligation{Status: "proved", How: how}
		provedBy[how] = o
	}
	e.obls = append(e.obls, o)
}

var keepNames bool
var provedBy = map[string]*Obligation{}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// decide: 1 definitely true, 0 definitely false, -1 open
func (e *Engine) decide(st *State, c *Term) int {
	if c == True {
		return 1
	}
	if c == False {
		return 0
	}
	n := Not(c)
	for _, p := range st.pc {
		if p == c {
			return 1
		}
		if p == n {
			return 0
		}
	}
	if at := atomOf(c); at != nil && at.fv != 0 {
		// an input bit nothing is known about
		free := true
		for _, p := range st.pc {
			if p.fv&at.fv != 0 {
				free = false
				break
			}
		}
		if free {
			return -1
		}
	}
	if r, _ := checkSat(append([]*Term{c}, st.pc...), false, 3000); r == "unsat" {
		return 0
	}
	if r, _ := checkSat(append([]*Term{n}, st.pc...), false, 3000); r == "unsat" {
		return 1
	}
	return -1
}

// ---- control-flow analysis ----------------------------------------------

func (e *Engine) analyse(fn *ssa.Function) *fnInfo {
	if i, ok := e.info[fn]; ok {
		return i
	}
	inf := &fnInfo{loops: map[*ssa.BasicBlock]*Loop{}, ipdom: map[*ssa.BasicBlock]*ssa.BasicBlock{}}
	e.info[fn] = inf
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := inf.loops[s]
				if l == nil {
					l = &Loop{H: s, Blocks: map[*ssa.BasicBlock]bool{s: true}}
					inf.loops[s] = l
				}
				var w []*ssa.BasicBlock
				if !l.Blocks[b] {
					l.Blocks[b] = true
					w = append(w, b)
				}
				for len(w) > 0 {
					x := w[len(w)-1]
					w = w[:len(w)-1]
					for _, p := range x.Preds {
						if !l.Blocks[p] {
							l.Blocks[p] = true
							w = append(w, p)
						}
					}
				}
			}
		}
	}
	for _, l := range inf.loops {
		for b := range l.Blocks {
			for _, i := range b.Instrs {
				if _, ok := i.(*ssa.Go); ok {
					l.hasGo = true
					inf.hasGo = true
				}
			}
		}
	}
	// post-dominators over blocks that can reach a return
	reach := map[*ssa.BasicBlock]bool{}
	var w []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				reach[b] = true
				w = append(w, b)
			}
		}
	}
	for len(w) > 0 {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		for _, p := range x.Preds {
			if !reach[p] {
				reach[p] = true
				w = append(w, p)
			}
		}
	}
	n := len(fn.Blocks)
	full := func() []bool {
		r := make([]bool, n+1)
		for i := range r {
			r[i] = true
		}
		return r
	}
	pd := make([][]bool, n)
	for i := range pd {
		pd[i] = full()
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if !reach[b] {
				continue
			}
			nw := full()
			has := false
			for _, s := range b.Succs {
				if !reach[s] {
					continue
				}
				has = true
				for k := range nw {
					nw[k] = nw[k] && pd[s.Index][k]
				}
			}
			if !has {
				for k := range nw {
					nw[k] = false
				}
				nw[n] = true
			}
			nw[i] = true
			for k := range nw {
				if nw[k] != pd[i][k] {
					ch = true
				}
			}
			pd[i] = nw
		}
	}
	for i, b := range fn.Blocks {
		if !reach[b] {
			continue
		}
		// immediate: the strict postdominator postdominated by all others
		var best *ssa.BasicBlock
		bc := -1
		for k := 0; k < n; k++ {
			if k != i && pd[i][k] {
				c := 0
				for _, x := range pd[k] {
					if x {
						c++
					}
				}
				if c > bc {
					bc = c
					best = fn.Blocks[k]
				}
			}
		}
		inf.ipdom[b] = best
	}
	return inf
}

// ---- running blocks -------------------------------------------------------

func (e *Engine) evalPhis(fr *Frame, st *State, b, prev *ssa.BasicBlock) []Value {
	var r []Value
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, e.val(fr, ph.Edges[pi]))
	}
	return r
}

func withStop(m map[*ssa.BasicBlock]bool, b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if b == nil || m[b] {
		return m
	}
	n := map[*ssa.BasicBlock]bool{b: true}
	for k := range m {
		n[k] = true
	}
	return n
}

// run executes from block b (whose phis have the given values).
func (e *Engine) run(fr *Frame, st *State, b, prev *ssa.BasicBlock, phis []Value, stops map[*ssa.BasicBlock]bool, inLoop *Loop) []*Exit {
	for {
		if l := fr.inf.loops[b]; l != nil && (inLoop == nil || inLoop.H != b) && !(prev != nil && l.Blocks[prev]) {
			outs := e.execLoop(fr, st, l, prev, phis, stops)
			// continue after the loop
			var rets []*Exit
			groups := map[*ssa.BasicBlock][]*Exit{}
			var order []*ssa.BasicBlock
			for _, o := range outs {
				if o.at == nil || stops[o.at] {
					rets = append(rets, o)
					continue
				}
				if groups[o.at] == nil {
					order = append(order, o.at)
				}
				groups[o.at] = append(groups[o.at], o)
			}
			if len(order) == 0 {
				return rets
			}
			if len(order) == 1 && len(rets) == 0 {
				m := e.merge(groups[order[0]])
				b, prev, phis, st = m.at, m.prev, m.phis, m.st
				inLoop = nil
				continue
			}
			j := fr.inf.ipdom[l.H]
			for j != nil && l.Blocks[j] {
				j = fr.inf.ipdom[j]
			}
			ns := withStop(stops, j)
			var all []*Exit
			for _, x := range order {
				m := e.merge(groups[x])
				if x == j {
					all = append(all, m)
					continue
				}
				for _, o := range e.run(fr, m.st, m.at, m.prev, m.phis, ns, nil) {
					o.cond = And(m.cond, o.cond)
					all = append(all, o)
				}
			}
			var here []*Exit
			for _, o := range all {
				if o.at != nil && o.at == j && !stops[j] {
					here = append(here, o)
				} else {
					rets = append(rets, o)
				}
			}
			if len(here) == 0 {
				return rets
			}
			m := e.merge(here)
			for _, o := range e.run(fr, m.st, m.at, m.prev, m.phis, stops, nil) {
				o.cond = And(m.cond, o.cond)
				rets = append(rets, o)
			}
			return rets
		}
		np := 0
		for i, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			fr.env[ph] = phis[i]
			np++
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs[np:] {
			e.steps++
			if e.maxStep > 0 && e.steps > e.maxStep {
				unsupported("step budget exhausted")
			}
			if e.steps&255 == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
				panic(timeout{})
			}
			switch x := in.(type) {
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				var rs []Value
				for _, r := range x.Results {
					rs = append(rs, e.val(fr, r))
				}
				return []*Exit{{cond: True, st: st, rets: rs}}
			case *ssa.Panic:
				e.oblige(st, "no panic "+e.pos(x), False)
				return nil
			case *ssa.If:
				c := e.val(fr, x.Cond).(*Term)
				if f := fr.force[b]; f != nil {
					sc := c
					if b.Succs[0] != b.Succs[1] && f.stay == 1 {
						sc = Not(c)
					}
					if f.exit {
						sc = Not(sc)
					}
					f.cond = sc
					next = b.Succs[f.stay]
					if !f.exit && sc != True {
						st.Assume(sc)
					}
					break
				}
				switch e.decide(st, c) {
				case 1:
					next = b.Succs[0]
				case 0:
					next = b.Succs[1]
				default:
					return e.fork(fr, st, b, c, stops)
				}
			case *ssa.DebugRef:
			case *ssa.RunDefers:
				for i := len(fr.defers) - 1; i >= 0; i-- {
					d := fr.defers[i]
					e.invoke(fr, st, d.call, d.fn, d.args, x)
				}
				fr.defers = nil
			default:
				e.instr(fr, st, in)
			}
		}
		if next == nil {
			return nil
		}
		ph := e.evalPhis(fr, st, next, b)
		if stops[next] {
			return []*Exit{{cond: True, st: st, at: next, prev: b, phis: ph}}
		}
		prev, b, phis = b, next, ph
		inLoop = nil
	}
}

func (e *Engine) fork(fr *Frame, st *State, b *ssa.BasicBlock, c *Term, stops map[*ssa.BasicBlock]bool) []*Exit {
	j := fr.inf.ipdom[b]
	ns := withStop(stops, j)
	s2 := st.Clone()
	st.Assume(c)
	s2.Assume(Not(c))
	d0 := append([]deferred(nil), fr.defers...)
	go1 := func(s *State, t *ssa.BasicBlock) []*Exit {
		ph := e.evalPhis(fr, s, t, b)
		if ns[t] {
			return []*Exit{{cond: True, st: s, at: t, prev: b, phis: ph}}
		}
		return e.run(fr, s, t, b, ph, ns, nil)
	}
	var all []*Exit
	for _, o := range go1(st, b.Succs[0]) {
		o.cond = And(c, o.cond)
		all = append(all, o)
	}
	d1 := fr.defers
	fr.defers = d0
	for _, o := range go1(s2, b.Succs[1]) {
		o.cond = And(Not(c), o.cond)
		all = append(all, o)
	}
	if len(d1) > len(fr.defers) {
		fr.defers = d1
	}
	var here, rest []*Exit
	for _, o := range all {
		if j != nil && o.at == j && !stops[j] {
			here = append(here, o)
		} else {
			rest = append(rest, o)
		}
	}
	// merge exits that leave at the same place
	if len(here) == 0 {
		return e.mergeSame(rest)
	}
	m := e.merge(here)
	for _, o := range e.run(fr, m.st, m.at, m.prev, m.phis, stops, nil) {
		o.cond = And(m.cond, o.cond)
		rest = append(rest, o)
	}
	return e.mergeSame(rest)
}

func (e *Engine) mergeSame(xs []*Exit) []*Exit {
	var out []*Exit
	idx := map[*ssa.BasicBlock][]*Exit{}
	var order []*ssa.BasicBlock
	for _, x := range xs {
		if _, ok := idx[x.at]; !ok {
			order = append(order, x.at)
		}
		idx[x.at] = append(idx[x.at], x)
	}
	for _, k := range order {
		out = append(out, e.merge(idx[k]))
	}
	return out
}

func (e *Engine) merge(xs []*Exit) *Exit {
	r := xs[0]
	for _, x := range xs[1:] {
		r = e.merge2(r, x)
	}
	return r
}

func (e *Engine) merge2(a, b *Exit) *Exit {
	c := a.cond
	r := &Exit{cond: Or(a.cond, b.cond), at: a.at, prev: a.prev}
	for i := range a.phis {
		r.phis = append(r.phis, iteVal(c, a.phis[i], b.phis[i]))
	}
	for i := range a.rets {
		r.rets = append(r.rets, iteVal(c, a.rets[i], b.rets[i]))
	}
	r.st = mergeState(c, a.st, b.st)
	return r
}

func mergeState(c *Term, a, b *State) *State {
	stateSeq++
	diff := a.heap.Diff(b.heap)
	n := &State{id: stateSeq, heap: a.heap.Clone(), dead: map[*Obj]string{}}
	for i := range a.pc {
		if i < len(b.pc) && a.pc[i] == b.pc[i] {
			n.pc = append(n.pc, a.pc[i])
		} else {
			break
		}
	}
	// facts learnt on both sides: keep c => rest
	k := len(n.pc)
	for _, p := range a.pc[k:] {
		if p != c {
			if q := Implies(c, p); q != True && len(n.pc) < 60 {
				n.pc = append(n.pc, q)
			}
		}
	}
	nc := Not(c)
	for _, p := range b.pc[min(k, len(b.pc)):] {
		if p != nc {
			if q := Implies(nc, p); q != True && len(n.pc) < 60 {
				n.pc = append(n.pc, q)
			}
		}
	}
	for _, k := range diff {
		x, y := a.heap.Get(k), b.heap.Get(k)
		if x == nil {
			n.heap.Set(k, mergeContent(c, k, nil, y))
			continue
		}
		if y == nil {
			n.heap.Set(k, mergeContent(c, k, x, nil))
			continue
		}
		n.heap.Set(k, mergeContent(c, k, x, y))
	}
	for k, v := range a.dead {
		n.dead[k] = v
	}
	for k, v := range b.dead {
		n.dead[k] = v
	}
	return n
}

// mergeWhole: at least one side overwrote the whole array.
func mergeWhole(c *Term, k RegKey, x, y *Content) *Content {
	o := k.Obj
	hi := int64(1) << 40
	if _, h, ok := o.Len.srange(); ok {
		hi = h - 1
	}
	v := NewRVar("m", BV64, 0, hi)
	d := []*Term{v}
	return &Content{Prev: o.defaultContent(k.Path), W: &MapWrite{Vars: d, N: []*Term{o.Len}, Guard: True, Dims: d, Val: iteVal(c, x.Read(d), y.Read(d))}}
}

func mergeContent(c *Term, k RegKey, x, y *Content) *Content {
	if x == y {
		return x
	}
	def := k.Obj.defaultContent(k.Path)
	if x == nil {
		x = def
	}
	if y == nil {
		y = def
	}
	if x == y {
		return x
	}
	// common ancestor
	anc := map[*Content]bool{}
	for p := x; p != nil; p = p.Prev {
		anc[p] = true
	}
	var base *Content
	for p := y; p != nil; p = p.Prev {
		if anc[p] {
			base = p
			break
		}
	}
	if base == nil {
		// object allocated on one side only, or a total override
		xx, yy := x, y
		if wholeWrite(k, x) || wholeWrite(k, y) {
			return mergeWhole(c, k, x, y)
		}
		return &Content{Tag: "merge", Base: func(d []*Term) Value { return iteVal(c, xx.Read(d), yy.Read(d)) }}
	}
	var la, lb []*Content
	dense, fn := true, false
	for p := x; p != base; p = p.Prev {
		la = append(la, p)
		dense = dense && p.Dense != nil
		fn = fn || p.FnVal != nil || p.Base != nil
	}
	for p := y; p != base; p = p.Prev {
		lb = append(lb, p)
		dense = dense && p.Dense != nil
		fn = fn || p.FnVal != nil || p.Base != nil
	}
	for _, l := range append(append([]*Content{}, la...), lb...) {
		if wholeWrite(k, l) {
			return mergeWhole(c, k, x, y)
		}
	}
	if dense {
		m := map[dkey]Value{}
		for _, l := range append(append([]*Content{}, la...), lb...) {
			for kk := range l.Dense {
				if _, ok := m[kk]; !ok {
					t := kk.terms()
					m[kk] = iteVal(c, x.Read(t), y.Read(t))
				}
			}
		}
		return &Content{Prev: base, Dense: m, depth: base.depth + 1}
	}
	if fn || len(la)+len(lb) > 40 {
		xx, yy := x, y
		if o := k.Obj; o.IsArr && k.Path == "[]" && o.Len != nil && (wholeWrite(k, x) || wholeWrite(k, y)) {
			hi := int64(1) << 40
			if _, h, ok := o.Len.srange(); ok {
				hi = h - 1
			}
			v := NewRVar("m", BV64, 0, hi)
			d := []*Term{v}
			return &Content{Prev: def, W: &MapWrite{Vars: d, N: []*Term{o.Len}, Guard: True, Dims: d, Val: iteVal(c, xx.Read(d), yy.Read(d))}}
		}
		return &Content{Tag: "merge", Base: func(d []*Term) Value { return iteVal(c, xx.Read(d), yy.Read(d)) }}
	}
	cur := base
	add := func(g *Term, ls []*Content) {
		for i := len(ls) - 1; i >= 0; i-- {
			l := ls[i]
			if l.W != nil {
				w := *l.W
				w.Guard = And(g, w.Guard)
				if w.Guard != False {
					cur = &Content{Prev: cur, W: &w}
				}
				continue
			}
			var ks []dkey
			for kk := range l.Dense {
				ks = append(ks, kk)
			}
			sortKeys(ks)
			for _, kk := range ks {
				cur = &Content{Prev: cur, W: &MapWrite{Guard: g, Dims: kk.terms(), Val: l.Dense[kk]}}
			}
		}
	}
	add(c, la)
	add(Not(c), lb)
	return cur
}

func sortKeys(ks []dkey) {
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].a != ks[j].a {
			return ks[i].a < ks[j].a
		}
		if ks[i].b != ks[j].b {
			return ks[i].b < ks[j].b
		}
		return ks[i].c < ks[j].c
	})
}

// ---- function calls -------------------------------------------------------

func (e *Engine) callFn(st *State, fn *ssa.Function, args, binds []Value) (*State, []Value) {
	if fn.Blocks == nil {
		unsupported("no body for %s", fn)
	}
	if len(e.stack) > 60 {
		unsupported("call depth")
	}
	for _, f := range e.stack {
		if f == fn && len(e.stack) > 40 {
			unsupported("recursion in %s", fn)
		}
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, args: args, binds: binds, inf: e.analyse(fn)}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = binds[i]
	}
	exits := e.run(fr, st, fn.Blocks[0], nil, nil, map[*ssa.BasicBlock]bool{}, nil)
	if len(exits) == 0 {
		panic(deadPath{})
	}
	m := e.merge(exits)
	return m.st, m.rets
}

// deadPath: every path of a callee ends in a (reported) panic.
type deadPath struct{}

// call runs fn and copies the resulting state into st.
func (e *Engine) call(st *State, fn *ssa.Function, args, binds []Value) []Value {
	s, r := e.callFn(st, fn, args, binds)
	if s != st {
		*st = *s
		stateSeq++
		st.id = stateSeq
	}
	return r
}

func tuple(rs []Value) Value {
	switch len(rs) {
	case 0:
		return &TupleV{}
	case 1:
		return rs[0]
	}
	return &TupleV{rs}
}

func (e *Engine) invoke(fr *Frame, st *State, cc *ssa.CallCommon, fnv Value, args []Value, at ssa.Instruction) Value {
	if cc.IsInvoke() {
		iv, ok := fnv.(*IfaceV)
		if !ok || iv.T == nil {
			unsupported("interface call %s on unknown value", cc.Method.Name())
		}
		if r, ok := e.extInvoke(st, iv, cc, args); ok {
			return r
		}
		fn := e.prog.LookupMethod(iv.T, cc.Method.Pkg(), cc.Method.Name())
		if fn == nil {
			unsupported("method %s", cc.Method)
		}
		return e.callStatic(st, fn, append([]Value{iv.V}, args...), nil, at)
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return e.builtin(fr, st, f, cc, args, at)
	case *ssa.Function:
		return e.callStatic(st, f, args, nil, at)
	}
	fv, ok := fnv.(*FuncV)
	if !ok {
		if u, ok := fnv.(*Union); ok {
			return e.callUnion(fr, st, cc, u, args, at)
		}
		unsupported("call of %T", fnv)
	}
	if fv.Sym != "" {
		rt := cc.Signature().Results()
		if rt.Len() != 1 {
			unsupported("callback with %d results", rt.Len())
		}
		s, _, ok := basicSort(rt.At(0).Type())
		if !ok {
			unsupported("callback result")
		}
		var ts []*Term
		for _, a := range args {
			ts = append(ts, a.(*Term))
		}
		return App(fv.Sym, s, ts...)
	}
	if fv.Fn == nil {
		e.oblige(st, "nil function call "+e.pos(at), False)
		unsupported("nil func call")
	}
	return e.callStatic(st, fv.Fn, args, fv.Binds, at)
}

func (e *Engine) callUnion(fr *Frame, st *State, cc *ssa.CallCommon, u *Union, args []Value, at ssa.Instruction) Value {
	// split on the alternatives
	var res Value
	var cur *State
	rest := True
	for i, al := range u.Alts {
		s := st.Clone()
		c := And(rest, al.C)
		s.Assume(al.C)
		r := e.invoke(fr, s, cc, al.V, args, at)
		if i == 0 {
			res, cur = r, s
		} else {
			cur = mergeState(Not(c), cur, s)
			res = iteVal(Not(c), res, r)
		}
		rest = And(rest, Not(al.C))
	}
	*st = *cur
	return res
}

func (e *Engine) callStatic(st *State, fn *ssa.Function, args, binds []Value, at ssa.Instruction) Value {
	if fn.Origin() != nil && fn.Pkg == nil {
		// instantiated generic: body available
	}
	if r, ok := e.extCall(st, fn, args, at); ok {
		return r
	}
	if c := e.contractFor(fn); c != nil {
		return e.applyContract(st, c, fn, args, at)
	}
	e.inlined[fn.String()] = true
	return tuple(e.call(st, fn, args, binds))
}

// ---- values of operands ---------------------------------------------------

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return BoolC(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return StrV(constant.StringVal(c.Value))
		case b.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return Cplx{FloatC(re), FloatC(im)}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return FloatC(f)
		case b.Info()&types.IsInteger != 0:
			s, _, _ := basicSort(t)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return BVc(uint64(i), s)
			}
			u, _ := constant.Uint64Val(v)
			return BVc(u, s)
		}
	}
	unsupported("constant of type %s", t)
	return nil
}

func (e *Engine) globalObj(g *ssa.Global) *Obj {
	o := e.globals[g]
	if o == nil {
		o = e.newObj("global "+g.String(), g.Type().(*types.Pointer).Elem(), false, nil)
		o.Home = nil
		o.Kind = "global"
		o.Seq = 0
		e.globals[g] = o
		if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			o.Lazy = func(path string, leaf types.Type) *Content {
				unsupported("read of standard-library variable %s", g)
				return nil
			}
		}
	}
	return o
}

func (e *Engine) val(fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return &Ptr{Obj: e.globalObj(x)}
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Builtin:
		return &FuncV{Bound: x}
	}
	r, ok := fr.env[v]
	if !ok {
		unsupported("value %s undefined in %s", v.Name(), fr.fn)
	}
	return r
}

// ---- memory ---------------------------------------------------------------

const modPath = "github.com/thedonutfactory/go-tfhe"

func (e *Engine) newObj(name string, t types.Type, arr bool, n *Term) *Obj {
	e.objSeq++
	o := &Obj{ID: e.objSeq, Name: name, Typ: t, IsArr: arr, Len: n, Home: append([]*Term(nil), e.homes...), Seq: e.objSeq, Open: len(e.homes)}
	if len(e.homes) > 0 {
		e.allObjs = append(e.allObjs, o)
	}
	return o
}

func (o *Obj) leafType(path string) types.Type {
	t := o.Typ
	i := 0
	if o.IsArr {
		if strings.HasPrefix(path, "[]") {
			i = 2
		}
	}
	for i < len(path) {
		if strings.HasPrefix(path[i:], "[]") {
			t = t.Underlying().(*types.Array).Elem()
			i += 2
			continue
		}
		j := i + 1
		for j < len(path) && path[j] != '.' && path[j] != '[' {
			j++
		}
		var f int
		fmt.Sscanf(path[i+1:j], "%d", &f)
		t = t.Underlying().(*types.Struct).Field(f).Type()
		i = j
	}
	return t
}

func (o *Obj) defaultContent(path string) *Content {
	if o.defs == nil {
		o.defs = map[string]*Content{}
	}
	if c := o.defs[path]; c != nil {
		return c
	}
	var c *Content
	if o.Lazy != nil {
		c = o.Lazy(path, o.leafType(path))
	} else if path == "#map" {
		c = &Content{FnVal: &mapData{}, Tag: "map"}
	} else if strings.HasPrefix(path, "#") {
		z := Int(0)
		c = &Content{Base: func([]*Term) Value { return z }, Tag: "ghost"}
	} else {
		c = zeroContent(o.leafType(path))
	}
	o.defs[path] = c
	return c
}

func (st *State) content(k RegKey) *Content {
	if c := st.heap.Get(k); c != nil {
		return c
	}
	return k.Obj.defaultContent(k.Path)
}

type Access struct {
	Key   RegKey
	Dims  []*Term // full family + index
	Write bool
	Pc    []*Term
	Vars  []*Term
	N     []*Term
	Task  *Task
	Pos   int
	After bool // performed by a task after it signalled completion
	Where string
}
type Task struct {
	ID     int
	Vars   []*Term
	N      []*Term
	Pos    int
	Done   bool
	Wg     *Obj
	WgFam  []*Term
	Joined bool
	Where  string
	Pc     []*Term
}

func (e *Engine) logAcc(st *State, k RegKey, p *Ptr, idx []*Term, w bool) {
	if e.logging == 0 || e.quiet > 0 {
		return
	}
	d := append(append([]*Term(nil), p.Fam...), idx...)
	e.accPos++
	e.accLog = append(e.accLog, &Access{Key: k, Dims: d, Write: w, Pc: append([]*Term(nil), st.pc...), Task: e.task, Pos: e.accPos, After: e.task != nil && e.task.Done})
}

// dims of an access: closed family dims then indices.
func (e *Engine) famDims(p *Ptr) []*Term {
	o := p.Obj
	if o.Input {
		return p.Fam
	}
	if len(p.Fam) != len(o.Home) {
		unsupported("family mismatch on %s", o.Name)
	}
	for i := 0; i < o.Open; i++ {
		if p.Fam[i] != o.Home[i] {
			unsupported("object of another iteration accessed: %s", o.Name)
		}
	}
	return p.Fam[o.Open:]
}

func (e *Engine) region(st *State, p *Ptr) (RegKey, []*Term) {
	if p.Obj == nil {
		unsupported("nil dereference")
	}
	ps, idx := pathString(p.Path)
	d := append(append([]*Term(nil), e.famDims(p)...), idx...)
	if why, bad := st.dead[p.Obj]; bad {
		e.fail("use of memory given back to a pool", p.Obj.Name+": "+why)
	}
	return RegKey{p.Obj, ps}, d
}

func (e *Engine) loadLeaf(st *State, p *Ptr) Value {
	k, d := e.region(st, p)
	_, idx := pathString(p.Path)
	e.logAcc(st, k, p, idx, false)
	if e.tracking != nil {
		e.trackRead(st, k)
	}
	v := st.content(k).Read(d)
	return e.simpPc(st, v)
}

// simpPc resolves pointer unions that the path condition decides.
func (e *Engine) simpPc(st *State, v Value) Value {
	u, ok := v.(*Union)
	if !ok {
		if t, ok := v.(*Term); ok && t.Op == OIte && len(st.pc) > 0 {
			for t.Op == OIte {
				hit := 0
				nc := Not(t.Args[0])
				for _, p := range st.pc {
					if p == t.Args[0] {
						hit = 1
					}
					if p == nc {
						hit = 2
					}
				}
				if hit == 0 {
					break
				}
				t = t.Args[hit]
			}
			return t
		}
		return v
	}
	var alts []Alt
	for _, a := range u.Alts {
		if r, _ := checkSat(append([]*Term{a.C}, st.pc...), false, 2000); r != "unsat" {
			alts = append(alts, a)
		}
	}
	if len(alts) == 1 {
		return alts[0].V
	}
	return &Union{alts}
}

func (e *Engine) storeLeaf(st *State, p *Ptr, v Value, guard *Term) {
	k, d := e.region(st, p)
	_, idx := pathString(p.Path)
	e.logAcc(st, k, p, idx, true)
	st.write(k, d, v, guard)
}

func (st *State) write(k RegKey, d []*Term, v Value, guard *Term) {
	c := st.content(k)
	if len(d) == 0 {
		if guard == True {
			st.heap.Set(k, &Content{FnVal: v, FnVars: nil, Tag: "scalar"})
			return
		}
		st.heap.Set(k, &Content{FnVal: iteVal(guard, v, c.Read(nil)), Tag: "scalar"})
		return
	}
	if key, ok := constKey(d); ok && guard == True {
		if c.Dense != nil && c.owner == st.id {
			c.Dense[key] = v
			return
		}
		// merge dense layers of comparable size to bound the chain length
		n := &Content{Prev: c, Dense: map[dkey]Value{key: v}, owner: st.id, depth: c.depth + 1}
		for p := c; p != nil && p.Dense != nil && len(p.Dense) <= 2*len(n.Dense)+8; p = n.Prev {
			for kk, vv := range p.Dense {
				if _, ok := n.Dense[kk]; !ok {
					n.Dense[kk] = vv
				}
			}
			n.Prev, n.depth = p.Prev, p.depth
		}
		st.heap.Set(k, n)
		return
	}
	st.heap.Set(k, &Content{Prev: c, W: &MapWrite{Guard: guard, Dims: d, Val: v}, depth: c.depth + 1})
}

func (p *Ptr) field(i int) *Ptr {
	return &Ptr{p.Obj, p.Fam, append(append([]Step(nil), p.Path...), Step{F: i}), 0}
}
func (p *Ptr) index(i *Term) *Ptr {
	if p.Win > 0 { // overlay window: shift the last index
		np := append([]Step(nil), p.Path...)
		np[len(np)-1].Idx = Add(np[len(np)-1].Idx, i)
		return &Ptr{p.Obj, p.Fam, np, 0}
	}
	return &Ptr{p.Obj, p.Fam, append(append([]Step(nil), p.Path...), Step{Idx: i}), 0}
}

func (e *Engine) load(st *State, pv Value, t types.Type, where string) Value {
	switch p := pv.(type) {
	case *Ptr:
		if p.Obj == nil {
			e.oblige(st, "nil dereference "+where, False)
			unsupported("nil dereference at %s", where)
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			r := &StructV{make([]Value, u.NumFields())}
			for i := range r.F {
				r.F[i] = e.load(st, p.field(i), u.Field(i).Type(), where)
			}
			return r
		case *types.Array:
			if u.Len() > 256 {
				unsupported("load of large array")
			}
			r := &ArrayV{make([]Value, u.Len())}
			for i := range r.E {
				r.E[i] = e.load(st, p.index(Int(int64(i))), u.Elem(), where)
			}
			return r
		}
		return e.loadLeaf(st, p)
	case *Union:
		var r Value
		for i := len(p.Alts) - 1; i >= 0; i-- {
			if q, ok := p.Alts[i].V.(*Ptr); ok && q.Obj == nil {
				e.oblige(st, "nil dereference "+where, Not(p.Alts[i].C))
				continue
			}
			v := e.load(st, p.Alts[i].V, t, where)
			if r == nil {
				r = v
			} else {
				r = iteVal(p.Alts[i].C, v, r)
			}
		}
		return r
	case *UnkV:
		unsupported("load through unknown pointer (%s) at %s", p.Why, where)
	}
	unsupported("load through %T at %s", pv, where)
	return nil
}

func (e *Engine) store(st *State, pv Value, v Value, t types.Type, guard *Term, where string) {
	switch p := pv.(type) {
	case *Ptr:
		if p.Obj == nil {
			e.oblige(st, "nil dereference "+where, Not(guard))
			unsupported("nil store at %s", where)
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				e.store(st, p.field(i), fieldOf(v, i), u.Field(i).Type(), guard, where)
			}
			return
		case *types.Array:
			if u.Len() > 256 {
				unsupported("store of large array")
			}
			av, ok := v.(*ArrayV)
			if !ok {
				unsupported("array store of %T", v)
			}
			for i := range av.E {
				e.store(st, p.index(Int(int64(i))), av.E[i], u.Elem(), guard, where)
			}
			return
		}
		e.storeLeaf(st, p, v, guard)
		return
	case *Union:
		for _, a := range p.Alts {
			if q, ok := a.V.(*Ptr); ok && q.Obj == nil {
				e.oblige(st, "nil dereference "+where, Not(a.C))
				continue
			}
			e.store(st, a.V, v, t, And(guard, a.C), where)
		}
		return
	case *UnkV:
		unsupported("store through unknown pointer (%s)", p.Why)
	}
	unsupported("store through %T", pv)
}

func fieldOf(v Value, i int) Value {
	switch x := v.(type) {
	case *StructV:
		return x.F[i]
	case *UnkV:
		return x
	}
	unsupported("field of %T", v)
	return nil
}

// elemPtr is the address of element i of a slice.
func (s *Slice) elemPtr(i *Term) *Ptr {
	return &Ptr{s.Obj, s.Fam, append(append([]Step(nil), s.Path...), Step{Idx: Add(s.Off, i)}), 0}
}

func (e *Engine) bounds(st *State, i, n *Term, where string) {
	c := And(Not(Slt(i, Int(0))), Slt(i, n))
	if c == True {
		e.pass("index in range "+where, "normal form")
		return
	}
	e.oblige(st, "index in range "+where, c)
	st.Assume(c)
}

func (e *Engine) alloc(st *State, t types.Type, name string) *Ptr {
	o := e.newObj(name, t, false, nil)
	return &Ptr{Obj: o, Fam: o.Home}
}

func (e *Engine) makeSlice(st *State, elem types.Type, n, c *Term, name string) *Slice {
	o := e.newObj(name, elem, true, c)
	return &Slice{Obj: o, Fam: o.Home, Off: Int(0), Len: n, Cap: c}
}

func asTerm(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		if u, ok := v.(*UnkV); ok {
			unsupported("use of unknown value: %s", u.Why)
		}
		unsupported("scalar expected, got %T", v)
	}
	return t
}
func to64(v Value, t types.Type) *Term {
	x := asTerm(v)
	_, sg, _ := basicSort(t)
	if x.S.W == 64 {
		return x
	}
	if sg {
		return SextT(x, 64)
	}
	return ZextT(x, 64)
}

// ---- instructions ----------------------------------------------------------

func (e *Engine) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		p := e.alloc(st, t, x.Comment+"@"+e.pos(x))
		fr.env[x] = p
	case *ssa.UnOp:
		fr.env[x] = e.unop(fr, st, x)
	case *ssa.BinOp:
		fr.env[x] = e.binop(st, x.Op, e.val(fr, x.X), e.val(fr, x.Y), x.X.Type(), x.Y.Type(), e.pos(x))
	case *ssa.Store:
		e.store(st, e.val(fr, x.Addr), e.val(fr, x.Val), x.Val.Type(), True, e.pos(x))
	case *ssa.FieldAddr:
		fr.env[x] = e.fieldAddr(st, e.val(fr, x.X), x.Field, e.pos(x))
	case *ssa.Field:
		fr.env[x] = fieldOf(e.val(fr, x.X), x.Field)
	case *ssa.IndexAddr:
		fr.env[x] = e.indexAddr(st, e.val(fr, x.X), x.X.Type(), to64(e.val(fr, x.Index), x.Index.Type()), e.pos(x))
	case *ssa.Index:
		fr.env[x] = e.index(st, e.val(fr, x.X), to64(e.val(fr, x.Index), x.Index.Type()), e.pos(x))
	case *ssa.Convert:
		fr.env[x] = e.convert(st, e.val(fr, x.X), x.X.Type(), x.Type(), e.pos(x))
	case *ssa.ChangeType:
		fr.env[x] = e.val(fr, x.X)
	case *ssa.ChangeInterface:
		fr.env[x] = e.val(fr, x.X)
	case *ssa.MakeInterface:
		fr.env[x] = &IfaceV{x.X.Type(), e.val(fr, x.X)}
	case *ssa.TypeAssert:
		fr.env[x] = e.typeAssert(st, x, e.val(fr, x.X))
	case *ssa.Extract:
		fr.env[x] = e.val(fr, x.Tuple).(*TupleV).E[x.Index]
	case *ssa.MakeSlice:
		n := to64(e.val(fr, x.Len), x.Len.Type())
		c := to64(e.val(fr, x.Cap), x.Cap.Type())
		e.oblige(st, "make: length not negative "+e.pos(x), And(Not(Slt(n, Int(0))), Not(Slt(c, n))))
		st.Assume(Not(Slt(n, Int(0))))
		fr.env[x] = e.makeSlice(st, x.Type().Underlying().(*types.Slice).Elem(), n, c, "make@"+e.pos(x))
	case *ssa.Slice:
		fr.env[x] = e.slice(fr, st, x)
	case *ssa.Call:
		cc := &x.Call
		var fnv Value
		if cc.IsInvoke() {
			fnv = e.val(fr, cc.Value)
		} else if _, ok := cc.Value.(*ssa.Function); !ok {
			if _, ok := cc.Value.(*ssa.Builtin); !ok {
				fnv = e.val(fr, cc.Value)
			}
		}
		args := make([]Value, len(cc.Args))
		for i, a := range cc.Args {
			args[i] = e.val(fr, a)
		}
		fr.env[x] = e.invoke(fr, st, cc, fnv, args, x)
	case *ssa.MakeClosure:
		f := &FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Binds = append(f.Binds, e.val(fr, b))
		}
		fr.env[x] = f
	case *ssa.Defer:
		d := deferred{call: &x.Call}
		if x.Call.IsInvoke() {
			d.fn = e.val(fr, x.Call.Value)
		} else if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
			d.fn = e.val(fr, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(fr, a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.Go:
		e.goStmt(fr, st, x)
	case *ssa.MakeMap:
		o := e.newObj("map@"+e.pos(x), x.Type(), false, nil)
		o.Kind = "map"
		fr.env[x] = &Ptr{Obj: o, Fam: o.Home}
	case *ssa.MapUpdate:
		m := e.val(fr, x.Map).(*Ptr)
		if m.Obj == nil {
			e.oblige(st, "assignment to nil map", False)
			unsupported("nil map")
		}
		k := RegKey{m.Obj, "#map"}
		if len(e.famDims(m)) != 0 {
			unsupported("map family")
		}
		old := st.content(k).Read(nil).(*mapData)
		st.heap.Set(k, &Content{FnVal: old.set(e.val(fr, x.Key), e.val(fr, x.Value)), Tag: "map"})
	case *ssa.Lookup:
		fr.env[x] = e.lookup(st, x, e.val(fr, x.X), e.val(fr, x.Index))
	case *ssa.SliceToArrayPointer:
		s := e.val(fr, x.X).(*Slice)
		n := x.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		e.oblige(st, "slice to array conversion "+e.pos(x), Not(Slt(s.Len, Int(n))))
		p := s.elemPtr(Int(0))
		p.Win = n
		fr.env[x] = p
	default:
		unsupported("instruction %T at %s", in, e.pos(in))
	}
}

type mapData struct {
	k []Value
	v []Value
}

func (m *mapData) set(k, v Value) *mapData {
	n := &mapData{append([]Value(nil), m.k...), append([]Value(nil), m.v...)}
	for i := range n.k {
		if sameVal(n.k[i], k) {
			n.v[i] = v
			return n
		}
	}
	n.k = append(n.k, k)
	n.v = append(n.v, v)
	return n
}

func isConstVal(v Value) bool {
	switch x := v.(type) {
	case *Term:
		return x.IsConst()
	case StrV:
		return true
	}
	return false
}

func (e *Engine) lookup(st *State, x *ssa.Lookup, m, k Value) Value {
	if s, ok := m.(StrV); ok {
		i, ok := asTerm(k).Int()
		if !ok || i < 0 || int(i) >= len(s) {
			unsupported("string index")
		}
		return BVc(uint64(s[i]), BV8)
	}
	p, ok := m.(*Ptr)
	if !ok {
		unsupported("map lookup in %T", m)
	}
	et := x.X.Type().Underlying().(*types.Map).Elem()
	res, found := zeroVal(et), False
	if p.Obj != nil {
		md, ok := st.content(RegKey{p.Obj, "#map"}).Read(nil).(*mapData)
		if !ok {
			unsupported("map value")
		}
		if !isConstVal(k) {
			kt, ok := k.(*Term)
			if !ok {
				unsupported("symbolic map key")
			}
			for i := range md.k {
				c := Eq(kt, asTerm(md.k[i]))
				res = iteVal(c, md.v[i], res)
				found = Or(found, c)
			}
		} else {
			for i := range md.k {
				if sameVal(md.k[i], k) {
					res, found = md.v[i], True
				}
			}
		}
	}
	if x.CommaOk {
		return &TupleV{[]Value{res, found}}
	}
	return res
}

func (e *Engine) fieldAddr(st *State, v Value, f int, where string) Value {
	switch p := v.(type) {
	case *Ptr:
		if p.Obj == nil {
			e.oblige(st, "nil dereference "+where, False)
			unsupported("nil field address at %s", where)
		}
		return p.field(f)
	case *Union:
		var r Value
		for i := len(p.Alts) - 1; i >= 0; i-- {
			if q, ok := p.Alts[i].V.(*Ptr); ok && q.Obj == nil {
				e.oblige(st, "nil dereference "+where, Not(p.Alts[i].C))
				continue
			}
			w := e.fieldAddr(st, p.Alts[i].V, f, where)
			if r == nil {
				r = w
			} else {
				r = iteVal(p.Alts[i].C, w, r)
			}
		}
		return r
	case *UnkV:
		unsupported("field of unknown pointer (%s) at %s", p.Why, where)
	}
	unsupported("field address of %T", v)
	return nil
}

func (e *Engine) indexAddr(st *State, v Value, t types.Type, i *Term, where string) Value {
	switch s := v.(type) {
	case *Slice:
		e.bounds(st, i, s.Len, where)
		if s.Obj == nil {
			unsupported("index into nil slice at %s", where)
		}
		return s.elemPtr(i)
	case *Ptr: // pointer to array
		at := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		e.bounds(st, i, Int(at.Len()), where)
		if s.Obj == nil {
			unsupported("index into nil array")
		}
		return s.index(i)
	case *Union:
		var r Value
		for k := len(s.Alts) - 1; k >= 0; k-- {
			n := len(st.pc)
			st.Assume(s.Alts[k].C)
			w := e.indexAddr(st, s.Alts[k].V, t, i, where)
			st.pc = st.pc[:min(n, len(st.pc))]
			if r == nil {
				r = w
			} else {
				r = iteVal(s.Alts[k].C, w, r)
			}
		}
		return r
	case *UnkV:
		unsupported("index into unknown (%s) at %s", s.Why, where)
	}
	unsupported("index address of %T at %s", v, where)
	return nil
}

func (e *Engine) index(st *State, v Value, i *Term, where string) Value {
	switch a := v.(type) {
	case *ArrayV:
		e.bounds(st, i, Int(int64(len(a.E))), where)
		if c, ok := i.Int(); ok && c >= 0 && int(c) < len(a.E) {
			return a.E[c]
		}
		var r Value
		for k := len(a.E) - 1; k >= 0; k-- {
			if r == nil {
				r = a.E[k]
			} else {
				r = iteVal(Eq(i, Int(int64(k))), a.E[k], r)
			}
		}
		return r
	case StrV:
		c, ok := i.Int()
		if ok && c >= 0 && int(c) < len(a) {
			return BVc(uint64(a[c]), BV8)
		}
	}
	unsupported("index of %T", v)
	return nil
}

func (e *Engine) slice(fr *Frame, st *State, x *ssa.Slice) Value {
	v := e.val(fr, x.X)
	opt := func(a ssa.Value, d *Term) *Term {
		if a == nil {
			return d
		}
		return to64(e.val(fr, a), a.Type())
	}
	where := e.pos(x)
	switch s := v.(type) {
	case *Slice:
		lo := opt(x.Low, Int(0))
		hi := opt(x.High, s.Len)
		mx := opt(x.Max, s.Cap)
		c := And(Not(Slt(lo, Int(0))), Not(Slt(hi, lo)), Not(Slt(mx, hi)), Not(Slt(s.Cap, mx)))
		e.oblige(st, "slice bounds "+where, c)
		st.Assume(c)
		return &Slice{s.Obj, s.Fam, s.Path, Add(s.Off, lo), Sub(hi, lo), Sub(mx, lo)}
	case *Ptr:
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := Int(at.Len())
		lo := opt(x.Low, Int(0))
		hi := opt(x.High, n)
		e.oblige(st, "slice bounds "+where, And(Not(Slt(lo, Int(0))), Not(Slt(hi, lo)), Not(Slt(n, hi))))
		if s.Win > 0 {
			base := s.Path[len(s.Path)-1].Idx
			return &Slice{s.Obj, s.Fam, s.Path[:len(s.Path)-1], Add(base, lo), Sub(hi, lo), Sub(n, lo)}
		}
		return &Slice{s.Obj, s.Fam, s.Path, lo, Sub(hi, lo), Sub(n, lo)}
	case StrV:
		l, ok1 := opt(x.Low, Int(0)).Int()
		h, ok2 := opt(x.High, Int(int64(len(s)))).Int()
		if ok1 && ok2 && l >= 0 && h >= l && int(h) <= len(s) {
			return s[l:h]
		}
	}
	unsupported("slice of %T at %s", v, where)
	return nil
}

func (e *Engine) unop(fr *Frame, st *State, x *ssa.UnOp) Value {
	v := e.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		return e.load(st, v, x.Type(), e.pos(x))
	case token.NOT:
		return Not(asTerm(v))
	case token.SUB:
		if c, ok := v.(Cplx); ok {
			return Cplx{FNegT(c.Re), FNegT(c.Im)}
		}
		t := asTerm(v)
		if t.S.K == KF64 {
			return FNegT(t)
		}
		return Neg(t)
	case token.XOR:
		return NotBV(asTerm(v))
	}
	unsupported("unary %s", x.Op)
	return nil
}

func isNil(v Value) (*Term, bool) {
	switch p := v.(type) {
	case *Ptr:
		return BoolC(p.Obj == nil), true
	case *Slice:
		return BoolC(p.Obj == nil), true
	case *FuncV:
		return BoolC(p.Fn == nil && p.Sym == ""), true
	case *IfaceV:
		return BoolC(p.T == nil), true
	case *Union:
		r := False
		for _, a := range p.Alts {
			n, ok := isNil(a.V)
			if !ok {
				return nil, false
			}
			r = Or(r, And(a.C, n))
		}
		return r, true
	}
	return nil, false
}

func (e *Engine) eqVal(st *State, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y := asTerm(b)
		if x.S.K == KF64 {
			return FCmp(OFEq, x, y)
		}
		return Eq(x, y)
	case StrV:
		if y, ok := b.(StrV); ok {
			return BoolC(x == y)
		}
	case Cplx:
		y := b.(Cplx)
		return And(FCmp(OFEq, x.Re, y.Re), FCmp(OFEq, x.Im, y.Im))
	case *StructV:
		y, ok := b.(*StructV)
		if ok {
			r := True
			for i := range x.F {
				r = And(r, e.eqVal(st, x.F[i], y.F[i]))
			}
			return r
		}
	case *Ptr:
		if y, ok := b.(*Ptr); ok {
			if x.Obj != y.Obj || x.Obj == nil {
				return BoolC(x.Obj == y.Obj)
			}
			ps, d := pathString(x.Path)
			qs, f := pathString(y.Path)
			if ps != qs || x.Win != y.Win {
				return False
			}
			return And(dimsEq(x.Fam, y.Fam), dimsEq(d, f))
		}
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if ok {
			r := True
			for i := range x.E {
				r = And(r, e.eqVal(st, x.E[i], y.E[i]))
			}
			return r
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if x.T == nil || y.T == nil {
				return BoolC(x.T == nil && y.T == nil)
			}
			if !types.Identical(x.T, y.T) {
				return False
			}
			return e.eqVal(st, x.V, y.V)
		}
	}
	na, ok1 := isNil(a)
	nb, ok2 := isNil(b)
	if ok1 && ok2 {
		if nb == True {
			return na
		}
		if na == True {
			return nb
		}
		if u, ok := a.(*Union); ok {
			r := False
			for _, al := range u.Alts {
				r = Or(r, And(al.C, e.eqVal(st, al.V, b)))
			}
			return r
		}
		if _, ok := b.(*Union); ok {
			return e.eqVal(st, b, a)
		}
	}
	unsupported("comparison of %T and %T", a, b)
	return nil
}

func (e *Engine) binop(st *State, op token.Token, a, b Value, ta, tb types.Type, where string) Value {
	switch op {
	case token.EQL:
		return e.eqVal(st, a, b)
	case token.NEQ:
		return Not(e.eqVal(st, a, b))
	}
	if sa, ok := a.(StrV); ok {
		sb, ok := b.(StrV)
		if !ok {
			unsupported("string op")
		}
		switch op {
		case token.ADD:
			return sa + sb
		case token.LSS:
			return BoolC(sa < sb)
		case token.GTR:
			return BoolC(sa > sb)
		}
		unsupported("string op %s", op)
	}
	if ca, ok := a.(Cplx); ok {
		cb, ok := b.(Cplx)
		if !ok {
			unsupported("complex op")
		}
		switch op {
		case token.ADD:
			return Cplx{FBin(OFAdd, ca.Re, cb.Re), FBin(OFAdd, ca.Im, cb.Im)}
		case token.SUB:
			return Cplx{FBin(OFSub, ca.Re, cb.Re), FBin(OFSub, ca.Im, cb.Im)}
		case token.MUL:
			return Cplx{FBin(OFSub, FBin(OFMul, ca.Re, cb.Re), FBin(OFMul, ca.Im, cb.Im)),
				FBin(OFAdd, FBin(OFMul, ca.Re, cb.Im), FBin(OFMul, ca.Im, cb.Re))}
		case token.QUO:
			ar, o1 := ca.Re.Float()
			ai, o2 := ca.Im.Float()
			br, o3 := cb.Re.Float()
			bi, o4 := cb.Im.Float()
			if o1 && o2 && o3 && o4 {
				q := complex(ar, ai) / complex(br, bi)
				return Cplx{FloatC(real(q)), FloatC(imag(q))}
			}
		}
		unsupported("complex op %s", op)
	}
	x, y := asTerm(a), asTerm(b)
	if x.S.K == KBool {
		switch op {
		case token.AND, token.LAND:
			return And(x, y)
		case token.OR, token.LOR:
			return Or(x, y)
		}
		unsupported("bool op %s", op)
	}
	if x.S.K == KF64 {
		switch op {
		case token.ADD:
			return FBin(OFAdd, x, y)
		case token.SUB:
			return FBin(OFSub, x, y)
		case token.MUL:
			return FBin(OFMul, x, y)
		case token.QUO:
			return FBin(OFDiv, x, y)
		case token.LSS:
			return FCmp(OFLt, x, y)
		case token.LEQ:
			return FCmp(OFLe, x, y)
		case token.GTR:
			return FCmp(OFLt, y, x)
		case token.GEQ:
			return FCmp(OFLe, y, x)
		}
		unsupported("float op %s", op)
	}
	_, sg, _ := basicSort(ta)
	switch op {
	case token.ADD:
		return Add(x, y)
	case token.SUB:
		return Sub(x, y)
	case token.MUL:
		return Mul(x, y)
	case token.QUO, token.REM:
		e.oblige(st, "divisor not zero "+where, Not(Eq(y, BVc(0, y.S))))
		st.Assume(Not(Eq(y, BVc(0, y.S))))
		o := OUDiv
		if op == token.REM {
			o = OURem
		}
		if sg {
			o = OSDiv
			if op == token.REM {
				o = OSRem
			}
		}
		return DivRem(o, x, y)
	case token.AND:
		return AndT(x, y)
	case token.OR:
		return OrT(x, y)
	case token.XOR:
		return XorT(x, y)
	case token.AND_NOT:
		return AndT(x, NotBV(y))
	case token.SHL, token.SHR:
		_, ysg, _ := basicSort(tb)
		if ysg {
			z := BVc(0, y.S)
			c := Not(sltW(y, z))
			e.oblige(st, "shift count not negative "+where, c)
			st.Assume(c)
		}
		return shift(op == token.SHL, sg, x, y)
	case token.LSS:
		return lt(sg, x, y)
	case token.GTR:
		return lt(sg, y, x)
	case token.LEQ:
		return Not(lt(sg, y, x))
	case token.GEQ:
		return Not(lt(sg, x, y))
	}
	unsupported("operator %s", op)
	return nil
}

func sltW(x, y *Term) *Term {
	if x.S.W < 64 {
		return Slt(SextT(x, 64), SextT(y, 64))
	}
	return Slt(x, y)
}
func lt(sg bool, x, y *Term) *Term {
	if sg {
		return sltW(x, y)
	}
	return Ult(x, y)
}

func shift(left, sg bool, x, y *Term) *Term {
	f := func(y *Term) *Term {
		if left {
			return ShlT(x, y)
		}
		if sg {
			return AshrT(x, y)
		}
		return LshrT(x, y)
	}
	if y.IsConst() || y.S.W <= x.S.W {
		return f(y)
	}
	if y.Op == OIte {
		return Ite(y.Args[0], shift(left, sg, x, y.Args[1]), shift(left, sg, x, y.Args[2]))
	}
	if _, h, ok := y.srange(); ok && h < int64(1)<<x.S.W && h >= 0 {
		if l, _, _ := y.srange(); l >= 0 {
			return f(TruncT(y, x.S.W))
		}
	}
	big := Not(Ult(y, BVc(uint64(x.S.W), y.S)))
	over := BVc(0, x.S)
	if sg && !left {
		over = AshrT(x, BVc(uint64(x.S.W-1), x.S))
	}
	return Ite(big, over, f(TruncT(y, x.S.W)))
}

func (e *Engine) convert(st *State, v Value, from, to types.Type, where string) Value {
	tu, fu := to.Underlying(), from.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Kind() == types.UnsafePointer {
			return v
		}
		if tb.Info()&types.IsComplex != 0 {
			return v
		}
		if tb.Info()&types.IsString != 0 {
			if s, ok := v.(StrV); ok {
				return s
			}
			unsupported("string conversion")
		}
		fs, fsg, ok1 := basicSort(from)
		ts, tsg, ok2 := basicSort(to)
		if !ok1 || !ok2 {
			unsupported("conversion %s to %s", from, to)
		}
		x := asTerm(v)
		switch {
		case fs.K == KBV && ts.K == KBV:
			if ts.W < fs.W {
				return TruncT(x, ts.W)
			}
			if ts.W > fs.W {
				if fsg {
					return SextT(x, ts.W)
				}
				return ZextT(x, ts.W)
			}
			return x
		case fs.K == KBV && ts.K == KF64:
			return I2F(x, fsg)
		case fs.K == KF64 && ts.K == KF64:
			return x
		case fs.K == KF64 && ts.K == KBV:
			if f, ok := x.Float(); ok {
				if tsg || ts.W < 64 {
					if math.Abs(f) < 9e18 {
						i := int64(f)
						lo, hi := -math.Pow(2, float64(ts.W-1)), math.Pow(2, float64(ts.W-1))
						if !tsg {
							lo, hi = 0, math.Pow(2, float64(ts.W))
						}
						if math.Trunc(f) >= lo && math.Trunc(f) < hi {
							return BVc(uint64(i), ts)
						}
					}
				} else if f >= 0 && f < 9.2e18 {
					return BVc(uint64(int64(f)), ts)
				} else if f > -1 && f < 18446744073709551616.0 {
					return BVc(uint64(f), ts)
				}
				e.fail("float to integer conversion out of range "+where, fmt.Sprint(f))
				return NewVar("impl", ts)
			}
			if ts.W == 64 && tsg {
				return F2I(x)
			}
			nm := fmt.Sprintf("f2%s", tb.Name())
			return App(nm, ts, x)
		}
		unsupported("conversion %s to %s", from, to)
	}
	if pt, ok := tu.(*types.Pointer); ok {
		if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
			return e.unsafeCast(st, v, pt.Elem(), where)
		}
		return v
	}
	if _, ok := tu.(*types.Slice); ok {
		if _, ok := fu.(*types.Slice); ok {
			return v
		}
	}
	unsupported("conversion %s to %s at %s", from, to, where)
	return nil
}

// unsafeCast models (*[k]T)(unsafe.Pointer(&s[i])): a window of k elements that
// must lie inside the backing array of s.
func (e *Engine) unsafeCast(st *State, v Value, elem types.Type, where string) Value {
	p, ok := v.(*Ptr)
	if !ok || p.Obj == nil {
		unsupported("unsafe cast of %T", v)
	}
	at, ok := elem.Underlying().(*types.Array)
	if !ok {
		if types.Identical(p.typ(), elem) {
			return p
		}
		unsupported("unsafe cast to %s", elem)
	}
	if len(p.Path) == 0 || p.Path[len(p.Path)-1].Idx == nil {
		unsupported("unsafe cast of a non-element pointer")
	}
	if !types.Identical(p.typ().Underlying(), at.Elem().Underlying()) {
		unsupported("unsafe cast changes the element type (%s to %s)", p.typ(), at.Elem())
	}
	var n *Term
	if p.Obj.IsArr && len(p.Path) == 1 {
		n = p.Obj.Len
	} else {
		unsupported("unsafe window over nested array")
	}
	i := p.Path[len(p.Path)-1].Idx
	e.oblige(st, "unsafe window inside the buffer "+where, And(Not(Slt(i, Int(0))), Not(Slt(n, AddC(i, at.Len())))))
	return &Ptr{p.Obj, p.Fam, p.Path, at.Len()}
}

func (p *Ptr) typ() types.Type {
	ps, _ := pathString(p.Path)
	return p.Obj.leafType(ps)
}

func (e *Engine) typeAssert(st *State, x *ssa.TypeAssert, v Value) Value {
	iv, ok := v.(*IfaceV)
	if !ok {
		unsupported("type assertion on %T", v)
	}
	good := iv.T != nil
	if good {
		if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			good = types.Implements(iv.T, it)
			if good {
				if x.CommaOk {
					return &TupleV{[]Value{iv, True}}
				}
				return iv
			}
		} else {
			good = types.Identical(iv.T, x.AssertedType)
		}
	}
	if x.CommaOk {
		if good {
			return &TupleV{[]Value{iv.V, True}}
		}
		return &TupleV{[]Value{zeroVal(x.AssertedType), False}}
	}
	if !good {
		e.oblige(st, "type assertion "+e.pos(x), False)
		unsupported("failing type assertion")
	}
	return iv.V
}

// ---- builtins ---------------------------------------------------------------

func (e *Engine) builtin(fr *Frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Value, at ssa.Instruction) Value {
	switch b.Name() {
	case "len", "cap":
		switch s := args[0].(type) {
		case *Slice:
			if b.Name() == "len" {
				return s.Len
			}
			return s.Cap
		case StrV:
			return Int(int64(len(s)))
		case *ArrayV:
			return Int(int64(len(s.E)))
		case *Ptr:
			if a, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
				return Int(a.Elem().Underlying().(*types.Array).Len())
			}
			if s.Obj == nil {
				return Int(0)
			}
			if md, ok := st.content(RegKey{s.Obj, "#map"}).Read(nil).(*mapData); ok {
				return Int(int64(len(md.k)))
			}
		case *Union:
			var r Value
			for i := len(s.Alts) - 1; i >= 0; i-- {
				w := e.builtin(fr, st, b, cc, []Value{s.Alts[i].V}, at)
				if r == nil {
					r = w
				} else {
					r = iteVal(s.Alts[i].C, w, r)
				}
			}
			return r
		}
		unsupported("%s of %T", b.Name(), args[0])
	case "real":
		return args[0].(Cplx).Re
	case "imag":
		return args[0].(Cplx).Im
	case "complex":
		return Cplx{asTerm(args[0]), asTerm(args[1])}
	case "min", "max":
		r := asTerm(args[0])
		_, sg, _ := basicSort(cc.Args[0].Type())
		for _, a := range args[1:] {
			y := asTerm(a)
			if y.S.K == KF64 {
				unsupported("float min/max")
			}
			c := lt(sg, r, y)
			if b.Name() == "min" {
				r = Ite(c, r, y)
			} else {
				r = Ite(c, y, r)
			}
		}
		return r
	case "append":
		return e.appendB(st, args, cc, at)
	case "copy":
		return e.copyB(st, args[0], args[1], cc, at)
	case "clear":
		if s, ok := args[0].(*Slice); ok {
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			e.fill(st, s, et, zeroVal(et))
			return &TupleV{}
		}
	case "print", "println":
		return &TupleV{}
	case "ssa:wrapnilchk":
		return args[0]
	}
	unsupported("builtin %s", b.Name())
	return nil
}

// fill writes v to every element of s.
func (e *Engine) fill(st *State, s *Slice, et types.Type, v Value) {
	if s.Obj == nil {
		return
	}
	x := e.idxVar(s.Len)
	st.Assume(True)
	e.mapStore(st, s, et, x, func(*Term) Value { return v })
}

func (e *Engine) idxVar(n *Term) *Term {
	hi := int64(math.MaxInt64)
	if _, h, ok := n.srange(); ok {
		hi = h - 1
	}
	return NewRVar("x", BV64, 0, hi)
}

// mapStore: s[x] = f(x) for all x in [0,len).
func (e *Engine) mapStore(st *State, s *Slice, et types.Type, x *Term, f func(*Term) Value) {
	if n, ok := s.Len.Int(); ok && n <= 0 {
		return
	}
	var rec func(p *Ptr, t types.Type, v Value)
	rec = func(p *Ptr, t types.Type, v Value) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(p.field(i), u.Field(i).Type(), fieldOf(v, i))
			}
			return
		case *types.Array:
			for i := int64(0); i < u.Len(); i++ {
				rec(p.index(Int(i)), u.Elem(), v.(*ArrayV).E[i])
			}
			return
		}
		k, d := e.region(st, p)
		_, idx := pathString(p.Path)
		if e.logging > 0 && e.quiet == 0 {
			e.logAcc(st, k, p, idx, true)
			a := e.accLog[len(e.accLog)-1]
			a.Vars, a.N = append(a.Vars, x), append(a.N, s.Len)
		}
		c := st.content(k)
		st.heap.Set(k, cut(k, &Content{Prev: c, W: &MapWrite{Vars: []*Term{x}, N: []*Term{s.Len}, Guard: True, Dims: d, Val: v}}))
	}
	rec(s.elemPtr(x), et, f(x))
}

func (e *Engine) copyB(st *State, dv, sv Value, cc *ssa.CallCommon, at ssa.Instruction) Value {
	d, ok1 := dv.(*Slice)
	s, ok2 := sv.(*Slice)
	if !ok1 || !ok2 {
		unsupported("copy of %T", sv)
	}
	n := d.Len
	if d.Len != s.Len {
		c := Slt(s.Len, d.Len)
		switch e.decide(st, c) {
		case 1:
			n = s.Len
		case 0:
		default:
			n = Ite(c, s.Len, d.Len)
		}
	}
	if c, ok := n.Int(); ok && c == 0 {
		return n
	}
	if d.Obj == nil || s.Obj == nil {
		return n
	}
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	if c, ok := n.Int(); ok && c <= 16 {
		vs := make([]Value, c)
		for i := range vs {
			vs[i] = e.load(st, s.elemPtr(Int(int64(i))), et, e.pos(at))
		}
		for i := range vs {
			e.store(st, d.elemPtr(Int(int64(i))), vs[i], et, True, e.pos(at))
		}
		return n
	}
	x := e.idxVar(n)
	np := len(st.pc)
	if !n.IsConst() {
		st.Assume(Slt(x, n))
	}
	nl := len(e.accLog)
	v := e.load(st, s.elemPtr(x), et, e.pos(at))
	for _, a := range e.accLog[nl:] {
		a.Vars, a.N = append(a.Vars, x), append(a.N, n)
	}
	st.pc = st.pc[:np]
	// memmove semantics: the value is read from the state before the copy
	dd := *d
	dd.Len = n
	e.mapStore(st, &dd, et, x, func(*Term) Value { return v })
	return n
}

func (e *Engine) appendB(st *State, args []Value, cc *ssa.CallCommon, at ssa.Instruction) Value {
	s, ok1 := args[0].(*Slice)
	t, ok2 := args[1].(*Slice)
	if !ok1 || !ok2 {
		unsupported("append of %T", args[1])
	}
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	nl := Add(s.Len, t.Len)
	fits := e.decide(st, Not(Slt(s.Cap, nl)))
	if fits < 0 {
		unsupported("append with undecided capacity at %s", e.pos(at))
	}
	tn, tc := t.Len.Int()
	long := !tc || tn > 64
	var lv Value
	var lx *Term
	if long {
		lx = e.idxVar(t.Len)
		np := len(st.pc)
		if !tc {
			st.Assume(Slt(lx, t.Len))
		}
		na := len(e.accLog)
		lv = e.load(st, t.elemPtr(lx), et, e.pos(at))
		for _, a := range e.accLog[na:] {
			a.Vars, a.N = append(a.Vars, lx), append(a.N, t.Len)
		}
		st.pc = st.pc[:np]
		tn = 0
	}
	vs := make([]Value, tn)
	for i := range vs {
		vs[i] = e.load(st, t.elemPtr(Int(int64(i))), et, e.pos(at))
	}
	dst := &Slice{s.Obj, s.Fam, s.Path, s.Off, nl, s.Cap}
	if fits == 0 {
		// reallocation: capacity unknown but at least nl; contents copied
		c := nl
		if n, ok := nl.Int(); ok {
			c = Int(max(2*n, 4))
		}
		nd := e.makeSlice(st, et, nl, c, "append@"+e.pos(at))
		if sn, ok := s.Len.Int(); ok && sn <= 64 {
			for i := int64(0); i < sn; i++ {
				e.store(st, nd.elemPtr(Int(i)), e.load(st, s.elemPtr(Int(i)), et, ""), et, True, "")
			}
		} else if s.Obj != nil {
			x := e.idxVar(s.Len)
			v := e.load(st, s.elemPtr(x), et, e.pos(at))
			dd := *nd
			dd.Len = s.Len
			e.mapStore(st, &dd, et, x, func(*Term) Value { return v })
		}
		dst = nd
	}
	for i := range vs {
		e.store(st, dst.elemPtr(Add(s.Len, Int(int64(i)))), vs[i], et, True, e.pos(at))
	}
	if long {
		dd := *dst
		dd.Off, dd.Len = Add(dst.Off, s.Len), t.Len
		e.mapStore(st, &dd, et, lx, func(*Term) Value { return lv })
	}
	return dst
}

func atomOf(c *Term) *Term {
	if c.Op == ONot {
		c = c.Args[0]
	}
	if c.Op == OVar || c.Op == OSel && c.Args[0].Op == OVar {
		return c
	}
	return nil
}
