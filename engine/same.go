package main

import (
	"fmt"
	"os"
	"strings"
)

// Equality of large terms by congruence: two terms whose corresponding parts are
// equal are equal.  Array contents (abbreviated states, applications, lambdas)
// are compared part by part; scalar parts by the normal form or the solver, with
// the index variables ranging over their whole domain.

type samePair struct{ a, b *Term }

var (
	sameMemo  = map[samePair]bool{}
	sameSmt   int // solver calls since the memo was cleared
	sameLimit = 400
)

func isContent(s Sort) bool { return s.K == KArr || s.K == KArrF || s.K == KArrB }

func same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.S != b.S {
		return false
	}
	k := samePair{a, b}
	if r, ok := sameMemo[k]; ok {
		return r
	}
	sameMemo[k] = false
	if isContent(a.S) && leafSet(a) != leafSet(b) {
		return false
	}
	r := same0(a, b)
	sameMemo[k] = r
	return r
}

func same0(a, b *Term) bool {
	if d := abbrevDef[a]; d != nil {
		if d2 := abbrevDef[b]; d2 != nil {
			return same(d, d2)
		}
		return same(d, b)
	}
	if d := abbrevDef[b]; d != nil {
		return same(a, d)
	}
	if a.Op == OLam && b.Op == OLam {
		return sameUnder(a.Args[0], a.Args[1], b.Args[0], b.Args[1])
	}
	if a.Op == OLam || b.Op == OLam {
		if a.Op != OLam {
			a, b = b, a
		}
		if !isContent(b.S) {
			return false
		}
		return same(a.Args[1], Select(b, a.Args[0]))
	}
	if a.Op == b.Op && a.Name == b.Name && a.C == b.C && len(a.Args) == len(b.Args) && len(a.Args) > 0 {
		switch a.Op {
		case OSum:
			if same(a.Args[1], b.Args[1]) && sameUnder(a.Args[0], a.Args[2], b.Args[0], b.Args[2]) {
				return true
			}
		case OLin, OMul:
			if sameArgs(a, b) {
				return true
			}
		default:
			ok := true
			for i := range a.Args {
				if !same(a.Args[i], b.Args[i]) {
					ok = false
					break
				}
			}
			if ok {
				return true
			}
		}
	}
	if a.S.K == KBV || a.S.K == KBool {
		return sameScalar(a, b)
	}
	return false
}

// sameUnder compares bodies for every value of the bound variable.
func sameUnder(va, ba, vb, bb *Term) bool {
	if va != vb {
		if va.Hi != vb.Hi || va.S != vb.S {
			return false
		}
		bb = subst1(bb, vb, va)
	}
	return same(ba, bb)
}

// opaqueTerm: equal to another one only when identical.
func opaqueTerm(t *Term) bool {
	if (t.Op == OApp || t.Op == OSel) && len(t.Args) > 0 {
		for _, a := range t.Args {
			if !opaqueTerm(a) {
				return false
			}
		}
		return true
	}
	return t.Op == OVar && abbrevDef[t] == nil && !strings.HasPrefix(t.Name, "#") || t.Op == OConst
}

// sameArgs matches the arguments of two sums or products.
func sameArgs(a, b *Term) bool {
	coef := func(t *Term, i int) uint64 {
		if t.Op == OLin {
			return t.Coef[i]
		}
		return 1
	}
	usedB := make([]bool, len(b.Args))
	var rest []int
	for i, x := range a.Args {
		hit := false
		for j, y := range b.Args {
			if !usedB[j] && x == y && coef(a, i) == coef(b, j) {
				usedB[j], hit = true, true
				break
			}
		}
		if !hit {
			if opaqueTerm(x) {
				return false
			}
			rest = append(rest, i)
		}
	}
	for j, y := range b.Args {
		if !usedB[j] && opaqueTerm(y) {
			return false
		}
	}
	for _, i := range rest {
		hit := false
		for j, y := range b.Args {
			if !usedB[j] && coef(a, i) == coef(b, j) && same(a.Args[i], y) {
				usedB[j], hit = true, true
				break
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

// contents: the maximal array contents a scalar term reads.
func contents(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if isContent(t.S) {
			out = append(out, t)
			return
		}
		for _, a := range t.Args {
			f(a)
		}
	}
	f(t)
	return out
}

// unify replaces contents of b by equal contents of a; ok tells whether every
// content of b now occurs in a and the other way round.
func unify(a, b *Term) (*Term, bool) {
	ca, cb := contents(a), contents(b)
	in := map[*Term]bool{}
	for _, x := range ca {
		in[x] = true
	}
	inb := map[*Term]bool{}
	for _, y := range cb {
		inb[y] = true
	}
	m := map[*Term]*Term{}
	ok := true
	hit := map[*Term]bool{}
	for _, y := range cb {
		if in[y] {
			hit[y] = true
			continue
		}
		found := false
		for _, x := range ca {
			if !inb[x] && same(x, y) {
				m[y] = x
				hit[x] = true
				found = true
				break
			}
		}
		if !found {
			ok = false
		}
	}
	_ = hit
	if len(m) > 0 {
		b = Subst(b, m)
	}
	return b, ok
}

func sameScalar(a, b *Term) bool {
	if termSize(a, 4000) >= 4000 || termSize(b, 4000) >= 4000 {
		return false
	}
	b, ok := unify(a, b)
	if !ok {
		if os.Getenv("GOVC_SAME") != "" {
			fmt.Fprintln(os.Stderr, "CONTENTS", clip(a.String(), 300), "\n   ", clip(b.String(), 300))
		}
		return false
	}
	var q *Term
	if a.S.K == KBool {
		q = Or(And(a, Not(b)), And(b, Not(a)))
	} else {
		q = Not(Eq(a, b))
	}
	if q == False {
		return true
	}
	if q == True || sameSmt >= sameLimit {
		return false
	}
	n := smtStats.Queries
	r, _ := checkSat([]*Term{q}, false, 4000)
	if smtStats.Queries > n && r != "unsat" {
		sameSmt++
	}
	if r != "unsat" && os.Getenv("GOVC_SAME") != "" {
		fmt.Fprintln(os.Stderr, "DIFFERENT", r, "\n   ", clip(a.String(), 700), "\n   ", clip(b.String(), 700))
	}
	return r == "unsat"
}

// merge rewrites c so that equal contents are the same term.
func merge(c *Term) *Term {
	cs := contents(c)
	if len(cs) < 2 || len(cs) > 12 {
		return c
	}
	if len(sameMemo) > 200000 {
		sameMemo = map[samePair]bool{}
	}
	sameSmt = 0
	m := map[*Term]*Term{}
	for i, x := range cs {
		if m[x] != nil {
			continue
		}
		for _, y := range cs[i+1:] {
			if m[y] == nil && x.S == y.S && same(x, y) {
				m[y] = x
			}
		}
	}
	if len(m) == 0 {
		return c
	}
	return Subst(c, m)
}

// leafSet: a fingerprint of the inputs a content reads itself (not through
// abbreviated states); contents with different inputs are not compared.
var leafMemo = map[*Term]uint64{}

func leafSet(t *Term) uint64 {
	if r, ok := leafMemo[t]; ok {
		return r
	}
	root := t
	if d := abbrevDef[t]; d != nil {
		root = d
	}
	seen := map[*Term]bool{}
	var h uint64
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OVar && abbrevDef[t] == nil && !strings.HasPrefix(t.Name, "#") {
			h += t.hash*0x9e3779b97f4a7c15 + 1
		}
		if (t.Op == OSel || t.Op == OApp) && opaqueTerm(t) {
			h += t.hash*0x9e3779b97f4a7c15 + 1
			return
		}
		for _, a := range t.Args {
			f(a)
		}
	}
	f(root)
	leafMemo[t] = h
	return h
}

// unrollSums writes out the sums whose constant number of terms lies above the
// normal form's own bound: a loop executed step by step then meets its specification.
func unrollSums(t *Term, memo map[*Term]*Term) *Term {
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	switch {
	case t.Op == OSum:
		fresh := NewRVar("u", t.Args[0].S, t.Args[0].Lo, t.Args[0].Hi)
		b := subst1(t.Args[2], t.Args[0], fresh)
		nb := unrollSums(b, map[*Term]*Term{})
		if c, ok := t.Args[1].Int(); ok && c <= 64 {
			r = BVc(0, t.S)
			for i := int64(0); i < c; i++ {
				r = Add(r, subst1(nb, fresh, Int(i)))
			}
		} else if nb != b {
			r = Sum(fresh, t.Args[1], nb)
		}
	case t.Op == OLam:
	default:
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = unrollSums(a, memo)
			ch = ch || as[i] != a
		}
		if ch {
			r = Rebuild(t, as)
		}
	}
	memo[t] = r
	return r
}
