package main

// Integer/real relaxation, for obligations with double arithmetic or products
// and quotients of variables.  Every bit-vector term is an integer (signed
// reading at 64 bits, unsigned below; wrap-around becomes an explicit multiple
// of 2^w), every double a real with the standard rounding model
// |fl(x) - x| <= 2^-53|x| + 1e-40 (finite values; no overflow to infinity).
// The relaxation over-approximates, so only "unsat" counts.

import (
	"fmt"
	"math"
	mbig "math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

func needsArith(c *Term, pc []*Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if len(seen) > 4000 {
			return false
		}
		switch t.Op {
		case OFAdd, OFSub, OFMul, OFDiv, OFNeg, OFLt, OFLe, OFEq, OF2I, OI2F, OU2F:
			return true
		case OMul:
			if t.S.K == KBV && t.S.W == 64 {
				return true
			}
		case OSDiv, OUDiv, OSRem, OURem:
			return true
		case OLam, OSum:
			return false
		}
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	if f(c) {
		return true
	}
	return false
}

type agen struct {
	sb   strings.Builder
	memo map[*Term]string
	n    int
	wr   map[string]string
	pos  map[string]bool
}

func (g *agen) fresh(p, sort string) string {
	g.n++
	s := fmt.Sprintf("%s%d", p, g.n)
	fmt.Fprintf(&g.sb, "(declare-const %s %s)\n", s, sort)
	return s
}
func (g *agen) assert(f string, a ...interface{}) {
	g.sb.WriteString("(assert ")
	fmt.Fprintf(&g.sb, f, a...)
	g.sb.WriteString(")\n")
}
func il(c int64) string {
	if c < 0 {
		if c == math.MinInt64 {
			return "(- 9223372036854775808)"
		}
		return fmt.Sprintf("(- %d)", -c)
	}
	return fmt.Sprint(c)
}
func pow2(k uint) string { return new(mbig.Int).Lsh(mbig.NewInt(1), k).String() }
func rl(r *mbig.Rat) string {
	s := fmt.Sprintf("(/ %s.0 %s.0)", new(mbig.Int).Abs(r.Num()), r.Denom())
	if r.Sign() < 0 {
		return "(- " + s + ")"
	}
	return s
}

// wrapTo: expression reduced into the value range of a w-bit term.
func (g *agen) wrapTo(x string, w uint8) string {
	r, k := g.fresh("r", "Int"), g.fresh("k", "Int")
	g.assert("(= %s (- %s (* %s %s)))", r, x, pow2(uint(w)), k)
	g.bound(r, w)
	return r
}
func (g *agen) bound(r string, w uint8) {
	if w == 64 {
		g.assert("(and (<= (- %s) %s) (< %s %s))", pow2(63), r, r, pow2(63))
	} else {
		g.assert("(and (<= 0 %s) (< %s %s))", r, r, pow2(uint(w)))
	}
}
func (g *agen) define(x, sort string) string {
	if len(x) < 24 {
		return x
	}
	g.n++
	s := fmt.Sprintf("d%d", g.n)
	fmt.Fprintf(&g.sb, "(define-fun %s () %s %s)\n", s, sort, x)
	return s
}

func (g *agen) term(t *Term) string {
	if s, ok := g.memo[t]; ok {
		return s
	}
	var s string
	switch t.S.K {
	case KBool:
		s = g.define(g.boolT(t), "Bool")
	case KBV:
		s = g.define(g.intT(t), "Int")
	case KF64:
		s = g.define(g.realT(t), "Real")
		if nonnegF(t) {
			g.pos[s] = true
		}
	default:
		s = "?"
	}
	g.memo[t] = s
	return s
}

// linExact: does the linear form stay inside the value range without wrapping?
func linExact(t *Term) bool {
	if t.S.W == 64 {
		_, _, ok := t.srange()
		return ok
	}
	lo, hi := sx(t.C, t.S.W), sx(t.C, t.S.W)
	for i, a := range t.Args {
		c := sx(t.Coef[i], t.S.W)
		al, ah, ok := a.srange()
		if !ok {
			return false
		}
		x, o1 := mulOv(c, al)
		y, o2 := mulOv(c, ah)
		if !o1 || !o2 {
			return false
		}
		lo, hi = lo+min(x, y), hi+max(x, y)
		if lo < -big1 || hi > big1 {
			return false
		}
	}
	return lo >= 0 && hi <= int64(mask(t.S.W))
}

const big1 = int64(1) << 61

func (g *agen) intT(t *Term) string {
	w := t.S.W
	nonneg := func(a *Term) bool {
		l, _, ok := a.srange()
		return ok && l >= 0
	}
	opaque := func() string {
		r := g.fresh("i", "Int")
		if l, h, ok := t.srange(); ok {
			g.assert("(and (<= %s %s) (<= %s %s))", il(l), r, r, il(h))
		} else {
			g.bound(r, w)
		}
		return r
	}
	switch t.Op {
	case OConst:
		if w == 64 {
			return il(int64(t.C))
		}
		return fmt.Sprint(t.C)
	case OLin:
		x := "(+ " + il(sx(t.C, w))
		for i, a := range t.Args {
			x += fmt.Sprintf(" (* %s %s)", il(sx(t.Coef[i], w)), g.term(a))
		}
		x += ")"
		if linExact(t) {
			return x
		}
		return g.wrapTo(x, w)
	case OMul:
		x := "(*"
		for _, a := range t.Args {
			x += " " + g.term(a)
		}
		x += ")"
		if w == 64 {
			if _, _, ok := t.srange(); ok {
				return x
			}
		}
		return g.wrapTo(x, w)
	case OZext:
		return g.term(t.Args[0])
	case OSext:
		if w == 64 {
			a := t.Args[0]
			x := g.term(a)
			return fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", x, pow2(uint(a.S.W-1)), x, pow2(uint(a.S.W)), x)
		}
	case OTrunc:
		if l, h, ok := t.Args[0].srange(); ok && l >= 0 && h <= int64(mask(w)) {
			return g.term(t.Args[0])
		}
		return g.wrapTo(g.term(t.Args[0]), w)
	case OIte:
		return fmt.Sprintf("(ite %s %s %s)", g.term(t.Args[0]), g.term(t.Args[1]), g.term(t.Args[2]))
	case OUDiv, OURem, OSDiv, OSRem:
		a, b := t.Args[0], t.Args[1]
		signed := t.Op == OSDiv || t.Op == OSRem
		if w == 64 && !signed && !(nonneg(a) && nonneg(b)) {
			return opaque()
		}
		if w != 64 && signed {
			return opaque()
		}
		key := fmt.Sprintf("%d/%d/%v", a.ID, b.ID, signed)
		qr, ok := g.wr[key]
		if !ok {
			q, r := g.fresh("q", "Int"), g.fresh("m", "Int")
			x, y := g.term(a), g.term(b)
			g.assert("(=> (> %s 0) (and (= %s (+ (* %s %s) %s)) (=> (>= %s 0) (and (<= 0 %s) (<= 0 %s) (< %s %s))) (=> (< %s 0) (and (<= %s 0) (<= %s 0) (< (- %s) %s)))))",
				y, x, y, q, r, x, q, r, r, y, x, q, r, y, r)
			qr = q + " " + r
			g.wr[key] = qr
		}
		f := strings.Fields(qr)
		if t.Op == OUDiv || t.Op == OSDiv {
			return f[0]
		}
		return f[1]
	case OLshr:
		if c := t.Args[1]; c.IsConst() && c.C < 64 && (w < 64 || nonneg(t.Args[0])) {
			return fmt.Sprintf("(div %s %s)", g.term(t.Args[0]), pow2(uint(c.C)))
		}
	case OAshr:
		if c := t.Args[1]; c.IsConst() && c.C < 64 && w == 64 {
			return fmt.Sprintf("(div %s %s)", g.term(t.Args[0]), pow2(uint(c.C)))
		}
	case OAnd:
		if c := t.Args[1]; c.IsConst() && c.C&(c.C+1) == 0 && c.C < 1<<62 {
			return fmt.Sprintf("(mod %s %d)", g.term(t.Args[0]), c.C+1)
		}
	case OF2I:
		x := g.term(t.Args[0])
		k := g.trunc(x)
		r := opaque()
		g.assert("(=> (and (< (- %s.0) %s) (< %s %s.0)) (= %s %s))", pow2(63), x, x, pow2(63), r, k)
		return r
	}
	return opaque()
}

// trunc: the integer part of a real, towards zero.
func (g *agen) trunc(x string) string {
	if k, ok := g.wr["trunc "+x]; ok {
		return k
	}
	k := g.fresh("z", "Int")
	if g.pos[x] {
		g.assert("(and (<= 0 %s) (<= (to_real %s) %s) (< %s (+ (to_real %s) 1.0)))", k, k, x, x, k)
		g.wr["trunc "+x] = k
		return k
	}
	g.assert("(ite (>= %s 0.0) (and (<= (to_real %s) %s) (< %s (+ (to_real %s) 1.0))) (and (>= (to_real %s) %s) (> %s (- (to_real %s) 1.0))))", x, k, x, x, k, k, x, x, k)
	g.wr["trunc "+x] = k
	return k
}

func (g *agen) boolT(t *Term) string {
	a := func(i int) string { return g.term(t.Args[i]) }
	switch t.Op {
	case OConst:
		if t.C == 1 {
			return "true"
		}
		return "false"
	case ONot:
		return "(not " + a(0) + ")"
	case OBAnd, OBOr:
		s := "(and"
		if t.Op == OBOr {
			s = "(or"
		}
		for i := range t.Args {
			s += " " + a(i)
		}
		return s + ")"
	case OIte:
		return fmt.Sprintf("(ite %s %s %s)", a(0), a(1), a(2))
	case OEq0:
		if t.Args[0].S.K == KBV {
			return fmt.Sprintf("(= %s 0)", a(0))
		}
	case OLtZ:
		if t.Args[0].S.W == 64 {
			return fmt.Sprintf("(< %s 0)", a(0))
		}
		return fmt.Sprintf("(>= %s %s)", a(0), pow2(uint(t.Args[0].S.W-1)))
	case OSlt:
		w := t.Args[0].S.W
		if w == 64 {
			return fmt.Sprintf("(< %s %s)", a(0), a(1))
		}
		sg := func(x string) string {
			return fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", x, pow2(uint(w-1)), x, pow2(uint(w)), x)
		}
		return fmt.Sprintf("(< %s %s)", sg(a(0)), sg(a(1)))
	case OUlt:
		if t.Args[0].S.W < 64 {
			return fmt.Sprintf("(< %s %s)", a(0), a(1))
		}
		l1, _, o1 := t.Args[0].srange()
		l2, _, o2 := t.Args[1].srange()
		if o1 && o2 && l1 >= 0 && l2 >= 0 {
			return fmt.Sprintf("(< %s %s)", a(0), a(1))
		}
	case OFLt:
		return fmt.Sprintf("(< %s %s)", a(0), a(1))
	case OFLe:
		return fmt.Sprintf("(<= %s %s)", a(0), a(1))
	case OFEq:
		return fmt.Sprintf("(= %s %s)", a(0), a(1))
	}
	return g.fresh("b", "Bool")
}

const relU = "(/ 1.0 9007199254740992.0)"

// nonnegF: the double (read as a real) cannot be negative.
func nonnegF(t *Term) bool {
	switch t.Op {
	case OConst:
		return !(math.Float64frombits(t.C) < 0)
	case OU2F, OI2F:
		l, _, ok := t.Args[0].srange()
		return ok && l >= 0
	case OFAdd, OFMul, OFDiv:
		return nonnegF(t.Args[0]) && nonnegF(t.Args[1])
	case OApp:
		switch t.Name {
		case "math.Abs":
			return true
		case "math.Mod", "math.Trunc", "math.Floor", "math.Round":
			return nonnegF(t.Args[0])
		case "dy":
			l, _, ok := t.Args[0].srange()
			return ok && l >= 0
		}
	}
	return false
}

func (g *agen) round(x string, pos bool) string {
	x = g.define(x, "Real")
	r := g.fresh("f", "Real")
	tiny := "(/ 1.0 1" + strings.Repeat("0", 40) + ".0)"
	if pos {
		g.assert("(and (<= (- (* %s (- 1.0 %s)) %s) %s) (<= %s (+ (* %s (+ 1.0 %s)) %s)) (<= 0.0 %s))", x, relU, tiny, r, r, x, relU, tiny, r)
		return r
	}
	g.assert("(ite (>= %s 0.0) (and (<= (- (* %s (- 1.0 %s)) %s) %s) (<= %s (+ (* %s (+ 1.0 %s)) %s)) (<= 0.0 %s)) (and (<= (- (* %s (+ 1.0 %s)) %s) %s) (<= %s (+ (* %s (- 1.0 %s)) %s)) (<= %s 0.0)))",
		x, x, relU, tiny, r, r, x, relU, tiny, r, x, relU, tiny, r, r, x, relU, tiny, r)
	return r
}

func (g *agen) realT(t *Term) string {
	a := func(i int) string { return g.term(t.Args[i]) }
	switch t.Op {
	case OConst:
		f := math.Float64frombits(t.C)
		if r := new(mbig.Rat).SetFloat64(f); r != nil {
			return rl(r)
		}
	case OI2F, OU2F:
		if t.Op == OI2F || func() bool { l, _, ok := t.Args[0].srange(); return ok && l >= 0 }() {
			if fits53(t.Args[0]) {
				return "(to_real " + a(0) + ")"
			}
			return g.round("(to_real "+a(0)+")", nonnegF(t))
		}
	case OFAdd:
		return g.round("(+ "+a(0)+" "+a(1)+")", nonnegF(t))
	case OFSub:
		return g.round("(- "+a(0)+" "+a(1)+")", nonnegF(t))
	case OFNeg:
		return "(- " + a(0) + ")"
	case OFMul:
		for i := 0; i < 2; i++ {
			if v, ok := t.Args[i].Float(); ok && v >= 1 {
				if fr, _ := math.Frexp(v); fr == 0.5 {
					return "(* " + a(0) + " " + a(1) + ")"
				}
			}
		}
		return g.round("(* "+a(0)+" "+a(1)+")", nonnegF(t))
	case OFDiv:
		if v, ok := t.Args[1].Float(); ok && v != 0 {
			return g.round("(/ "+a(0)+" "+a(1)+")", nonnegF(t))
		}
		q := g.fresh("q", "Real")
		g.assert("(=> (not (= %s 0.0)) (= (* %s %s) %s))", a(1), q, a(1), a(0))
		return g.round(q, nonnegF(t))
	case OIte:
		return fmt.Sprintf("(ite %s %s %s)", a(0), a(1), a(2))
	case OApp:
		switch t.Name {
		case "dy":
			e, _ := t.Args[1].Int()
			if e < 0 {
				return fmt.Sprintf("(/ (to_real %s) %s.0)", a(0), pow2(uint(-e)))
			}
			return fmt.Sprintf("(* (to_real %s) %s.0)", a(0), pow2(uint(e)))
		case "math.Mod":
			if v, ok := t.Args[1].Float(); ok && v == 1 {
				x := g.define(a(0), "Real")
				return fmt.Sprintf("(- %s (to_real %s))", x, g.trunc(x))
			}
		case "math.Trunc":
			return "(to_real " + g.trunc(g.define(a(0), "Real")) + ")"
		case "math.Floor":
			return "(to_real (to_int " + a(0) + "))"
		case "math.Ceil":
			return "(- (to_real (to_int (- " + a(0) + "))))"
		case "math.Round":
			x := g.define(a(0), "Real")
			return fmt.Sprintf("(ite (>= %s 0.0) (to_real (to_int (+ %s 0.5))) (- (to_real (to_int (+ (- %s) 0.5)))))", x, x, x)
		case "math.Abs":
			x := g.define(a(0), "Real")
			return fmt.Sprintf("(ite (>= %s 0.0) %s (- %s))", x, x, x)
		}
	}
	return g.fresh("x", "Real")
}

var arithCache = map[string]string{}

func arithUnsat(as []*Term, ms int) string {
	g := &agen{memo: map[*Term]string{}, wr: map[string]string{}, pos: map[string]bool{}}
	for _, a := range as {
		if termSize(a, 5000) >= 5000 {
			if a == as[0] {
				return "unknown"
			}
			continue
		}
		g.assert("%s", g.term(a))
	}
	sc := g.sb.String()
	if r, ok := arithCache[sc]; ok {
		return r
	}
	t0 := time.Now()
	smtStats.Queries++
	if os.Getenv("GOVC_ARITH") != "" {
		os.WriteFile("/tmp/arith.smt2", []byte(sc+"(check-sat)\n"), 0o644)
	}
	r := ""
	for _, seed := range []int{0, 3, 11} {
		c := exec.Command(z3bin(), "-in", "-smt2", fmt.Sprintf("-t:%d", ms/2), fmt.Sprintf("smt.random_seed=%d", seed))
		c.Stdin = strings.NewReader(sc + "(check-sat)\n")
		o, _ := c.Output()
		r = strings.TrimSpace(string(o))
		if r == "unsat" || r == "sat" {
			break
		}
	}
	if strings.Contains(r, "error") && os.Getenv("GOVC_ARITH") != "" {
		fmt.Fprintln(os.Stderr, r)
	}
	smtStats.Time += time.Since(t0)
	switch r {
	case "unsat":
		smtStats.Unsat++
	case "sat":
		smtStats.Sat++
	default:
		r = "unknown"
		smtStats.Unknown++
	}
	arithCache[sc] = r
	return r
}
