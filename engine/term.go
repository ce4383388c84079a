package main

// Hash-consed terms over bit-vectors (Go integers are bit-vectors of their real
// width, so wrap-around is modelled exactly), booleans, IEEE doubles (kept
// syntactic: two double terms are equal only if they are the same operation
// tree), and arrays.  BV sums/products are kept in a polynomial normal form
// modulo 2^w.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KF64
	KArr   // array of BV (W = element width)
	KArrF  // array of doubles (also used as the ring of Fourier contents)
	KArrB  // array of bools
	KOther // opaque
)

type Sort struct {
	K Kind
	W uint8
}

var (
	Bool  = Sort{KBool, 0}
	BV8   = Sort{KBV, 8}
	BV16  = Sort{KBV, 16}
	BV32  = Sort{KBV, 32}
	BV64  = Sort{KBV, 64}
	F64   = Sort{KF64, 0}
	Arr32 = Sort{KArr, 32}
	ArrF  = Sort{KArrF, 0}
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OLin // C + sum Coef[i]*Args[i]
	OMul // product of >=2 atoms
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OTrunc
	OEq0 // Args[0] == 0
	OLtZ // Args[0] <s 0 (no-overflow difference)
	OSlt
	OUlt
	ONot
	OBAnd
	OBOr
	OIte
	OSel // Args[0] array, Args[1] index
	OApp
	OLam // Args[0] bound var, Args[1] body
	OSum // Args[0] bound var, Args[1] trip count (BV64), Args[2] body
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OI2F // signed
	OU2F // unsigned
	OF2I // to signed int64, truncating
)

var opNames = map[Op]string{OUDiv: "udiv", OSDiv: "sdiv", OURem: "urem", OSRem: "srem", OAnd: "and", OOr: "or", OXor: "xor", OShl: "shl", OLshr: "lshr", OAshr: "ashr", OZext: "zext", OSext: "sext", OTrunc: "trunc", OEq0: "eq0", OLtZ: "ltz", OSlt: "slt", OUlt: "ult", ONot: "not", OBAnd: "&&", OBOr: "||", OIte: "ite", OSel: "sel", OLam: "lam", OSum: "sum", OFAdd: "fadd", OFSub: "fsub", OFMul: "fmul", OFDiv: "fdiv", OFNeg: "fneg", OFLt: "flt", OFLe: "fle", OFEq: "feq", OI2F: "i2f", OU2F: "u2f", OF2I: "f2i"}

type Term struct {
	ID     int
	Op     Op
	S      Sort
	Args   []*Term
	C      uint64
	Coef   []uint64
	Name   string
	Lo, Hi int64 // OVar: known range (signed reading for BV64, unsigned for others)
	fv     uint64
	depth  int // binder depth
	hash   uint64
	rlo    int64
	rhi    int64
	rok    uint8
}

var (
	table   = map[uint64][]*Term{}
	nTerms  int
	varSeq  int
	True    *Term
	False   *Term
	varBits = map[*Term]uint64{}
)

func init() {
	True = mk(&Term{Op: OConst, S: Bool, C: 1})
	False = mk(&Term{Op: OConst, S: Bool, C: 0})
}

// pruneTerms forgets the terms built after the given one, except constants, so
// that their memory can be reclaimed.
func pruneTerms(after int) {
	nt := make(map[uint64][]*Term, 1<<16)
	for h, ts := range table {
		var keep []*Term
		for _, t := range ts {
			if t.ID <= after || t.Op == OConst {
				keep = append(keep, t)
			}
		}
		if keep != nil {
			nt[h] = keep
		}
	}
	table = nt
	abbrevOf, abbrevDef = map[*Term]*Term{}, map[*Term]*Term{}
	liveTerms = 0
}

var liveTerms int // built since the last pruning

func hmix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

func mk(t *Term) *Term {
	h := hmix(uint64(t.Op)*131+uint64(t.S.K)*17, uint64(t.S.W))
	h = hmix(h, t.C)
	for _, a := range t.Args {
		h = hmix(h, uint64(a.ID)+77)
	}
	for _, c := range t.Coef {
		h = hmix(h, c)
	}
	for i := 0; i < len(t.Name); i++ {
		h = (h ^ uint64(t.Name[i])) * 1099511628211
	}
	if t.Op == OVar {
		h = hmix(h, uint64(t.Lo))
		h = hmix(h, uint64(t.Hi))
	}
	for _, o := range table[h] {
		if o.Op == t.Op && o.S == t.S && o.C == t.C && o.Name == t.Name && len(o.Args) == len(t.Args) && len(o.Coef) == len(t.Coef) && o.Lo == t.Lo && o.Hi == t.Hi {
			ok := true
			for i := range o.Args {
				if o.Args[i] != t.Args[i] {
					ok = false
					break
				}
			}
			if ok {
				for i := range o.Coef {
					if o.Coef[i] != t.Coef[i] {
						ok = false
						break
					}
				}
			}
			if ok {
				return o
			}
		}
	}
	nTerms++
	liveTerms++
	t.ID = nTerms
	t.hash = h
	if t.Op == OVar {
		t.fv = 1 << (uint(t.ID) * 7 % 64)
		if strings.HasPrefix(t.Name, "#") {
			var d int
			fmt.Sscanf(t.Name, "#%d", &d)
			t.depth = d
		}
	}
	for _, a := range t.Args {
		t.fv |= a.fv
		if a.depth > t.depth {
			t.depth = a.depth
		}
	}
	table[h] = append(table[h], t)
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (1 << w) - 1
}

func sx(c uint64, w uint8) int64 {
	if w >= 64 {
		return int64(c)
	}
	sh := 64 - w
	return int64(c<<sh) >> sh
}

func BVc(c uint64, s Sort) *Term { return mk(&Term{Op: OConst, S: s, C: c & mask(s.W)}) }
func Int(c int64) *Term          { return BVc(uint64(c), BV64) }
func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}
func FloatC(f float64) *Term {
	return mk(&Term{Op: OConst, S: F64, C: math.Float64bits(f)})
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t == True }
func (t *Term) IsFalse() bool { return t == False }
func (t *Term) Int() (int64, bool) {
	if t.Op == OConst && t.S.K == KBV {
		return sx(t.C, t.S.W), true
	}
	return 0, false
}
func (t *Term) Float() (float64, bool) {
	if t.Op == OConst && t.S.K == KF64 {
		return math.Float64frombits(t.C), true
	}
	return 0, false
}

// NewVar makes a fresh symbolic constant.
func NewVar(name string, s Sort) *Term {
	varSeq++
	t := &Term{Op: OVar, S: s, Name: fmt.Sprintf("%s!%d", name, varSeq), Lo: math.MinInt64, Hi: math.MaxInt64}
	return mk(t)
}
func NewRVar(name string, s Sort, lo, hi int64) *Term {
	varSeq++
	return mk(&Term{Op: OVar, S: s, Name: fmt.Sprintf("%s!%d", name, varSeq), Lo: lo, Hi: hi})
}
func NamedVar(name string, s Sort) *Term {
	return mk(&Term{Op: OVar, S: s, Name: name, Lo: math.MinInt64, Hi: math.MaxInt64})
}
func NamedRVar(name string, s Sort, lo, hi int64) *Term {
	return mk(&Term{Op: OVar, S: s, Name: name, Lo: lo, Hi: hi})
}

// ---- ranges -------------------------------------------------------------

const big = int64(1) << 62

// srange: signed interval of a BV64 term read as a mathematical integer, or of
// a narrower BV read as unsigned.  ok=false means nothing known.
func (t *Term) srange() (int64, int64, bool) {
	if t.rok == 1 {
		return t.rlo, t.rhi, true
	}
	if t.rok == 2 {
		return 0, 0, false
	}
	lo, hi, ok := t.srange0()
	if ok {
		t.rlo, t.rhi, t.rok = lo, hi, 1
	} else {
		t.rok = 2
	}
	return lo, hi, ok
}

func (t *Term) full() (int64, int64, bool) {
	if t.S.W < 62 {
		return 0, int64(mask(t.S.W)), true
	}
	return 0, 0, false
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	if c > big || c < -big || (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c > 0) {
		return 0, false
	}
	return c, true
}
func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	hi, lo := bits.Mul64(uint64(abs64(a)), uint64(abs64(b)))
	if hi != 0 || lo > uint64(big) {
		return 0, false
	}
	return a * b, true
}
func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func (t *Term) srange0() (int64, int64, bool) {
	if t.S.K != KBV {
		return 0, 0, false
	}
	switch t.Op {
	case OConst:
		if t.S.W == 64 {
			c := int64(t.C)
			if c > big || c < -big {
				return 0, 0, false
			}
			return c, c, true
		}
		return int64(t.C), int64(t.C), true
	case OVar:
		if t.Lo != math.MinInt64 || t.Hi != math.MaxInt64 {
			return t.Lo, t.Hi, true
		}
		return t.full()
	case OLin:
		if h, ok := euclidLin(t); ok {
			return 0, h, true
		}
		lo, hi := sx(t.C, t.S.W), sx(t.C, t.S.W)
		ok := true
		for i, a := range t.Args {
			c := sx(t.Coef[i], t.S.W)
			al, ah, k := a.srange()
			if !k {
				ok = false
				break
			}
			var x, y int64
			var o1, o2 bool
			if c >= 0 {
				x, o1 = mulOv(c, al)
				y, o2 = mulOv(c, ah)
			} else {
				x, o1 = mulOv(c, ah)
				y, o2 = mulOv(c, al)
			}
			if !o1 || !o2 {
				ok = false
				break
			}
			lo, o1 = addOv(lo, x)
			hi, o2 = addOv(hi, y)
			if !o1 || !o2 {
				ok = false
				break
			}
		}
		if ok {
			if t.S.W == 64 {
				return lo, hi, true
			}
			if lo >= 0 && hi <= int64(mask(t.S.W)) {
				return lo, hi, true
			}
			// constant shift by 2^w (e.g. x - 5 with x<5 impossible): give up
		}
		return t.full()
	case OMul:
		if t.S.W == 64 {
			lo, hi := int64(1), int64(1)
			for _, a := range t.Args {
				al, ah, k := a.srange()
				if !k || al < 0 {
					return 0, 0, false
				}
				var o1, o2 bool
				lo, o1 = mulOv(lo, al)
				hi, o2 = mulOv(hi, ah)
				if !o1 || !o2 {
					return 0, 0, false
				}
			}
			return lo, hi, true
		}
		return t.full()
	case OZext:
		return t.Args[0].srange()
	case OSext:
		l, h, ok := t.Args[0].srange()
		if ok && t.Args[0].S.W < 62 && h < int64(1)<<(t.Args[0].S.W-1) {
			return l, h, true
		}
		w := t.Args[0].S.W
		if w < 62 && t.S.W == 64 {
			return -(int64(1) << (w - 1)), int64(1)<<(w-1) - 1, true
		}
		return t.full()
	case OTrunc:
		l, h, ok := t.Args[0].srange()
		if ok && l >= 0 && h <= int64(mask(t.S.W)) {
			return l, h, true
		}
		return t.full()
	case OIte:
		l1, h1, o1 := t.Args[1].srange()
		l2, h2, o2 := t.Args[2].srange()
		if r, a, b, ok := euclid(t); ok {
			_ = r
			return a, b, true
		}
		if o1 && o2 {
			return min(l1, l2), max(h1, h2), true
		}
		return t.full()
	case OAnd:
		_, h1, o1 := t.Args[0].srange()
		l1, _, _ := t.Args[0].srange()
		l2, h2, o2 := t.Args[1].srange()
		r := int64(-1)
		if o1 && l1 >= 0 {
			r = h1
		}
		if o2 && l2 >= 0 && (r < 0 || h2 < r) {
			r = h2
		}
		if r >= 0 {
			return 0, r, true
		}
		return t.full()
	case OLshr:
		l, h, ok := t.Args[0].srange()
		if ok && l >= 0 {
			if c := t.Args[1]; c.IsConst() {
				if c.C >= 63 {
					return 0, 0, true
				}
				return l >> c.C, h >> c.C, true
			}
			return 0, h, true
		}
		if c := t.Args[1]; c.IsConst() && t.S.W == 64 && c.C >= 2 && c.C < 64 {
			return 0, int64(mask(uint8(64 - c.C))), true
		}
		return t.full()
	case OURem, OSRem:
		l, h, ok := t.Args[0].srange()
		if c := t.Args[1]; c.IsConst() && c.C > 0 && int64(c.C) > 0 {
			if t.Op == OSRem && (!ok || l < 0) {
				if t.S.W == 64 {
					return -(int64(c.C) - 1), int64(c.C) - 1, true
				}
				return t.full()
			}
			if ok && l >= 0 {
				return 0, min(h, int64(c.C)-1), true
			}
			return 0, int64(c.C) - 1, true
		}
		cl, ch, cok := t.Args[1].srange()
		if cok && cl > 0 && ok && l >= 0 {
			return 0, min(h, ch-1), true
		}
		if cok && cl > 0 && t.Op == OSRem && t.S.W == 64 {
			return -(ch - 1), ch - 1, true
		}
		return t.full()
	case OUDiv, OSDiv:
		l, h, ok := t.Args[0].srange()
		cl, ch, cok := t.Args[1].srange()
		if ok && cok && l >= 0 && cl > 0 {
			return l / ch, h / cl, true
		}
		return t.full()
	case OSel:
		return t.full()
	}
	return t.full()
}

// ---- polynomial normal form --------------------------------------------

func isRing(s Sort) bool { return s.K == KBV || s.K == KArrF }
func rw(s Sort) uint8 {
	if s.K == KBV {
		return s.W
	}
	return 64
}

type linAcc struct {
	s Sort
	c uint64
	m map[*Term]uint64
}

func newLin(s Sort) *linAcc { return &linAcc{s: s, m: map[*Term]uint64{}} }
func (l *linAcc) add(t *Term, k uint64) {
	if k == 0 {
		return
	}
	switch {
	case t.Op == OConst:
		l.c += k * t.C
	case t.Op == OLin:
		l.c += k * t.C
		for i, a := range t.Args {
			l.m[a] += k * t.Coef[i]
		}
	default:
		l.m[t] += k
	}
}
func (l *linAcc) done() *Term {
	mk_ := mask(rw(l.s))
	c := l.c & mk_
	atoms := make([]*Term, 0, len(l.m))
	for a, k := range l.m {
		if k&mk_ != 0 {
			atoms = append(atoms, a)
		}
	}
	if len(atoms) == 0 {
		return mk(&Term{Op: OConst, S: l.s, C: c})
	}
	if len(atoms) == 1 && c == 0 && l.m[atoms[0]]&mk_ == 1 {
		return atoms[0]
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].ID < atoms[j].ID })
	co := make([]uint64, len(atoms))
	for i, a := range atoms {
		co[i] = l.m[a] & mk_
	}
	return mk(&Term{Op: OLin, S: l.s, C: c, Args: atoms, Coef: co})
}

func Add(a, b *Term) *Term {
	if a.Op == OConst && a.C == 0 {
		return b
	}
	if b.Op == OConst && b.C == 0 {
		return a
	}
	if a.Op == OConst && b.Op == OConst {
		return mk(&Term{Op: OConst, S: a.S, C: (a.C + b.C) & mask(rw(a.S))})
	}
	l := newLin(a.S)
	l.add(a, 1)
	l.add(b, 1)
	return l.done()
}
func Sub(a, b *Term) *Term {
	if b.Op == OConst && b.C == 0 {
		return a
	}
	if a == b {
		return mk(&Term{Op: OConst, S: a.S})
	}
	l := newLin(a.S)
	l.add(a, 1)
	l.add(b, ^uint64(0))
	return l.done()
}
func Neg(a *Term) *Term { return Scale(a, ^uint64(0)) }
func Scale(a *Term, k uint64) *Term {
	l := newLin(a.S)
	l.add(a, k)
	return l.done()
}
func AddC(a *Term, c int64) *Term {
	return Add(a, mk(&Term{Op: OConst, S: a.S, C: uint64(c) & mask(rw(a.S))}))
}

func linParts(t *Term) (uint64, []*Term, []uint64) {
	if t.Op == OConst {
		return t.C, nil, nil
	}
	if t.Op == OLin {
		return t.C, t.Args, t.Coef
	}
	return 0, []*Term{t}, []uint64{1}
}

func mulAtoms(a, b *Term) *Term {
	var fs []*Term
	if a.Op == OMul {
		fs = append(fs, a.Args...)
	} else {
		fs = append(fs, a)
	}
	if b.Op == OMul {
		fs = append(fs, b.Args...)
	} else {
		fs = append(fs, b)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
	return mk(&Term{Op: OMul, S: a.S, Args: fs})
}

func Mul(a, b *Term) *Term {
	if a.Op == OConst {
		return Scale(b, a.C)
	}
	if b.Op == OConst {
		return Scale(a, b.C)
	}
	// 0/1 selections distribute: ite(c,x,0)*y = ite(c,x*y,0) is left alone.
	ca, aa, ka := linParts(a)
	cb, ab, kb := linParts(b)
	if len(aa)*len(ab) > 64 {
		return mulAtoms(a, b)
	}
	l := newLin(a.S)
	l.c = ca * cb
	for i, x := range aa {
		l.add(x, ka[i]*cb)
	}
	for j, y := range ab {
		l.add(y, kb[j]*ca)
	}
	for i, x := range aa {
		for j, y := range ab {
			l.add(mulAtoms(x, y), ka[i]*kb[j])
		}
	}
	return l.done()
}

// ---- bit operations -----------------------------------------------------

func bin(op Op, s Sort, a, b *Term) *Term { return mk(&Term{Op: op, S: s, Args: []*Term{a, b}}) }

func ShlT(a, b *Term) *Term { // b: any width, shift amount
	if b.IsConst() {
		if b.C >= uint64(a.S.W) {
			return BVc(0, a.S)
		}
		return Scale(a, 1<<b.C)
	}
	if ite := b; ite.Op == OIte {
		return Ite(b.Args[0], ShlT(a, b.Args[1]), ShlT(a, b.Args[2]))
	}
	return bin(OShl, a.S, a, toW(b, a.S.W))
}
func LshrT(a, b *Term) *Term {
	if b.IsConst() {
		if b.C >= uint64(a.S.W) {
			return BVc(0, a.S)
		}
		if b.C == 0 {
			return a
		}
		if a.IsConst() {
			return BVc(a.C>>b.C, a.S)
		}
		if l, h, ok := a.srange(); ok && l >= 0 && h>>b.C == l>>b.C {
			return BVc(uint64(l>>b.C), a.S)
		}
		if a.Op == OLshr && a.Args[1].IsConst() {
			return LshrT(a.Args[0], BVc(a.Args[1].C+b.C, b.S))
		}
		// exact division of a non-wrapping sum: (2^c*x + d) >> c
		if a.Op == OLin && b.C < 62 {
			if l, _, ok := a.srange(); ok && l >= 0 && noWrap(a) {
				all := a.C&mask(uint8(b.C)) == 0
				for _, k := range a.Coef {
					if k&mask(uint8(b.C)) != 0 {
						all = false
					}
				}
				if all {
					la := newLin(a.S)
					la.c = a.C >> b.C
					for i, x := range a.Args {
						la.m[x] += uint64(sx(a.Coef[i], a.S.W) >> b.C)
					}
					return la.done()
				}
			}
		}
		// (2^s*x) >> c is a bit field of x, for every x (wrapping or not)
		if a.Op == OLin {
			tz := uint64(bits.TrailingZeros64(a.C))
			for _, k := range a.Coef {
				if z := uint64(bits.TrailingZeros64(k)); z < tz {
					tz = z
				}
			}
			if tz > b.C {
				tz = b.C
			}
			if tz > 0 && b.C < uint64(a.S.W) {
				la := newLin(a.S)
				la.c = a.C >> tz
				for i, x := range a.Args {
					la.m[x] += uint64(sx(a.Coef[i], a.S.W) >> tz)
				}
				return AndT(LshrT(la.done(), BVc(b.C-tz, b.S)), BVc(mask(a.S.W-uint8(b.C)), a.S))
			}
		}
		return bin(OLshr, a.S, a, BVc(b.C, a.S))
	}
	return bin(OLshr, a.S, a, toW(b, a.S.W))
}

// noWrap: the Lin term's value equals its mathematical value
func noWrap(a *Term) bool {
	if a.S.W == 64 {
		_, _, ok := a.srange()
		return ok
	}
	lo, hi := int64(sx(a.C, a.S.W)), int64(sx(a.C, a.S.W))
	for i, x := range a.Args {
		c := sx(a.Coef[i], a.S.W)
		al, ah, k := x.srange()
		if !k {
			return false
		}
		if c < 0 {
			al, ah = ah, al
		}
		p, o1 := mulOv(c, al)
		q, o2 := mulOv(c, ah)
		if !o1 || !o2 {
			return false
		}
		lo += p
		hi += q
	}
	return lo >= 0 && hi <= int64(mask(a.S.W))
}

func AshrT(a, b *Term) *Term {
	if l, _, ok := a.srange(); ok && l >= 0 && a.S.W == 64 {
		return LshrT(a, b)
	}
	if l, h, ok := a.srange(); ok && l >= 0 && a.S.W < 62 && h < int64(1)<<(a.S.W-1) {
		return LshrT(a, b)
	}
	if b.IsConst() {
		if a.IsConst() {
			sh := b.C
			if sh > 63 {
				sh = 63
			}
			return BVc(uint64(sx(a.C, a.S.W)>>sh), a.S)
		}
		if b.C == 0 {
			return a
		}
		if b.C >= uint64(a.S.W) {
			b = BVc(uint64(a.S.W)-1, b.S)
		}
		return bin(OAshr, a.S, a, BVc(b.C, a.S))
	}
	return bin(OAshr, a.S, a, toW(b, a.S.W))
}

func toW(b *Term, w uint8) *Term {
	if b.S.W == w {
		return b
	}
	if b.S.W < w {
		return ZextT(b, w)
	}
	// wide shift counts: saturate is required; only used with in-range counts
	return TruncT(b, w)
}

func AndT(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return BVc(a.C&b.C, a.S)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.C == 0 {
			return b
		}
		if b.C == mask(a.S.W) {
			return a
		}
		if l, h, ok := a.srange(); ok && l >= 0 && b.C&(b.C+1) == 0 && uint64(h) <= b.C {
			return a
		}
		if a.Op == OAnd && a.Args[1].IsConst() {
			return AndT(a.Args[0], BVc(a.Args[1].C&b.C, a.S))
		}
		// a bit field does not depend on the bits above it
		if b.C&(b.C+1) == 0 && a.Op == OLshr && a.Args[1].IsConst() && a.Args[0].Op == OLin {
			if top := a.Args[1].C + uint64(bits.Len64(b.C)); top < uint64(a.S.W) {
				x := a.Args[0]
				m := mask(uint8(top))
				la := newLin(a.S)
				la.c = x.C & m
				ch := la.c != x.C
				for i, y := range x.Args {
					k := uint64(sx(x.Coef[i]&m, uint8(top))) & mask(a.S.W)
					if k != x.Coef[i] {
						ch = true
					}
					la.m[y] += k
				}
				if ch {
					return AndT(LshrT(la.done(), a.Args[1]), b)
				}
			}
		}
		// low mask: drop multiples
		if b.C&(b.C+1) == 0 && a.Op == OLin {
			la := newLin(a.S)
			la.c = a.C & b.C
			ch := la.c != a.C
			for i, x := range a.Args {
				k := a.Coef[i] & b.C
				if k != a.Coef[i] {
					ch = true
				}
				la.m[x] += k
			}
			if ch {
				return AndT(la.done(), b)
			}
		}
		return bin(OAnd, a.S, a, b)
	}
	if a == b {
		return a
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return bin(OAnd, a.S, a, b)
}
func OrT(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return BVc(a.C|b.C, a.S)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() && b.C == 0 || a == b {
		return a
	}
	// disjoint bits: or is addition (x even | 0/1)
	if disjoint(a, b) {
		return Add(a, b)
	}
	if a.ID > b.ID && !b.IsConst() {
		a, b = b, a
	}
	return bin(OOr, a.S, a, b)
}

func trailing(a *Term) int { // number of known zero low bits
	switch a.Op {
	case OConst:
		if a.C == 0 {
			return int(a.S.W)
		}
		return bits.TrailingZeros64(a.C)
	case OLin:
		n := 64
		if a.C != 0 {
			n = bits.TrailingZeros64(a.C)
		}
		for i := range a.Args {
			k := bits.TrailingZeros64(a.Coef[i]) + trailing(a.Args[i])
			if k < n {
				n = k
			}
		}
		return n
	case OIte:
		return min(trailing(a.Args[1]), trailing(a.Args[2]))
	}
	return 0
}
func disjoint(a, b *Term) bool {
	try := func(x, y *Term) bool {
		l, h, ok := y.srange()
		return ok && l >= 0 && trailing(x) >= bits.Len64(uint64(h))
	}
	return try(a, b) || try(b, a)
}

func XorT(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return BVc(a.C^b.C, a.S)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.C == 0 {
			return a
		}
		if b.C == mask(a.S.W) {
			return AddC(Neg(a), -1)
		}
	}
	if a == b {
		return BVc(0, a.S)
	}
	if a.ID > b.ID && !b.IsConst() {
		a, b = b, a
	}
	return bin(OXor, a.S, a, b)
}
func NotBV(a *Term) *Term { return AddC(Neg(a), -1) }

func ZextT(a *Term, w uint8) *Term {
	if a.S.W == w {
		return a
	}
	s := Sort{KBV, w}
	if a.IsConst() {
		return BVc(a.C, s)
	}
	if a.Op == OZext {
		return ZextT(a.Args[0], w)
	}
	if a.Op == OIte && (a.Args[1].IsConst() || a.Args[2].IsConst()) {
		return Ite(a.Args[0], ZextT(a.Args[1], w), ZextT(a.Args[2], w))
	}
	if a.Op == OTrunc && a.Args[0].S.W == w {
		if l, h, ok := a.Args[0].srange(); ok && l >= 0 && h <= int64(mask(a.S.W)) {
			return a.Args[0]
		}
	}
	if a.Op == OLin && noWrap(a) {
		l := newLin(s)
		l.c = a.C
		if sx(a.C, a.S.W) < 0 && anyNeg(a) == false {
			l.c = uint64(sx(a.C, a.S.W))
		}
		l.c = uint64(sx(a.C, a.S.W))
		for i, x := range a.Args {
			l.add(ZextT(x, w), uint64(sx(a.Coef[i], a.S.W)))
		}
		return l.done()
	}
	return mk(&Term{Op: OZext, S: s, Args: []*Term{a}})
}
func anyNeg(a *Term) bool { return false }

func SextT(a *Term, w uint8) *Term {
	if a.S.W == w {
		return a
	}
	s := Sort{KBV, w}
	if a.IsConst() {
		return BVc(uint64(sx(a.C, a.S.W)), s)
	}
	if l, h, ok := a.srange(); ok && l >= 0 && a.S.W < 62 && h < int64(1)<<(a.S.W-1) {
		return ZextT(a, w)
	}
	return mk(&Term{Op: OSext, S: s, Args: []*Term{a}})
}
func TruncT(a *Term, w uint8) *Term {
	if a.S.W == w {
		return a
	}
	s := Sort{KBV, w}
	switch a.Op {
	case OConst:
		return BVc(a.C, s)
	case OLin:
		l := newLin(s)
		l.c = a.C
		for i, x := range a.Args {
			l.add(TruncT(x, w), a.Coef[i])
		}
		return l.done()
	case OMul:
		r := TruncT(a.Args[0], w)
		for _, x := range a.Args[1:] {
			r = Mul(r, TruncT(x, w))
		}
		return r
	case OZext, OSext:
		if a.Args[0].S.W == w {
			return a.Args[0]
		}
		if a.Args[0].S.W > w {
			return TruncT(a.Args[0], w)
		}
		if a.Op == OZext {
			return ZextT(a.Args[0], w)
		}
		return SextT(a.Args[0], w)
	case OTrunc:
		return TruncT(a.Args[0], w)
	case OIte:
		return Ite(a.Args[0], TruncT(a.Args[1], w), TruncT(a.Args[2], w))
	}
	return mk(&Term{Op: OTrunc, S: s, Args: []*Term{a}})
}

func DivRem(op Op, a, b *Term) *Term {
	signed := op == OSDiv || op == OSRem
	if signed {
		l1, _, o1 := a.srange()
		l2, _, o2 := b.srange()
		if a.S.W == 64 && o1 && o2 && l1 >= 0 && l2 >= 0 {
			if op == OSDiv {
				op = OUDiv
			} else {
				op = OURem
			}
			signed = false
		}
	}
	if a.IsConst() && b.IsConst() && b.C != 0 {
		switch op {
		case OUDiv:
			return BVc(a.C/b.C, a.S)
		case OURem:
			return BVc(a.C%b.C, a.S)
		case OSDiv:
			return BVc(uint64(sx(a.C, a.S.W)/sx(b.C, b.S.W)), a.S)
		case OSRem:
			return BVc(uint64(sx(a.C, a.S.W)%sx(b.C, b.S.W)), a.S)
		}
	}
	if b.IsConst() && b.C == 1 {
		if op == OUDiv || op == OSDiv {
			return a
		}
		return BVc(0, a.S)
	}
	if !signed && b.IsConst() && b.C != 0 {
		if op == OUDiv && b.C&(b.C-1) == 0 {
			return LshrT(a, BVc(uint64(bits.TrailingZeros64(b.C)), a.S))
		}
		if op == OURem && b.C&(b.C-1) == 0 {
			return AndT(a, BVc(b.C-1, a.S))
		}
		if l, h, ok := a.srange(); ok && l >= 0 {
			q := int64(b.C)
			if q > 0 && l/q == h/q {
				if op == OUDiv {
					return BVc(uint64(l/q), a.S)
				}
				return AddC(a, -(l / q * q))
			}
			if q > 0 && a.Op == OLin && noWrap(a) {
				// split off multiples of q
				mul := newLin(a.S)
				rest := newLin(a.S)
				mul.c = uint64(sx(a.C, a.S.W) / q)
				rest.c = uint64(sx(a.C, a.S.W) % q)
				for i, x := range a.Args {
					k := sx(a.Coef[i], a.S.W)
					mul.m[x] += uint64(k / q)
					rest.m[x] += uint64(k % q)
				}
				m, r := mul.done(), rest.done()
				if rl, rh, ok := r.srange(); ok && rl >= 0 && rh < q {
					if op == OUDiv {
						return m
					}
					return r
				}
			}
		}
	}
	return bin(op, a.S, a, b)
}

// ---- booleans -----------------------------------------------------------

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == ONot:
		return a.Args[0]
	}
	return mk(&Term{Op: ONot, S: Bool, Args: []*Term{a}})
}

func flatten(op Op, ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if t.Op == op {
			out = append(out, t.Args...)
		} else {
			out = append(out, t)
		}
	}
	return out
}
func And(ts ...*Term) *Term {
	fl := flatten(OBAnd, ts)
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range fl {
		if t == True || seen[t] {
			continue
		}
		if t == False || seen[Not(t)] {
			return False
		}
		seen[t] = true
		out = append(out, t)
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return mk(&Term{Op: OBAnd, S: Bool, Args: out})
}
func Or(ts ...*Term) *Term {
	fl := flatten(OBOr, ts)
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range fl {
		if t == False || seen[t] {
			continue
		}
		if t == True || seen[Not(t)] {
			return True
		}
		seen[t] = true
		out = append(out, t)
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return mk(&Term{Op: OBOr, S: Bool, Args: out})
}
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Eq: sort mismatch %v %v: %s | %s", a.S, b.S, a, b))
	}
	switch a.S.K {
	case KBool:
		if a.IsConst() {
			a, b = b, a
		}
		if b == True {
			return a
		}
		if b == False {
			return Not(a)
		}
		return Or(And(a, b), And(Not(a), Not(b)))
	case KBV:
		// lift ite with constant branches: eq(ite(c,k1,k2),k) etc.
		if b.IsConst() && a.Op == OIte && (a.Args[1].IsConst() || a.Args[2].IsConst()) {
			return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
		}
		if a.IsConst() && b.Op == OIte && (b.Args[1].IsConst() || b.Args[2].IsConst()) {
			return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
		}
		d := Sub(a, b)
		return eq0(d)
	case KF64:
		if a.IsConst() && b.IsConst() {
			return BoolC(a.C == b.C)
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(&Term{Op: OApp, S: Bool, Name: "=", Args: []*Term{a, b}})
}

func eq0(d *Term) *Term {
	if d.IsConst() {
		return BoolC(d.C == 0)
	}
	if d.Op == OZext {
		return eq0(d.Args[0])
	}
	lo, hi, ok := int64(0), int64(0), false
	if d.S.W == 64 || d.Op != OLin {
		lo, hi, ok = d.srange()
	} else if d.Op == OLin {
		lo, hi, ok = d.srange()
		ok = ok && noWrap(d)
	}
	if ok && (lo > 0 || hi < 0) {
		return False
	}
	if d.Op == OLin {
		if ok && (d.S.W == 64) {
			g := int64(0)
			for _, k := range d.Coef {
				g = gcd(g, sx(k, d.S.W))
			}
			if g > 1 {
				c := sx(d.C, d.S.W)
				if c%g != 0 {
					return False
				}
				l := newLin(d.S)
				l.c = uint64(c / g)
				for i, x := range d.Args {
					l.m[x] = uint64(sx(d.Coef[i], d.S.W) / g)
				}
				return eq0(l.done())
			}
			// a*x + b*y + c = 0 where |b*y+c| < a and x integer: x and rest
			// both fixed (mixed radix)
			if r := mixedRadix(d); r != nil {
				return r
			}
		}
		if sx(d.Coef[0], d.S.W) < 0 {
			d = Neg(d)
		}
		if d.Op == OLin && len(d.Args) == 1 && d.C == 0 && d.Coef[0]&1 == 1 {
			return eq0(d.Args[0])
		}
	}
	if d.Op == OIte && (d.Args[1].IsConst() || d.Args[2].IsConst()) {
		return Ite(d.Args[0], eq0(d.Args[1]), eq0(d.Args[2]))
	}
	return mk(&Term{Op: OEq0, S: Bool, Args: []*Term{d}})
}

// mixedRadix splits g*X + R = 0 (|R| < g) into X = 0 and R = 0.
func mixedRadix(d *Term) *Term {
	var gs []int64
	for _, k := range d.Coef {
		gs = append(gs, abs64(sx(k, 64)))
	}
	mx := int64(0)
	for _, g := range gs {
		if g > mx {
			mx = g
		}
	}
	if mx <= 1 {
		return nil
	}
	// candidate moduli: each coefficient magnitude
	sort.Slice(gs, func(i, j int) bool { return gs[i] > gs[j] })
	for _, g := range gs {
		if g <= 1 {
			break
		}
		X := newLin(d.S)
		R := newLin(d.S)
		for i, x := range d.Args {
			k := sx(d.Coef[i], 64)
			if k%g == 0 {
				X.m[x] = uint64(k / g)
			} else {
				R.m[x] = uint64(k)
			}
		}
		c := sx(d.C, 64)
		for _, split := range []int64{c % g, c%g + g, c%g - g} {
			X.c = uint64((c - split) / g)
			R.c = uint64(split)
			r := R.done()
			lo, hi, ok := r.srange()
			if ok && lo > -g && hi < g {
				if r.IsConst() && r.C == 0 {
					continue
				}
				x := X.done()
				if x.IsConst() && !(r.IsConst()) && x.C == 0 {
					continue
				}
				if len(x.Args) == 0 && !x.IsConst() && len(r.Args) == 0 {
					continue
				}
				return And(eq0(x), eq0(r))
			}
		}
	}
	return nil
}

// LtZ: d <s 0 for a non-wrapping BV64 difference.
func LtZ(d *Term) *Term {
	if lo, hi, ok := d.srange(); ok {
		if hi < 0 {
			return True
		}
		if lo >= 0 {
			return False
		}
		if lo == -1 && d.Op == OLin && len(d.Args) == 1 {
			return Eq(d, Int(-1))
		}
	}
	if d.Op == OIte {
		a, b := LtZ(d.Args[1]), LtZ(d.Args[2])
		if a.IsConst() || b.IsConst() {
			return Ite(d.Args[0], a, b)
		}
	}
	if d.Op == OLin {
		// divide by gcd of coefficients (floor)
		g := int64(0)
		for _, k := range d.Coef {
			g = gcd(g, sx(k, 64))
		}
		if g > 1 {
			c := sx(d.C, 64)
			fl := c / g
			if c%g != 0 && c < 0 {
				fl--
			}
			// g*X + c < 0  <=>  X < -c/g  <=> X + floor(c/g) < 0
			l := newLin(d.S)
			l.c = uint64(fl)
			for i, x := range d.Args {
				l.m[x] = uint64(sx(d.Coef[i], 64) / g)
			}
			return LtZ(l.done())
		}
		if sx(d.Coef[0], 64) < 0 {
			return Not(LtZ(AddC(Neg(d), -1)))
		}
	}
	return mk(&Term{Op: OLtZ, S: Bool, Args: []*Term{d}})
}

func Slt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.IsConst() && b.IsConst() {
		return BoolC(sx(a.C, a.S.W) < sx(b.C, b.S.W))
	}
	if a.S.W == 64 {
		_, _, o1 := a.srange()
		_, _, o2 := b.srange()
		if o1 && o2 {
			d := Sub(a, b)
			if _, _, ok := d.srange(); ok {
				return LtZ(d)
			}
		}
	}
	if b.IsConst() && b.C == 0 && a.S.W < 64 {
		// sign test; keep a as is
		return bin(OSlt, Bool, a, b)
	}
	return bin(OSlt, Bool, a, b)
}
func Ult(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.IsConst() && b.IsConst() {
		return BoolC(a.C < b.C)
	}
	if a.S.W < 62 {
		l1, h1, o1 := a.srange()
		l2, h2, o2 := b.srange()
		if o1 && o2 {
			if h1 < l2 {
				return True
			}
			if l1 >= h2 {
				return False
			}
		}
	} else if a.S.W == 64 {
		l1, _, o1 := a.srange()
		l2, _, o2 := b.srange()
		if o1 && o2 && l1 >= 0 && l2 >= 0 {
			return Slt(a, b)
		}
	}
	return bin(OUlt, Bool, a, b)
}

// under reads the nearby choices of t on c as decided.
func under(t, c, val *Term, depth int) *Term {
	if depth == 0 || t.fv&c.fv == 0 {
		return t
	}
	switch t.Op {
	case OLin:
		var as []*Term
		for i, x := range t.Args {
			if y := under(x, c, val, depth-1); y != x {
				if as == nil {
					as = append([]*Term(nil), t.Args...)
				}
				as[i] = y
			}
		}
		if as != nil {
			return Rebuild(t, as)
		}
	case OIte:
		g := t.Args[0]
		h := g
		if g == c {
			h = val
		} else if g.Op == OBAnd || g.Op == OBOr {
			for _, x := range g.Args {
				if x == c || x.Op == ONot && x.Args[0] == c {
					h = Subst(g, map[*Term]*Term{c: val})
					break
				}
			}
		}
		if h != g {
			return under(Ite(h, t.Args[1], t.Args[2]), c, val, depth)
		}
		x, y := under(t.Args[1], c, val, depth-1), under(t.Args[2], c, val, depth-1)
		if x != t.Args[1] || y != t.Args[2] {
			return Ite(g, x, y)
		}
	}
	return t
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.Op == ONot {
		return Ite(c.Args[0], b, a)
	}
	if c.Op == OEq0 {
		// v == k: read v as k in the then branch
		d := c.Args[0]
		v, k := d, uint64(0)
		if d.Op == OLin && len(d.Args) == 1 && (d.Coef[0] == 1 || d.S.W == 64 && d.Coef[0] == ^uint64(0)) {
			v = d.Args[0]
			k = d.C
			if d.Coef[0] == 1 {
				k = -k
			}
		}
		if v.Op == OVar && v.S.K == KBV && a.fv&v.fv != 0 {
			if v.S.W < 64 {
				k &= 1<<uint(v.S.W) - 1
			}
			a = Subst(a, map[*Term]*Term{v: BVc(k, v.S)})
			if a == b {
				return a
			}
		}
		// the else branch already gives the then value at v == k
		if v.Op == OVar && v.S.K == KBV && b.fv&v.fv != 0 && !(b.Op == OIte && b.Args[0].Op == OEq0) {
			if v.S.W < 64 {
				k &= 1<<uint(v.S.W) - 1
			}
			if Subst(b, map[*Term]*Term{v: BVc(k, v.S)}) == a {
				return b
			}
		}
	}
	if a.S.K == KBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
		return Or(And(c, a), And(Not(c), b))
	}
	if a.Op == OIte && a.Args[0] == c {
		return Ite(c, a.Args[1], b)
	}
	if b.Op == OIte && b.Args[0] == c {
		return Ite(c, a, b.Args[2])
	}
	if x, y := under(a, c, True, 3), under(b, c, False, 3); x != a || y != b {
		return Ite(c, x, y)
	}
	if b.Op == OIte && b.Args[1] == a {
		return Ite(Or(c, b.Args[0]), a, b.Args[2])
	}
	if isRing(a.S) {
		// pull out the common part
		ca, aa, ka := linParts(a)
		cb, ab, kb := linParts(b)
		if len(aa) > 0 && len(ab) > 0 || (ca == cb && ca != 0) {
			mb := map[*Term]uint64{}
			for i, x := range ab {
				mb[x] = kb[i]
			}
			com := newLin(a.S)
			n := 0
			for i, x := range aa {
				if k, ok := mb[x]; ok && k == ka[i] {
					com.m[x] = k
					n++
				}
			}
			if ca == cb && ca != 0 {
				com.c = ca
				n++
			}
			if n > 0 {
				cm := com.done()
				return Add(cm, Ite(c, Sub(a, cm), Sub(b, cm)))
			}
		}
	}
	return mk(&Term{Op: OIte, S: a.S, Args: []*Term{c, a, b}})
}

// ---- arrays, sums, apps -------------------------------------------------

func App(name string, s Sort, args ...*Term) *Term {
	return mk(&Term{Op: OApp, S: s, Name: name, Args: args})
}

func elemSort(s Sort) Sort {
	switch s.K {
	case KArr:
		return Sort{KBV, s.W}
	case KArrF:
		return F64
	case KArrB:
		return Bool
	}
	panic("elemSort")
}
func arrSort(s Sort) Sort {
	switch s.K {
	case KBV:
		return Sort{KArr, s.W}
	case KF64:
		return ArrF
	case KBool:
		return Sort{KArrB, 0}
	}
	panic("arrSort")
}

func Select(a, i *Term) *Term {
	if a.Op == OLam {
		return subst1(a.Args[1], a.Args[0], i)
	}
	if a.Op == OIte {
		return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
	}
	return mk(&Term{Op: OSel, S: elemSort(a.S), Args: []*Term{a, i}})
}

// bindVar renames v to a canonical bound variable for the given bodies.
func bindVar(v *Term, hi int64, bodies ...*Term) (*Term, []*Term) {
	d := 0
	for _, b := range bodies {
		if b.depth > d {
			d = b.depth
		}
	}
	nv := mk(&Term{Op: OVar, S: v.S, Name: fmt.Sprintf("#%d", d+1), Lo: 0, Hi: hi})
	out := make([]*Term, len(bodies))
	for i, b := range bodies {
		out[i] = subst1(b, v, nv)
	}
	return nv, out
}

// Lam makes the array i -> body over [0,n).
func Lam(v *Term, n *Term, body *Term) *Term {
	if body.Op == OSel && body.Args[1] == v && !occurs(v, body.Args[0]) {
		return body.Args[0]
	}
	_, hi, ok := n.srange()
	if !ok {
		hi = math.MaxInt64
	} else {
		hi--
	}
	nv, bs := bindVar(v, hi, body)
	return mk(&Term{Op: OLam, S: arrSort(body.S), Args: []*Term{nv, bs[0]}})
}

func occurs(v, t *Term) bool {
	if t.fv&v.fv == 0 {
		return false
	}
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == v {
			return true
		}
		if t.fv&v.fv == 0 || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

const sumExpand = 16

// Sum_{v=0}^{n-1} body
func Sum(v, n, body *Term) *Term {
	if c, ok := n.Int(); ok {
		if c <= 0 {
			return BVc(0, body.S)
		}
		if c <= sumExpand {
			r := BVc(0, body.S)
			for i := int64(0); i < c; i++ {
				r = Add(r, subst1(body, v, Int(i)))
			}
			return r
		}
	}
	if body.IsConst() && body.C == 0 {
		return body
	}
	nw := TruncT(n, body.S.W)
	if n.S.W < body.S.W {
		nw = ZextT(n, body.S.W)
	}
	if !occurs(v, body) {
		return Mul(body, nw)
	}
	if body.Op == OLin {
		l := newLin(body.S)
		l.add(nw, body.C)
		for i, a := range body.Args {
			l.add(Sum(v, n, a), body.Coef[i])
		}
		return l.done()
	}
	if body.Op == OMul {
		var in, out []*Term
		for _, a := range body.Args {
			if occurs(v, a) {
				in = append(in, a)
			} else {
				out = append(out, a)
			}
		}
		if len(out) > 0 {
			r := in[0]
			for _, a := range in[1:] {
				r = Mul(r, a)
			}
			r = Sum(v, n, r)
			for _, a := range out {
				r = Mul(r, a)
			}
			return r
		}
	}
	if body.Op == OIte {
		c := body.Args[0]
		if !occurs(v, c) {
			return Ite(c, Sum(v, n, body.Args[1]), Sum(v, n, body.Args[2]))
		}
		// single-point sums: ite(v == e, g, 0)
		conj := []*Term{c}
		if c.Op == OBAnd {
			conj = c.Args
		}
		if z := body.Args[2]; z.IsConst() && z.C == 0 {
			for i, q := range conj {
				if q.Op != OEq0 {
					continue
				}
				if e := solveFor(q.Args[0], v); e != nil {
					rest := append([]*Term{}, conj[:i]...)
					rest = append(rest, conj[i+1:]...)
					cond := And(Not(Slt(e, Int(0))), Slt(e, n), subst1(And(rest...), v, e))
					return Ite(cond, subst1(body.Args[1], v, e), z)
				}
			}
			if g := body.Args[1]; g.Op == OLin {
				l := newLin(body.S)
				if g.C != 0 {
					l.add(Sum(v, n, Ite(c, BVc(1, body.S), z)), g.C)
				}
				for i, a := range g.Args {
					l.add(Sum(v, n, Ite(c, a, z)), g.Coef[i])
				}
				return l.done()
			}
			// range conditions affine in v with coefficient +-1
			if r := sumRange(v, n, conj, body.Args[1]); r != nil {
				return r
			}
		} else if z := body.Args[1]; z.IsConst() && z.C == 0 {
			// ite(c,0,g) = g - ite(c,g,0)
			return Sub(Sum(v, n, body.Args[2]), Sum(v, n, Ite(c, body.Args[2], z)))
		} else if !body.Args[1].IsConst() || !body.Args[2].IsConst() {
			z := BVc(0, body.S)
			return Add(Sum(v, n, body.Args[2]), Sub(Sum(v, n, Ite(c, body.Args[1], z)), Sum(v, n, Ite(c, body.Args[2], z))))
		}
	}
	hi := int64(math.MaxInt64)
	if _, h, ok := n.srange(); ok {
		hi = h - 1
	}
	nv, bs := bindVar(v, hi, body)
	return mk(&Term{Op: OSum, S: body.S, Args: []*Term{nv, n, bs[0]}})
}

func sumRange(v, n *Term, conj []*Term, g *Term) *Term { return nil }

// solveFor returns e with d==0 <=> v==e when d = +-v + e' (BV64)
func solveFor(d, v *Term) *Term {
	if d == v {
		return Int(0)
	}
	if d.Op != OLin {
		return nil
	}
	for i, a := range d.Args {
		if a == v {
			k := sx(d.Coef[i], d.S.W)
			if k != 1 && k != -1 {
				return nil
			}
			rest := Sub(d, Scale(v, uint64(k)))
			if occurs(v, rest) {
				return nil
			}
			if k == 1 {
				return Neg(rest)
			}
			return rest
		}
	}
	return nil
}

// ---- floats -------------------------------------------------------------

// constIte: a nest of conditionals over constants (at most 8 leaves).
func constIte(t *Term) bool {
	n := 0
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t.Op == OIte {
			return f(t.Args[1]) && f(t.Args[2])
		}
		n++
		return n <= 8 && t.IsConst()
	}
	return t.Op == OIte && f(t)
}

func liftIte(a *Term, f func(*Term) *Term) *Term {
	if a.Op == OIte {
		return Ite(a.Args[0], liftIte(a.Args[1], f), liftIte(a.Args[2], f))
	}
	return f(a)
}

func FBin(op Op, a, b *Term) *Term {
	if constIte(a) && (b.IsConst() || constIte(b)) {
		return liftIte(a, func(x *Term) *Term { return FBin(op, x, b) })
	}
	if constIte(b) && a.IsConst() {
		return liftIte(b, func(x *Term) *Term { return FBin(op, a, x) })
	}
	x, o1 := a.Float()
	y, o2 := b.Float()
	if o1 && o2 {
		switch op {
		case OFAdd:
			return FloatC(x + y)
		case OFSub:
			return FloatC(x - y)
		case OFMul:
			return FloatC(x * y)
		case OFDiv:
			return FloatC(x / y)
		}
	}
	if r := dyBin(op, a, b); r != nil {
		return r
	}
	if (op == OFAdd || op == OFMul) && a.ID > b.ID {
		a, b = b, a // IEEE addition and multiplication commute
	}
	return bin(op, F64, a, b)
}
func FNegT(a *Term) *Term {
	if x, ok := a.Float(); ok {
		return FloatC(-x)
	}
	if constIte(a) {
		return liftIte(a, FNegT)
	}
	return mk(&Term{Op: OFNeg, S: F64, Args: []*Term{a}})
}
func FCmp(op Op, a, b *Term) *Term {
	x, o1 := a.Float()
	y, o2 := b.Float()
	if o1 && o2 {
		switch op {
		case OFLt:
			return BoolC(x < y)
		case OFLe:
			return BoolC(x <= y)
		case OFEq:
			return BoolC(x == y)
		}
	}
	if r := dyCmp(op, a, b); r != nil {
		return r
	}
	return bin(op, Bool, a, b)
}
func I2F(a *Term, signed bool) *Term {
	if a.IsConst() {
		if signed {
			return FloatC(float64(sx(a.C, a.S.W)))
		}
		return FloatC(float64(a.C))
	}
	if constIte(a) {
		return liftIte(a, func(x *Term) *Term { return I2F(x, signed) })
	}
	if l, h, ok := a.srange(); ok && l >= 0 {
		if a.S.W == 64 || h < int64(1)<<(a.S.W-1) {
			signed = false
		}
	}
	if a.Op == OZext {
		signed = false
	}
	if !signed {
		return mk(&Term{Op: OU2F, S: F64, Args: []*Term{ZextT(a, 64)}})
	}
	return mk(&Term{Op: OI2F, S: F64, Args: []*Term{SextT(a, 64)}})
}
func F2I(a *Term) *Term { // to int64
	if x, ok := a.Float(); ok {
		return Int(int64(x))
	}
	if constIte(a) {
		return liftIte(a, F2I)
	}
	if r := dyF2I(a); r != nil {
		return r
	}
	return mk(&Term{Op: OF2I, S: BV64, Args: []*Term{a}})
}

// ---- substitution -------------------------------------------------------

func subst1(t, v, e *Term) *Term {
	if v == e {
		return t
	}
	return Subst(t, map[*Term]*Term{v: e})
}

func Subst(t *Term, m map[*Term]*Term) *Term {
	var bf uint64
	for v := range m {
		bf |= v.fv
	}
	return substMemo(t, m, bf, map[*Term]*Term{})
}

func substMemo(t *Term, m map[*Term]*Term, bf uint64, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if t.fv&bf == 0 || len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.Op == OLam || t.Op == OSum {
		r = substBinder(t, m, bf, memo)
	} else {
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = substMemo(a, m, bf, memo)
			if as[i] != a {
				ch = true
			}
		}
		if !ch {
			r = t
		} else {
			r = Rebuild(t, as)
		}
	}
	memo[t] = r
	return r
}

func substBinder(t *Term, m map[*Term]*Term, bf uint64, memo map[*Term]*Term) *Term {
	bv := t.Args[0]
	// fresh variable for the bound one to avoid capture
	fresh := NewRVar("b", bv.S, bv.Lo, bv.Hi)
	if t.Op == OLam {
		b := subst1(t.Args[1], bv, fresh)
		nb := substMemo(b, m, bf, map[*Term]*Term{})
		if nb == b {
			return t
		}
		hi := bv.Hi
		var n *Term
		if hi == math.MaxInt64 {
			n = NewVar("n", BV64)
		} else {
			n = Int(hi + 1)
		}
		return Lam(fresh, n, nb)
	}
	n := substMemo(t.Args[1], m, bf, memo)
	b := subst1(t.Args[2], bv, fresh)
	nb := substMemo(b, m, bf, map[*Term]*Term{})
	if nb == b && n == t.Args[1] {
		return t
	}
	return Sum(fresh, n, nb)
}

// Rebuild re-applies the smart constructor of t to new arguments.
func Rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case OLin:
		l := newLin(t.S)
		l.c = t.C
		for i, a := range as {
			l.add(a, t.Coef[i])
		}
		return l.done()
	case OMul:
		r := as[0]
		for _, a := range as[1:] {
			r = Mul(r, a)
		}
		return r
	case OUDiv, OSDiv, OURem, OSRem:
		return DivRem(t.Op, as[0], as[1])
	case OAnd:
		return AndT(as[0], as[1])
	case OOr:
		return OrT(as[0], as[1])
	case OXor:
		return XorT(as[0], as[1])
	case OShl:
		return ShlT(as[0], as[1])
	case OLshr:
		return LshrT(as[0], as[1])
	case OAshr:
		return AshrT(as[0], as[1])
	case OZext:
		return ZextT(as[0], t.S.W)
	case OSext:
		return SextT(as[0], t.S.W)
	case OTrunc:
		return TruncT(as[0], t.S.W)
	case OEq0:
		return eq0(as[0])
	case OLtZ:
		return LtZ(as[0])
	case OSlt:
		return Slt(as[0], as[1])
	case OUlt:
		return Ult(as[0], as[1])
	case ONot:
		return Not(as[0])
	case OBAnd:
		return And(as...)
	case OBOr:
		return Or(as...)
	case OIte:
		return Ite(as[0], as[1], as[2])
	case OSel:
		return Select(as[0], as[1])
	case OApp:
		if t.Name == "=" {
			return Eq(as[0], as[1])
		}
		return rebuildApp(t, as)
	case OFAdd, OFSub, OFMul, OFDiv:
		return FBin(t.Op, as[0], as[1])
	case OFNeg:
		return FNegT(as[0])
	case OFLt, OFLe, OFEq:
		return FCmp(t.Op, as[0], as[1])
	case OI2F:
		return I2F(as[0], true)
	case OU2F:
		return I2F(as[0], false)
	case OF2I:
		return F2I(as[0])
	}
	panic("Rebuild " + opNames[t.Op])
}

// rebuildApp lets applications with a registered simplifier re-simplify.
var appSimp = map[string]func(s Sort, as []*Term) *Term{}

func rebuildApp(t *Term, as []*Term) *Term {
	if f := appSimp[t.Name]; f != nil {
		if r := f(t.S, as); r != nil {
			return r
		}
	}
	return App(t.Name, t.S, as...)
}
func SApp(name string, s Sort, as ...*Term) *Term {
	if f := appSimp[name]; f != nil {
		if r := f(s, as); r != nil {
			return r
		}
	}
	return App(name, s, as...)
}

// ---- printing -----------------------------------------------------------

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	var sb strings.Builder
	printTerm(&sb, t, 0)
	return sb.String()
}
func printTerm(sb *strings.Builder, t *Term, d int) {
	if sb.Len() > 6000 || d > 24 {
		sb.WriteString("…")
		return
	}
	switch t.Op {
	case OConst:
		switch t.S.K {
		case KBool:
			fmt.Fprintf(sb, "%v", t.C == 1)
		case KF64:
			fmt.Fprintf(sb, "%g", math.Float64frombits(t.C))
		case KBV:
			c := sx(t.C, t.S.W)
			if c < 0 && c > -100000 || t.S.W == 64 {
				fmt.Fprintf(sb, "%d", c)
			} else {
				fmt.Fprintf(sb, "%d", t.C)
			}
		default:
			fmt.Fprintf(sb, "%d", int64(t.C))
		}
	case OVar:
		sb.WriteString(t.Name)
	case OLin:
		sb.WriteString("(")
		first := true
		for i, a := range t.Args {
			k := sx(t.Coef[i], rw(t.S))
			if !first {
				sb.WriteString(" + ")
			}
			first = false
			if k == -1 {
				sb.WriteString("-")
			} else if k != 1 {
				fmt.Fprintf(sb, "%d*", k)
			}
			printTerm(sb, a, d+1)
		}
		if t.C != 0 {
			fmt.Fprintf(sb, " + %d", sx(t.C, rw(t.S)))
		}
		sb.WriteString(")")
	case OMul:
		for i, a := range t.Args {
			if i > 0 {
				sb.WriteString("·")
			}
			printTerm(sb, a, d+1)
		}
	case OSel:
		printTerm(sb, t.Args[0], d+1)
		sb.WriteString("[")
		printTerm(sb, t.Args[1], d+1)
		sb.WriteString("]")
	default:
		n := t.Name
		if t.Op != OApp {
			n = opNames[t.Op]
		}
		sb.WriteString(n)
		sb.WriteString("(")
		for i, a := range t.Args {
			if i > 0 {
				sb.WriteString(", ")
			}
			printTerm(sb, a, d+1)
		}
		sb.WriteString(")")
	}
}

// euclid recognises r = srem(x, m), ite(r < 0, r+m, r) with m > 0: 0 <= . < m,
// also in the linear form r + ite(r < 0, m, 0).
func euclid(t *Term) (*Term, int64, int64, bool) {
	if t.Op != OIte || t.S.W != 64 {
		return nil, 0, 0, false
	}
	r := t.Args[2]
	if r.Op != OSRem || t.Args[0] != Slt(r, Int(0)) {
		return nil, 0, 0, false
	}
	m := r.Args[1]
	l, h, ok := m.srange()
	if !ok || l <= 0 || t.Args[1] != Add(r, m) {
		return nil, 0, 0, false
	}
	return r, 0, h - 1, true
}

// euclidLin: the linear form r + ite(r < 0, m, 0).
func euclidLin(t *Term) (int64, bool) {
	if t.Op != OLin || t.C != 0 || len(t.Args) != 2 || t.Coef[0] != 1 || t.Coef[1] != 1 || t.S.W != 64 {
		return 0, false
	}
	r, i := t.Args[0], t.Args[1]
	if r.Op != OSRem {
		r, i = i, r
	}
	if r.Op != OSRem || i.Op != OIte || i.Args[0] != Slt(r, Int(0)) || i.Args[1] != r.Args[1] || !i.Args[2].IsConst() || i.Args[2].C != 0 {
		return 0, false
	}
	l, h, ok := r.Args[1].srange()
	if !ok || l <= 0 {
		return 0, false
	}
	return h - 1, true
}
