package main

// Doubles.  A double term whose value is known to be an integer times a power
// of two that fits 53 bits is kept in the exact form dy(m, e) = m*2^e; the
// operations that are exact on such values (IEEE-754 rounds the exact result,
// which is representable) are evaluated in integer arithmetic.  Everything else
// stays an operation tree and is compared syntactically, or by the real-number
// relaxation in arith.go.  The sign of zero is not tracked.

import "math"

const f53 = int64(1) << 53

func fits53(t *Term) bool {
	l, h, ok := t.srange()
	return ok && t.S.W == 64 && l >= -f53 && h <= f53
}

func dyad(t *Term) (*Term, int, bool) {
	switch t.Op {
	case OConst:
		f := math.Float64frombits(t.C)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return nil, 0, false
		}
		if f == 0 {
			return Int(0), 0, true
		}
		fr, ex := math.Frexp(f)
		m := int64(fr * (1 << 53))
		ex -= 53
		for m%2 == 0 {
			m /= 2
			ex++
		}
		for ex > 0 && abs64(m) < f53/2 {
			m *= 2
			ex--
		}
		return Int(m), ex, ex > -900 && ex < 900
	case OU2F, OI2F:
		if fits53(t.Args[0]) {
			return t.Args[0], 0, true
		}
	case OApp:
		if t.Name == "dy" {
			e, _ := t.Args[1].Int()
			return t.Args[0], int(e), true
		}
	}
	return nil, 0, false
}

func mkDy(m *Term, e int) *Term {
	if c, ok := m.Int(); ok {
		return FloatC(math.Ldexp(float64(c), e))
	}
	for e > 0 {
		n := Scale(m, 2)
		if !fits53(n) {
			break
		}
		m, e = n, e-1
	}
	// common factors of two move into the exponent
	for e < 0 && m.Op == OLin && m.C%2 == 0 {
		even := true
		for _, c := range m.Coef {
			if c%2 != 0 {
				even = false
			}
		}
		if !even {
			break
		}
		la := newLin(m.S)
		la.c = uint64(int64(m.C) / 2)
		for i, a := range m.Args {
			la.m[a] += uint64(int64(m.Coef[i]) / 2)
		}
		m = la.done()
		e++
	}
	if e == 0 {
		return I2F(m, true)
	}
	return App("dy", F64, m, Int(int64(e)))
}

func shlOK(m *Term, k int) (*Term, bool) {
	if k == 0 {
		return m, true
	}
	if k > 60 {
		if c, ok := m.Int(); ok && c == 0 {
			return m, true
		}
		return nil, false
	}
	n := Scale(m, uint64(1)<<k)
	l, h, ok := m.srange()
	if !ok {
		return nil, false
	}
	if _, o := mulOv(l, int64(1)<<k); !o {
		return nil, false
	}
	if _, o := mulOv(h, int64(1)<<k); !o {
		return nil, false
	}
	return n, true
}

func align(a, b *Term) (x, y *Term, e int, ok bool) {
	ma, ea, o1 := dyad(a)
	mb, eb, o2 := dyad(b)
	if !o1 || !o2 {
		return
	}
	e = min(ea, eb)
	x, o1 = shlOK(ma, ea-e)
	y, o2 = shlOK(mb, eb-e)
	return x, y, e, o1 && o2
}

// dyBin: exact result of a double operation, or nil.
func dyBin(op Op, a, b *Term) *Term {
	if op != OFAdd && op != OFSub && op != OFMul && op != OFDiv {
		return nil
	}
	switch op {
	case OFAdd, OFSub:
		x, y, e, ok := align(a, b)
		if !ok {
			return nil
		}
		var r *Term
		if op == OFAdd {
			r = Add(x, y)
		} else {
			r = Sub(x, y)
		}
		if fits53(r) {
			return mkDy(r, e)
		}
	case OFMul:
		ma, ea, o1 := dyad(a)
		mb, eb, o2 := dyad(b)
		if o1 && o2 {
			// strip the powers of two of a constant factor
			for _, p := range []**Term{&ma, &mb} {
				if c, ok := (*p).Int(); ok && c != 0 {
					for c%2 == 0 {
						c /= 2
						ea++
					}
					*p = Int(c)
				}
			}
			if r := Mul(ma, mb); fits53(r) {
				return mkDy(r, ea+eb)
			}
		}
	case OFDiv:
		ma, ea, o1 := dyad(a)
		mb, eb, o2 := dyad(b)
		if o1 && o2 {
			if c, ok := mb.Int(); ok && c > 0 && c&(c-1) == 0 {
				k := 0
				for ; c > 1; c >>= 1 {
					k++
				}
				return mkDy(ma, ea-eb-k)
			}
		}
	}
	return nil
}

func dyCmp(op Op, a, b *Term) *Term {
	x, y, _, ok := align(a, b)
	if !ok {
		return nil
	}
	switch op {
	case OFLt:
		return Slt(x, y)
	case OFLe:
		return Not(Slt(y, x))
	case OFEq:
		return Eq(x, y)
	}
	return nil
}

func dyF2I(a *Term) *Term {
	m, e, ok := dyad(a)
	if !ok {
		return nil
	}
	if e >= 0 {
		if r, ok := shlOK(m, e); ok {
			return r
		}
		return nil
	}
	if -e > 60 {
		return Int(0)
	}
	return DivRem(OSDiv, m, Int(int64(1)<<-e))
}

func init() {
	wrap := func(name string, f func(m *Term, e int, as []*Term) *Term) {
		prev := appSimp[name]
		appSimp[name] = func(s Sort, as []*Term) *Term {
			if prev != nil {
				if r := prev(s, as); r != nil {
					return r
				}
			}
			if constIte(as[0]) {
				return liftIte(as[0], func(x *Term) *Term {
					return SApp(name, s, append([]*Term{x}, as[1:]...)...)
				})
			}
			m, e, ok := dyad(as[0])
			if !ok {
				return nil
			}
			return f(m, e, as)
		}
	}
	wrap("math.Mod", func(m *Term, e int, as []*Term) *Term {
		if v, ok := as[1].Float(); !ok || v != 1 {
			return nil
		}
		if e >= 0 {
			return FloatC(0)
		}
		if -e > 53 {
			return as[0]
		}
		return mkDy(DivRem(OSRem, m, Int(int64(1)<<-e)), e)
	})
	whole := func(name string, f func(m *Term, k int64) *Term) {
		wrap(name, func(m *Term, e int, as []*Term) *Term {
			if e >= 0 {
				return as[0]
			}
			if -e > 60 {
				return nil
			}
			r := f(m, int64(1)<<-e)
			if r == nil || !fits53(r) {
				return nil
			}
			return I2F(r, true)
		})
	}
	floor := func(m *Term, k int64) *Term {
		s := 0
		for c := k; c > 1; c >>= 1 {
			s++
		}
		if l, _, ok := m.srange(); ok && l >= 0 {
			return DivRem(OSDiv, m, Int(k))
		}
		return AshrT(m, Int(int64(s)))
	}
	whole("math.Trunc", func(m *Term, k int64) *Term { return DivRem(OSDiv, m, Int(k)) })
	whole("math.Floor", floor)
	whole("math.Ceil", func(m *Term, k int64) *Term { return Neg(floor(Neg(m), k)) })
	whole("math.Round", func(m *Term, k int64) *Term {
		p := DivRem(OSDiv, AddC(m, k/2), Int(k))
		if l, _, ok := m.srange(); ok && l >= 0 {
			return p
		}
		return Ite(Slt(m, Int(0)), Neg(DivRem(OSDiv, AddC(Neg(m), k/2), Int(k))), p)
	})
	wrap("math.Abs", func(m *Term, e int, as []*Term) *Term {
		r := Ite(Slt(m, Int(0)), Neg(m), m)
		if !fits53(r) {
			return nil
		}
		return mkDy(r, e)
	})
}
