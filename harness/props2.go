package main

import (
	"math"
	"math/rand"
	"runtime"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"github.com/thedonutfactory/go-tfhe/utils"
)

func tor(x float64) T { return T(int64(math.Mod(x, 1) * 4294967296)) }

// noise must be one Gaussian draw of the given deviation
type stat struct {
	name string
	sd   float64
	n    int
	s2   float64
	zero int
}

func (s *stat) add(e T) {
	x := float64(int32(e)) / 4294967296 / s.sd
	if math.Abs(x) > 9 && dist(e, 0) > 2 {
		fail("%s: noise of %.1f standard deviations", s.name, x)
	}
	s.n++
	s.s2 += x * x
	if e == 0 {
		s.zero++
	}
}

func (s *stat) done() {
	if s.sd < 1e-7 || s.n == 0 {
		return // below the resolution of the torus
	}
	r := math.Sqrt(s.s2 / float64(s.n))
	lim := 6 / math.Sqrt(2*float64(s.n))
	check(math.Abs(r-1) < lim+0.02 && s.zero < s.n/2, "%s: %d noise draws have %.3f of the requested standard deviation", s.name, s.n, r)
}

func c05() {
	for _, l := range allLevels {
		setLevel(l)
		s0, s1 := bits(n0()), bits(nn())
		for c := 0; c < 30; c++ {
			p := rng.Float64()*4 - 2
			if c < 4 {
				p = []float64{0, 0.125, -0.125, 0.5}[c]
			}
			x := tlwe.NewTLWELv0().EncryptF64(p, 0, s0)
			check(len(x.P) == n0()+1 && phase(x.P, s0) == tor(p), "TLWELv0.EncryptF64(%v, 0): phase %#x, plaintext %#x", p, phase(x.P, s0), tor(p))
			y := tlwe.NewTLWELv1().EncryptF64(p, 0, s1)
			check(phase(y.P, s1) == tor(p), "TLWELv1.EncryptF64(%v, 0): phase %#x, plaintext %#x", p, phase(y.P, s1), tor(p))
			d := ct0()
			d.EncryptF64(p, 0, s0)
			check(phase(d.P, s0) == tor(p), "TLWELv0.EncryptF64 into a used ciphertext: phase %#x, plaintext %#x", phase(d.P, s0), tor(p))
			for i := 0; i < n0(); i++ {
				if i+1 < n0() && x.P[i] != x.P[i+1] {
					break
				}
				check(i+2 < n0(), "TLWELv0.EncryptF64 has a constant mask")
			}
		}
		a0, a1 := params.GetTLWELv0().ALPHA, params.GetTLWELv1().ALPHA
		for _, al := range []float64{a0, 1e-3} {
			st := &stat{name: "TLWELv0.EncryptF64", sd: al}
			st2 := &stat{name: "EncryptLWEMessage", sd: al}
			st3 := &stat{name: "TLWELv0.EncryptBool", sd: al}
			for c := 0; c < 300; c++ {
				p := rng.Float64() - 0.5
				st.add(phase(tlwe.NewTLWELv0().EncryptF64(p, al, s0).P, s0) - tor(p))
				b := rng.Intn(2) == 1
				e := tlwe.NewTLWELv0().EncryptBool(b, al, s0)
				st3.add(phase(e.P, s0) - noisyless(b))
				check(e.DecryptBool(s0) == b, "DecryptBool(EncryptBool(%v)) differs", b)
				m := 1 + rng.Intn(1<<uint(rng.Intn(12)))
				x := rng.Intn(4*m) - 2*m
				st2.add(phase(tlwe.NewTLWELv0().EncryptLWEMessage(x, m, al, s0).P, s0) - encode(x, m))
			}
			st.done()
			st2.done()
			st3.done()
		}
		st := &stat{name: "TLWELv1.EncryptF64", sd: 1e-4}
		for c := 0; c < 200; c++ {
			p := rng.Float64() - 0.5
			st.add(phase(tlwe.NewTLWELv1().EncryptF64(p, 1e-4, s1).P, s1) - tor(p))
			b := rng.Intn(2) == 1
			check(tlwe.NewTLWELv1().EncryptBool(b, a1, s1).DecryptBool(s1) == b, "TLWELv1 DecryptBool(EncryptBool(%v)) differs", b)
		}
		st.done()
		for c := 0; c < 400; c++ {
			b := rng.Intn(2) == 1
			e := T(rng.Intn(1<<30)) - (1 << 29) + 1
			if c < 8 {
				e = []T{(1 << 29) - 1, ^T((1<<29)-1) + 1}[c%2]
			}
			check(enc0(noisyless(b)+e, s0).DecryptBool(s0) == b, "DecryptBool of %v with error %d", b, int32(e))
			y := &tlwe.TLWELv1{P: vec(nn() + 1)}
			y.P[nn()] = dot(y.P, s1, nn()) + noisyless(b) + e
			check(y.DecryptBool(s1) == b, "TLWELv1.DecryptBool of %v with error %d", b, int32(e))
			m := 1 + rng.Intn(1<<uint(rng.Intn(17)))
			x := rng.Intn(m)
			if c%5 == 0 {
				x = 0
			}
			if c%5 == 1 {
				x = m - 1
			}
			half := int64(1)<<30/int64(m) - int64(m) - 2
			if half < 1 {
				continue
			}
			for _, d := range []int64{0, half - 1, -(half - 1), rng.Int63n(2*half) - half} {
				got := enc0(encode(x, m)+T(d), s0).DecryptLWEMessage(m, s0)
				check(got == x, "DecryptLWEMessage(modulus %d) of message %d with error %d gives %d", m, x, d, got)
			}
			z := rng.Intn(8*m) - 4*m
			check(tlwe.NewTLWELv0().EncryptLWEMessage(z, m, 0, s0).DecryptLWEMessage(m, s0) == ((z%m)+m)%m, "EncryptLWEMessage(%d, %d) decrypts to another message", z, m)
		}
		for c := 0; c < 12; c++ {
			sizes := []int{0, 1, 8, 63, 64, 65, 129, 257}
			size := rng.Intn(40)
			if c < len(sizes) {
				size = sizes[c]
			}
			bs := make([]bool, size)
			for i := range bs {
				bs[i] = rng.Intn(2) == 1
			}
			r := bitutils.DecryptBits(bitutils.EncryptBits(bs, a0, s0), s0)
			check(len(r) == len(bs), "EncryptBits of %d bits decrypts to %d", len(bs), len(r))
			for i := range bs {
				check(r[i] == bs[i], "bit %d of %d decrypts to %v", i, len(bs), r[i])
			}
		}
		ev := poly.NewEvaluator(nn())
		c13enc(ev, s1)
		if late() {
			return
		}
	}
}

func c13enc(ev *poly.Evaluator, s1 []T) {
	n := nn()
	p := make([]float64, n)
	b := make([]bool, n)
	for i := range p {
		p[i] = rng.Float64()*2 - 1
		b[i] = rng.Intn(2) == 1
	}
	x := trlwe.NewTRLWELv1().EncryptF64(p, 0, s1, ev)
	ph := ringPhase(x, s1)
	st := &stat{name: "TRLWELv1.EncryptF64", sd: 1e-3}
	y := trlwe.NewTRLWELv1().EncryptF64(p, 1e-3, s1, ev)
	phy := ringPhase(y, s1)
	for i := range p {
		check(dist(ph[i], tor(p[i])) <= 4, "TRLWELv1.EncryptF64 coefficient %d: phase %#x, plaintext %#x", i, ph[i], tor(p[i]))
		st.add(phy[i] - tor(p[i]))
	}
	st.done()
	d := trlwe.NewTRLWELv1().EncryptBool(b, params.GetTRLWELv1().ALPHA, s1, ev).DecryptBool(s1, ev)
	check(len(d) == n, "TRLWELv1.DecryptBool returns %d values", len(d))
	for i := range b {
		check(d[i] == b[i], "TRLWELv1.DecryptBool(EncryptBool) coefficient %d gives %v", i, d[i])
	}
	for i := range x.A {
		e := T(rng.Intn(1<<30)) - (1 << 29) + 8
		if i%3 == 0 {
			e = []T{(1 << 29) - 8, ^T((1<<29)-8) + 1}[i/3%2]
		}
		x.A[i] = rt()
		x.B[i] = noisyless(b[i]) + e
	}
	for i, v := range mulBits(x.A, s1) {
		x.B[i] += v
	}
	d = x.DecryptBool(s1, ev)
	for i := range b {
		check(d[i] == b[i], "TRLWELv1.DecryptBool coefficient %d with error below 1/8 gives %v", i, d[i])
	}
}

func c06() {
	for round := 0; round < 40 && !late(); round++ {
		for _, l := range allLevels {
			setLevel(l)
			n := n0()
			x, y := ct0(), ct0()
			if rng.Intn(4) == 0 {
				y = x
			}
			c := et()
			px, py := cp(x.P), cp(y.P)
			res := map[string]*tlwe.TLWELv0{"Add": x.Add(y), "Sub": x.Sub(y), "Neg": x.Neg(), "Mul": x.Mul(y), "AddMul": x.AddMul(y, c), "SubMul": x.SubMul(y, c)}
			f := map[string]func(a, b T) T{"Add": func(a, b T) T { return a + b }, "Sub": func(a, b T) T { return a - b }, "Neg": func(a, b T) T { return -a },
				"Mul": func(a, b T) T { return a * b }, "AddMul": func(a, b T) T { return a + c*b }, "SubMul": func(a, b T) T { return a - c*b }}
			for name, r := range res {
				check(len(r.P) == n+1, "%s has %d components", name, len(r.P))
				check(!share(r.P, x.P) && !share(r.P, y.P), "%s shares storage with an operand", name)
				for i := range r.P {
					check(r.P[i] == f[name](px[i], py[i]), "%s component %d of %d: operands %#x %#x, constant %#x, result %#x", name, i, n, px[i], py[i], c, r.P[i])
				}
			}
			check(eq(px, x.P) && eq(py, y.P), "an operand changed")
			out := ct0()
			switch rng.Intn(4) {
			case 0:
				out = x
			case 1:
				out = y
			}
			x.AddAssign(y, out)
			for i := range out.P {
				check(out.P[i] == px[i]+py[i], "AddAssign component %d: %#x + %#x gives %#x", i, px[i], py[i], out.P[i])
			}
			check((out == x || eq(px, x.P)) && (out == y || eq(py, y.P)), "AddAssign changed an operand")
			x.SetB(c)
			check(x.B() == c && x.P[n] == c, "SetB")
			z := tlwe.NewTLWELv0()
			for i := range z.P {
				check(z.P[i] == 0, "a new ciphertext is not zero")
			}
		}
	}
}

func ksRef(src []T, ksk []*tlwe.TLWELv0) []T {
	g := params.GetTRGSWLv1()
	base := 1 << g.BASEBIT
	r := make([]T, n0()+1)
	r[n0()] = src[len(src)-1]
	for i := 0; i < len(src)-1; i++ {
		v := uint64(src[i]) + 1<<(31-g.BASEBIT*g.IKS_T)
		v &= 1<<32 - 1
		for j := 0; j < g.IKS_T; j++ {
			d := int(v>>(32-(j+1)*g.BASEBIT)) & (base - 1)
			if d != 0 {
				for x := range r {
					r[x] -= ksk[(i*g.IKS_T+j)*base+d].P[x]
				}
			}
		}
	}
	return r
}

func c07() {
	for round := 0; round < 3 && !late(); round++ {
		for _, l := range keyLevels {
			setLevel(l)
			g := params.GetTRGSWLv1()
			base := 1 << g.BASEBIT
			small := make([]*tlwe.TLWELv0, 257)
			for i := range small {
				small[i] = ct0()
			}
			ksk := make([]*tlwe.TLWELv0, base*g.IKS_T*nn())
			for i := range ksk {
				ksk[i] = small[rng.Intn(len(small))]
				if i%base == 0 {
					ksk[i] = small[0]
				}
			}
			for c := 0; c < 4; c++ {
				src := ct1()
				p := cp(src.P)
				w := ksRef(p, ksk)
				r := trgsw.IdentityKeySwitching(src, ksk)
				for x := range w {
					check(r.P[x] == w[x], "IdentityKeySwitching component %d: %#x, expected %#x", x, r.P[x], w[x])
				}
				out := ct0()
				trgsw.IdentityKeySwitchingAssign(src, ksk, out)
				for x := range w {
					check(out.P[x] == w[x], "IdentityKeySwitchingAssign component %d: %#x, expected %#x", x, out.P[x], w[x])
				}
				check(eq(p, src.P), "key switching changed its input")
			}
		}
	}
}

func c08() {
	for _, l := range allLevels {
		setLevel(l)
		n := n0()
		if late() {
			return
		}
		from, to := bits(n), bits(n)
		for _, bt := range [][2]int{{2, 8}, {1, 31}, {1, 1}, {4, 7}, {5, 6}, {6, 2}, {3, 10}, {2, 15}, {8, 1}} {
			basebit, t := bt[0], bt[1]
			if basebit*t > 31 || (basebit > 4 && n > 900) {
				continue
			}
			base := 1 << basebit
			k := proxyreenc.NewProxyReencryptionKeySymmetricWithParams(from, to, 0, basebit, t)
			check(k.Base == base && k.T == t && len(k.KeyEncryptions) == base*t*n, "symmetric key: base %d, depth %d, %d entries", k.Base, k.T, len(k.KeyEncryptions))
			for i := 0; i < n; i++ {
				for j := 0; j < t; j++ {
					for d := 1; d < base; d++ {
						w := T(d) * from[i] << (32 - (j+1)*basebit)
						got := phase(k.KeyEncryptions[(i*t+j)*base+d].P, to)
						check(got == w, "symmetric re-encryption key(base bits %d, depth %d) entry %d/%d/%d has phase %#x, expected %#x", basebit, t, i, j, d, got, w)
					}
				}
			}
			for c := 0; c < 3; c++ {
				src := ct0()
				if c == 0 {
					src = enc0(rt(), from)
				}
				p := cp(src.P)
				r := proxyreenc.ReencryptTLWELv0(src, k)
				check(eq(p, src.P), "re-encryption changed its input")
				e := dist(phase(r.P, to), phase(p, from))
				lim := T(1)<<(31-basebit*t)*T(n) + 1
				if basebit*t <= 10 {
					continue
				}
				check(e <= lim, "re-encryption(base bits %d, depth %d): source phase %#x, result phase %#x", basebit, t, phase(p, from), phase(r.P, to))
			}
			// exact: random entries
			for i := range k.KeyEncryptions {
				if i%97 == 0 {
					k.KeyEncryptions[i] = ct0()
				}
			}
			src := ct0()
			w := make([]T, n+1)
			w[n] = src.P[n]
			for i := 0; i < n; i++ {
				v := (uint64(src.P[i]) + 1<<(31-basebit*t)) & (1<<32 - 1)
				for j := 0; j < t; j++ {
					if d := int(v>>(32-(j+1)*basebit)) & (base - 1); d != 0 {
						for x := range w {
							w[x] -= k.KeyEncryptions[(i*t+j)*base+d].P[x]
						}
					}
				}
			}
			r := proxyreenc.ReencryptTLWELv0(src, k)
			for x := range w {
				check(r.P[x] == w[x], "re-encryption(base bits %d, depth %d) component %d: %#x, expected %#x", basebit, t, x, r.P[x], w[x])
			}
		}
		for _, size := range []int{0, 1, 5, 2 * n} {
			pk := proxyreenc.NewPublicKeyLv0WithParams(to, size, 0)
			check(len(pk.Encryptions) == size, "public key of size %d has %d encryptions", size, len(pk.Encryptions))
			for i, e := range pk.Encryptions {
				check(phase(e.P, to) == 0, "public key entry %d has phase %#x", i, phase(e.P, to))
			}
			for c := 0; c < 5; c++ {
				p := rng.Float64() - 0.5
				e := pk.EncryptF64(p, 0)
				check(phase(e.P, to) == tor(p), "public-key encryption of %v has phase %#x", p, phase(e.P, to))
				b := rng.Intn(2) == 1
				eb := pk.EncryptBool(b, 0)
				check(phase(eb.P, to) == noisyless(b), "public-key encryption of %v has phase %#x", b, phase(eb.P, to))
			}
			st := &stat{name: "public-key encryption", sd: 1e-4}
			for c := 0; c < 100; c++ {
				st.add(phase(pk.EncryptF64(0.25, 1e-4).P, to) - tor(0.25))
			}
			st.done()
		}
		// signed combination: entries that are unit vectors show their coefficient
		pk := &proxyreenc.PublicKeyLv0{}
		for i := 0; i < n; i++ {
			c := &tlwe.TLWELv0{P: make([]T, n+1)}
			c.P[i] = 1
			pk.Encryptions = append(pk.Encryptions, c)
		}
		e := pk.EncryptF64(0, 0)
		var cnt [3]int
		for i := 0; i < n; i++ {
			check(e.P[i]+1 <= 2, "public-key encryption uses entry %d with coefficient %d", i, int32(e.P[i]))
			cnt[e.P[i]+1]++
		}
		check(cnt[0] > n/10 && cnt[1] > n/5 && cnt[2] > n/10, "public-key encryption combination is degenerate: %v", cnt)
		d := proxyreenc.NewPublicKeyLv0(to)
		check(len(d.Encryptions) == 2*n, "default public key has %d encryptions", len(d.Encryptions))
		st := &stat{name: "public key", sd: params.GetTLWELv0().ALPHA}
		for _, x := range d.Encryptions {
			st.add(phase(x.P, to))
		}
		st.done()
		if l != params.Security128Bit && l != params.Security80Bit && l != params.SecurityUint2 {
			continue
		}
		ak := proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(from, proxyreenc.NewPublicKeyLv0WithParams(to, 3, 0), 0, 3, 3)
		check(ak.Base == 8 && ak.T == 3 && len(ak.KeyEncryptions) == 24*n, "asymmetric key layout")
		for i := 0; i < n; i++ {
			for j := 0; j < 3; j++ {
				for d := 1; d < 8; d++ {
					w := T(d) * from[i] << (32 - (j+1)*3)
					got := phase(ak.KeyEncryptions[(i*3+j)*8+d].P, to)
					check(got == w, "asymmetric re-encryption key entry %d/%d/%d has phase %#x, expected %#x", i, j, d, got, w)
				}
			}
		}
		g := params.GetTRGSWLv1()
		sk := proxyreenc.NewProxyReencryptionKeySymmetric(from, to)
		check(sk.Base == 1<<g.BASEBIT && sk.T == g.IKS_T, "default symmetric key layout")
		st = &stat{name: "default symmetric key", sd: params.KSKAlpha()}
		for i := 0; i < n; i += 7 {
			for j := 0; j < sk.T; j++ {
				st.add(phase(sk.KeyEncryptions[(i*sk.T+j)*sk.Base+1].P, to) - from[i]<<(32-(j+1)*g.BASEBIT))
			}
		}
		st.done()
	}
}

type docRow struct {
	n0, n, l, basebit, t, bgbit int
	a0, a1                      float64
}

// the documented parameter sets
var doc = map[params.SecurityLevel]docRow{
	params.Security80Bit:  {550, 1024, 3, 2, 7, 6, 5.0e-5, 3.73e-8},
	params.Security110Bit: {630, 1024, 3, 2, 8, 6, 3.0517578125e-05, 2.980232238769531e-8},
	params.Security128Bit: {700, 1024, 3, 2, 9, 6, 2.0e-5, 2.0e-8},
	params.SecurityUint1:  {700, 1024, 2, 2, 8, 10, 2.0e-05, 2.0e-08},
	params.SecurityUint2:  {687, 512, 1, 4, 3, 18, 0.00002120846893069971872305794214, 0.00000000000231841227527049948463},
	params.SecurityUint3:  {820, 1024, 1, 6, 2, 23, 0.00000251676160959795544987084234, 0.00000000000000022204460492503131},
	params.SecurityUint4:  {820, 2048, 1, 5, 3, 22, 0.00000251676160959795544987084234, 0.00000000000000022204460492503131},
	params.SecurityUint5:  {1071, 2048, 1, 6, 3, 22, 7.088226765410429399593757e-08, 2.2204460492503131e-17},
	params.SecurityUint6:  {1071, 2048, 1, 6, 3, 22, 7.088226765410429399593757e-08, 2.2204460492503131e-17},
	params.SecurityUint7:  {1160, 2048, 1, 7, 3, 22, 1.966220007498402695211596e-08, 2.2204460492503131e-17},
	params.SecurityUint8:  {1160, 2048, 1, 7, 3, 22, 1.966220007498402695211596e-08, 2.2204460492503131e-17},
}

func c09() {
	type snap struct {
		a    params.TLWELv0Params
		b    params.TLWELv1Params
		c    params.TRLWELv1Params
		d    params.TRGSWLv1Params
		k, s float64
	}
	get := func() snap {
		return snap{params.GetTLWELv0(), params.GetTLWELv1(), params.GetTRLWELv1(), params.GetTRGSWLv1(), params.KSKAlpha(), params.BSKAlpha()}
	}
	want := map[params.SecurityLevel]snap{}
	for _, l := range allLevels {
		setLevel(l)
		p := get()
		want[l] = p
		q := doc[l]
		check(docRow{p.a.N, p.d.N, p.d.L, p.d.BASEBIT, p.d.IKS_T, int(p.d.BGBIT), p.a.ALPHA, p.b.ALPHA} == q, "accessors return %+v, documented %+v", p, q)
		check(p.a.N > 0 && p.b.N == p.c.N && p.c.N == p.d.N && p.d.N == 1<<uint(p.d.NBIT), "ring degrees %d %d %d, NBIT %d", p.b.N, p.c.N, p.d.N, p.d.NBIT)
		check(p.d.BG == 1<<p.d.BGBIT && int(p.d.BGBIT)*p.d.L <= 32 && p.d.L > 0, "gadget %+v", p.d)
		check(p.d.BASEBIT > 0 && p.d.IKS_T > 0 && p.d.BASEBIT*p.d.IKS_T <= 31, "key switching %+v", p.d)
		check(p.k == p.a.ALPHA && p.s == p.b.ALPHA && p.b.ALPHA == p.c.ALPHA && p.c.ALPHA == p.d.ALPHA, "noise parameters %+v", p)
		check(params.SecurityInfo() != "", "empty description")
		check(params.GetBlockCount() > 0, "block count %d", params.GetBlockCount())
		if int(l) <= 8 {
			check(2<<uint(l) <= 2*p.d.N, "message modulus does not fit")
		}
	}
	for i := 0; i < 200; i++ {
		l := allLevels[rng.Intn(len(allLevels))]
		setLevel(l)
		params.SecurityInfo()
		params.GetBlockCount()
		params.UseBlockBlindRotation()
		check(get() == want[l] && params.CurrentSecurityLevel == l, "switching back gives %+v, first %+v", get(), want[l])
	}
	for _, x := range []int{-1, 0, 9, 64, 79, 81, 100, 127, 129, 256, math.MaxInt32} {
		setLevel(params.SecurityLevel(x))
		check(get() == want[params.Security128Bit], "level %d gives %+v", x, get())
	}
}

func c11() {
	mul := func(a, b []T) []T {
		n := len(a)
		r := make([]T, n)
		for i := range a {
			if a[i] == 0 {
				continue
			}
			for j := range b {
				if i+j < n {
					r[i+j] += a[i] * b[j]
				} else {
					r[i+j-n] -= a[i] * b[j]
				}
			}
		}
		return r
	}
	setLevel(params.Security128Bit)
	for round := 0; round < 6 && !late(); round++ {
		for n := 16; n <= 4096; n *= 2 {
			if n == 4096 && round > 0 {
				continue
			}
			ev := poly.NewEvaluator(n)
			check(ev.Degree() == n, "degree of an evaluator for %d is %d", n, ev.Degree())
			sm := func(bits uint) poly.Poly {
				p := ev.NewPoly()
				for i := range p.Coeffs {
					if round%2 == 0 || rng.Intn(8) == 0 {
						p.Coeffs[i] = T(rng.Int63n(2<<bits) - 1<<bits)
					}
				}
				if round == 3 {
					for i := range p.Coeffs {
						p.Coeffs[i] = 0
					}
					p.Coeffs[rng.Intn(n)] = T(rng.Int63n(1 << bits))
				}
				return p
			}
			lg := uint(math.Log2(float64(n)))
			full := ev.NewPoly()
			for i := range full.Coeffs {
				full.Coeffs[i] = et()
			}
			fsnap := cp(full.Coeffs)
			fp := ev.ToFourierPoly(full)
			check(eq(fsnap, full.Coeffs), "ToFourierPoly changed its input")
			back := ev.ToPoly(fp)
			for i := range fsnap {
				check(back.Coeffs[i] == fsnap[i], "N=%d: transforming forth and back changes coefficient %d from %#x to %#x", n, i, fsnap[i], back.Coeffs[i])
			}
			fp2 := ev.ToFourierPoly(full)
			for i := range fp.Coeffs {
				check(fp.Coeffs[i] == fp2.Coeffs[i], "ToPoly changed its input")
			}
			for _, bb := range [][2]uint{{10, 30 - lg + 8}, {20, 26 - lg}, {1, 32}} {
				a, b := sm(bb[0]), sm(31)
				if bb[1] < 31 {
					b = sm(bb[1])
				}
				w := mul(a.Coeffs, b.Coeffs)
				sa, sb := cp(a.Coeffs), cp(b.Coeffs)
				r := ev.MulPoly(a, b)
				cmp := func(name string, g, w []T) {
					for i := range w {
						check(g[i] == w[i], "N=%d %s coefficient %d is %#x, schoolbook product %#x", n, name, i, g[i], w[i])
					}
				}
				cmp("MulPoly", r.Coeffs, w)
				check(eq(sa, a.Coeffs) && eq(sb, b.Coeffs), "MulPoly changed an operand")
				out := poly.Poly{Coeffs: vec(n)}
				ev.MulPolyAssign(a, b, out)
				cmp("MulPolyAssign", out.Coeffs, w)
				acc := vec(n)
				out = poly.Poly{Coeffs: cp(acc)}
				ev.MulAddPolyAssign(a, b, out)
				for i := range acc {
					out.Coeffs[i] -= acc[i]
				}
				cmp("MulAddPolyAssign", out.Coeffs, w)
				out = poly.Poly{Coeffs: cp(acc)}
				ev.MulSubPolyAssign(a, b, out)
				for i := range acc {
					out.Coeffs[i] = acc[i] - out.Coeffs[i]
				}
				cmp("MulSubPolyAssign", out.Coeffs, w)
				fa, fb := ev.ToFourierPoly(a), ev.ToFourierPoly(b)
				cmp("MulFourierPoly", ev.ToPoly(ev.MulFourierPoly(fa, fb)).Coeffs, w)
				c := sm(8)
				fc := ev.ToFourierPoly(c)
				add := func(p, q []T, s T) []T {
					r := make([]T, n)
					for i := range r {
						r[i] = p[i] + s*q[i]
					}
					return r
				}
				one := T(1)
				cmp("AddFourierPoly", ev.ToPoly(ev.AddFourierPoly(fa, fc)).Coeffs, add(a.Coeffs, c.Coeffs, one))
				cmp("SubFourierPoly", ev.ToPoly(ev.SubFourierPoly(fa, fc)).Coeffs, add(a.Coeffs, c.Coeffs, -one))
				t := fc.Copy()
				ev.MulAddFourierPolyAssign(fa, fb, t)
				cmp("MulAddFourierPolyAssign", ev.ToPoly(t).Coeffs, add(c.Coeffs, w, one))
				t = fc.Copy()
				ev.MulSubFourierPolyAssign(fa, fb, t)
				cmp("MulSubFourierPolyAssign", ev.ToPoly(t).Coeffs, add(c.Coeffs, w, -one))
				t = fc.Copy()
				ev.FloatMulFourierPolyAssign(fa, 3, t)
				cmp("FloatMulFourierPolyAssign", ev.ToPoly(t).Coeffs, add(add(a.Coeffs, a.Coeffs, one), a.Coeffs, one))
				t = fc.Copy()
				ev.FloatMulAddFourierPolyAssign(fa, 3, t)
				cmp("FloatMulAddFourierPolyAssign", ev.ToPoly(t).Coeffs, add(add(add(a.Coeffs, a.Coeffs, one), a.Coeffs, one), c.Coeffs, one))
				out = poly.Poly{Coeffs: cp(acc)}
				ev.ToPolyAddAssignUnsafe(fa.Copy(), out)
				cmp("ToPolyAddAssignUnsafe", out.Coeffs, add(acc, a.Coeffs, one))
				out = poly.Poly{Coeffs: cp(acc)}
				ev.ToPolySubAssignUnsafe(fa.Copy(), out)
				cmp("ToPolySubAssignUnsafe", out.Coeffs, add(acc, a.Coeffs, -one))
				ev.MulPolyAssign(a, b, a)
				cmp("MulPolyAssign in place", a.Coeffs, w)
			}
		}
	}
}

func checkCloudKey(sk *key.SecretKey, ck *cloudkey.CloudKey) {
	g := params.GetTRGSWLv1()
	base := 1 << g.BASEBIT
	n, m := n0(), nn()
	check(len(ck.KeySwitchingKey) == base*g.IKS_T*m && len(ck.BootstrappingKey) == n, "cloud key has %d and %d entries", len(ck.KeySwitchingKey), len(ck.BootstrappingKey))
	st := &stat{name: "key-switching key", sd: params.GetTLWELv0().ALPHA}
	for i := 0; i < m; i++ {
		for j := 0; j < g.IKS_T; j++ {
			for d := 0; d < base; d++ {
				e := ck.KeySwitchingKey[(i*g.IKS_T+j)*base+d]
				check(e != nil && len(e.P) == n+1, "key-switching entry %d/%d/%d is missing", i, j, d)
				if d != 0 {
					x := phase(e.P, sk.KeyLv0) - T(d)*sk.KeyLv1[i]<<(32-(j+1)*g.BASEBIT)
					if math.Abs(float64(int32(x))) > 9*st.sd*4294967296+1 {
						fail("key-switching entry %d/%d/%d has phase %#x, expected %#x", i, j, d, phase(e.P, sk.KeyLv0), T(d)*sk.KeyLv1[i]<<(32-(j+1)*g.BASEBIT))
					}
					st.add(x)
				}
			}
		}
	}
	st.done()
	ev := poly.NewEvaluator(m)
	st = &stat{name: "bootstrapping key", sd: params.GetTLWELv1().ALPHA}
	for i := range ck.BootstrappingKey {
		b := ck.BootstrappingKey[i]
		check(b != nil && len(b.TRLWEFFT) == 2*g.L, "bootstrapping entry %d has %d rows", i, len(b.TRLWEFFT))
		if i > 40 && i%37 != 0 && i < n-5 {
			continue
		}
		for r := range b.TRLWEFFT {
			c := &trlwe.TRLWELv1{A: ev.ToPoly(b.TRLWEFFT[r].A).Coeffs, B: ev.ToPoly(b.TRLWEFFT[r].B).Coeffs}
			w := sk.KeyLv0[i] << (32 - (uint32(r%g.L)+1)*g.BGBIT)
			a0, b0 := w, T(0)
			if r >= g.L {
				a0, b0 = 0, w
			}
			c.A[0] -= a0
			c.B[0] -= b0
			for x, p := range ringPhase(c, sk.KeyLv1) {
				if math.Abs(float64(int32(p))) > 9*st.sd*4294967296+16 {
					fail("bootstrapping entry %d row %d coefficient %d: noise %d (key bit %d)", i, r, x, int32(p), sk.KeyLv0[i])
				}
				if params.GetTLWELv1().ALPHA > 1e-8 {
					st.add(p)
				}
			}
		}
	}
	if st.n > 0 {
		st.done()
	}
	var off T
	for i := 0; i < g.L; i++ {
		off += T(1) << (g.BGBIT - 1) << (32 - (uint32(i)+1)*g.BGBIT)
	}
	check(ck.DecompositionOffset == off, "decomposition offset %#x, expected %#x", ck.DecompositionOffset, off)
	check(len(ck.BlindRotateTestvec.A) == m && len(ck.BlindRotateTestvec.B) == m, "test vector dimensions")
	for i := range ck.BlindRotateTestvec.B {
		check(ck.BlindRotateTestvec.A[i] == 0 && ck.BlindRotateTestvec.B[i] == 1<<29, "test vector coefficient %d", i)
	}
}

func c12() {
	for _, l := range allLevels {
		setLevel(l)
		for c := 0; c < 5; c++ {
			sk := key.NewSecretKey()
			check(len(sk.KeyLv0) == n0() && len(sk.KeyLv1) == nn(), "secret key has %d and %d entries", len(sk.KeyLv0), len(sk.KeyLv1))
			var ones [2]int
			for i, v := range [][]T{sk.KeyLv0, sk.KeyLv1} {
				for j, x := range v {
					check(x <= 1, "key entry %d is %d", j, x)
					ones[i] += int(x)
				}
				check(ones[i] > len(v)/3 && ones[i] < 2*len(v)/3, "key of %d entries has %d ones", len(v), ones[i])
			}
		}
		ev := poly.NewEvaluator(nn())
		s := bits(nn())
		g := params.GetTRGSWLv1()
		for bit := T(0); bit < 2; bit++ {
			t := trgsw.NewTRGSWLv1().EncryptTorus(bit, 0, s, ev)
			check(len(t.TRLWE) == 2*g.L, "gadget ciphertext has %d rows", len(t.TRLWE))
			f := trgsw.NewTRGSWLv1FFT(t, ev)
			for r, c := range t.TRLWE {
				w := bit << (32 - (uint32(r%g.L)+1)*g.BGBIT)
				fa, fb := ev.ToPoly(f.TRLWEFFT[r].A).Coeffs, ev.ToPoly(f.TRLWEFFT[r].B).Coeffs
				check(eq(fa, c.A) && eq(fb, c.B), "Fourier form of gadget row %d differs", r)
				d := &trlwe.TRLWELv1{A: cp(c.A), B: cp(c.B)}
				if r < g.L {
					d.A[0] -= w
				} else {
					d.B[0] -= w
				}
				for x, p := range ringPhase(d, s) {
					check(dist(p, 0) <= 4, "gadget encryption of %d row %d coefficient %d is off by %d", bit, r, x, int32(p))
				}
			}
		}
	}
	procs := []int{3, 8, 7, 1, 5, 6}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs[0]))
	for i, l := range keyLevels {
		if late() {
			return
		}
		setLevel(l)
		runtime.GOMAXPROCS(procs[i%len(procs)])
		sk := key.NewSecretKey()
		a, b := cp(sk.KeyLv0), cp(sk.KeyLv1)
		ck := cloudkey.NewCloudKey(sk)
		check(eq(a, sk.KeyLv0) && eq(b, sk.KeyLv1), "key generation changed the secret key")
		checkCloudKey(sk, ck)
		d := cloudkey.NewCloudKeyNoKSK()
		check(len(d.KeySwitchingKey) == len(ck.KeySwitchingKey) && len(d.BootstrappingKey) == len(ck.BootstrappingKey) && d.DecompositionOffset == ck.DecompositionOffset && eq(d.BlindRotateTestvec.B, ck.BlindRotateTestvec.B), "empty cloud key layout")
	}
}

func c13() {
	for round := 0; round < 3 && !late(); round++ {
		for _, l := range allLevels {
			setLevel(l)
			n := nn()
			s := bits(n)
			c := ring()
			pa, pb := cp(c.A), cp(c.B)
			ph := ringPhase(c, s)
			for i := 0; i < 30; i++ {
				k := rng.Intn(n)
				if i < 3 {
					k = []int{0, n - 1, 1}[i]
				}
				r := trlwe.SampleExtractIndex(c, k)
				check(len(r.P) == n+1 && dist(phase(r.P, s), ph[k]) <= T(n), "sample %d of %d has phase %#x, coefficient %#x", k, n, phase(r.P, s), ph[k])
				o := ct1()
				trlwe.SampleExtractIndexAssign(c, k, o)
				check(eq(o.P, r.P), "in-place extraction at %d differs", k)
			}
			check(eq(pa, c.A) && eq(pb, c.B), "extraction changed its input")
			c13enc(poly.NewEvaluator(n), s)
		}
	}
}

func c14() {
	setLevel(params.Security128Bit)
	toB := func(v uint64, n int) []bool {
		b := make([]bool, n)
		for i := range b {
			b[i] = v>>uint(i)&1 == 1
		}
		return b
	}
	same := func(a, b []bool) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	for i := 0; i < 1<<16; i++ {
		if i < 256 {
			check(bitutils.ConvertU8(bitutils.U8ToBits(uint8(i))) == uint8(i) && same(bitutils.U8ToBits(uint8(i)), toB(uint64(i), 8)), "8-bit round trip of %d", i)
		}
		check(bitutils.ConvertU16(bitutils.U16ToBits(uint16(i))) == uint16(i) && same(bitutils.U16ToBits(uint16(i)), toB(uint64(i), 16)), "16-bit round trip of %d", i)
		v := rng.Uint64()
		if i < 200 {
			v = 1<<uint(i%65) - uint64(i/65)
		}
		check(bitutils.ConvertU32(bitutils.U32ToBits(uint32(v))) == uint32(v) && same(bitutils.U32ToBits(uint32(v)), toB(uint64(uint32(v)), 32)), "32-bit round trip of %d", uint32(v))
		check(bitutils.ConvertU64(bitutils.U64ToBits(v)) == v && same(bitutils.U64ToBits(v), toB(v, 64)), "64-bit round trip of %d", v)
		n := rng.Intn(65)
		check(same(bitutils.ToBits(v, n), toB(v, n)), "ToBits(%d, %d)", v, n)
		bs := toB(v, n)
		w := v
		if n < 64 {
			w &= 1<<uint(n) - 1
		}
		check(bitutils.ConvertU64(bs) == w && bitutils.ConvertU32(bs) == uint32(w) && bitutils.ConvertU16(bs) == uint16(w) && bitutils.ConvertU8(bs) == uint8(w), "conversion of %d bits of %d", n, v)
		t := et()
		check(utils.F64ToTorus(utils.TorusToF64(t)) == t, "torus element %#x becomes %v and %#x", t, utils.TorusToF64(t), utils.F64ToTorus(utils.TorusToF64(t)))
		check(utils.TorusToF64(t) == float64(t)/4294967296, "TorusToF64(%#x) = %v", t, utils.TorusToF64(t))
		x := (rng.Float64() - 0.5) * math.Pow(10, float64(rng.Intn(8)))
		if i%7 == 0 {
			x = float64(rng.Intn(64)-32) / 8
		}
		check(utils.F64ToTorus(x) == tor(x), "F64ToTorus(%v) = %#x, expected %#x", x, utils.F64ToTorus(x), tor(x))
	}
	xs := []float64{0, 0.5, -0.25, 1.75, rng.Float64()}
	for i, v := range utils.F64ToTorusVec(xs) {
		check(v == tor(xs[i]), "F64ToTorusVec(%v)", xs[i])
	}
	check(len(utils.F64ToTorusVec(xs)) == len(xs), "F64ToTorusVec length")
	for i := 0; i < 200; i++ {
		seed := rng.Int63()
		mu, sd := rt(), rng.Float64()*0.01
		w := mu + tor(rand.New(rand.NewSource(seed)).NormFloat64()*sd)
		check(utils.GaussianTorus(mu, sd, rand.New(rand.NewSource(seed))) == w, "GaussianTorus")
		m := rng.Float64()
		w = tor(m) + tor(rand.New(rand.NewSource(seed)).NormFloat64()*sd)
		check(utils.GaussianF64(m, sd, rand.New(rand.NewSource(seed))) == w, "GaussianF64")
		g := rand.New(rand.NewSource(seed))
		for j, v := range utils.GaussianF64Vec(xs, sd, rand.New(rand.NewSource(seed))) {
			check(v == tor(xs[j])+tor(g.NormFloat64()*sd), "GaussianF64Vec element %d", j)
		}
	}
	ms := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 100, 255, 256, 1000, 1024, 4095, 65535, 65536, 1<<20 - 1, 1 << 20}
	for i := 0; i < 300; i++ {
		ms = append(ms, 1+rng.Intn(1<<20))
	}
	for _, m := range ms {
		e := lut.NewEncoder(m)
		for c := 0; c < 40; c++ {
			x := rng.Intn(m)
			if c%4 == 0 {
				x = m - 1
			}
			if c%4 == 1 {
				x = 0
			}
			z := x + m*(rng.Intn(9)-4)
			v := e.Encode(z)
			check(dist(v, encode(x, m)) <= 1, "Encode(%d) modulo %d = %#x, expected %#x", z, m, v, encode(x, m))
			check(e.EncodeWithCustomScale(z, 1/float64(2*m)) == v, "EncodeWithCustomScale")
			half := int64(1)<<30/int64(m) - 3
			if half < 1 {
				half = 1
			}
			for _, d := range []int64{0, half - 1, 1 - half, rng.Int63n(2*half-1) - half + 1} {
				got := e.Decode(v + T(d))
				check(got == x, "Decode(Encode(%d) with error %d) modulo %d = %d", z, d, m, got)
				check(e.DecodeBool(v+T(d)) == (x != 0), "DecodeBool")
			}
		}
	}
}

func c15() {
	for round := 0; round < 2 && !late(); round++ {
		for _, l := range allLevels {
			setLevel(l)
			g := params.GetTRGSWLv1()
			n := nn()
			var off T
			for i := 0; i < g.L; i++ {
				off += T(1) << (g.BGBIT - 1) << (32 - (uint32(i)+1)*g.BGBIT)
			}
			p := vec(n)
			for i := 0; i < 32 && i < n; i++ {
				p[i] = 1<<uint(i) - T(i%3)
			}
			out := make([]poly.Poly, g.L)
			for i := range out {
				out[i] = poly.Poly{Coeffs: vec(n)}
			}
			sp := cp(p)
			poly.DecomposePolyAssign(p, int(g.BGBIT), g.L, off, out)
			check(eq(sp, p), "decomposition changed its input")
			for j := range p {
				var r T
				for i := range out {
					d := int32(out[i].Coeffs[j])
					check(d >= -(1<<(g.BGBIT-1)) && d < 1<<(g.BGBIT-1), "digit %d of %#x is %d", i, p[j], d)
					r += T(d) << (32 - (uint32(i)+1)*g.BGBIT)
				}
				check(p[j]-r < 1<<(32-uint32(g.L)*g.BGBIT), "digits of %#x recompose to %#x", p[j], r)
			}
			s := bits(n)
			ev := poly.NewEvaluator(n)
			e := evaluator.NewEvaluator(n)
			for bit := T(0); bit < 2; bit++ {
				gs := gsw(bit, s, ev)
				for c := 0; c < 3; c++ {
					a, b := ring(), ring()
					if c == 2 {
						b = a
					}
					snap := [][]T{cp(a.A), cp(a.B), cp(b.A), cp(b.B)}
					pa, pb := ringPhase(a, s), ringPhase(b, s)
					lim := T(float64(n)*math.Pow(2, 32-float64(g.L)*float64(g.BGBIT))) + 1<<20
					if lim > 1<<29 {
						lim = 1 << 29
					}
					cmp := func(name string, r *trlwe.TRLWELv1, w []T) {
						for i, v := range ringPhase(r, s) {
							check(dist(v, w[i]) <= lim, "%s with an encryption of %d: coefficient %d has phase %#x, expected %#x", name, bit, i, v, w[i])
						}
					}
					w := make([]T, n)
					sel := pa
					if bit == 1 {
						w, sel = pa, pb
					}
					for i := 0; i < rng.Intn(5); i++ {
						ev.GetTRLWEBuffer()
					}
					cmp("ExternalProductWithFFT", trgsw.ExternalProductWithFFT(gs, a, off, ev), w)
					cmp("CMUX", trgsw.CMUX(a, b, gs, off, ev), sel)
					o := ring()
					e.ExternalProductAssign(gs, a, off, o)
					cmp("ExternalProductAssign", o, w)
					o = ring()
					e.CMuxAssign(gs, a, b, off, o)
					cmp("CMuxAssign", o, sel)
					check(eq(snap[0], a.A) && eq(snap[1], a.B) && eq(snap[2], b.A) && eq(snap[3], b.B), "an operand changed")
					if c != 2 {
						e.CMuxAssign(gs, a, b, off, a)
						cmp("CMuxAssign in place", a, sel)
					}
				}
			}
		}
	}
}

func c16() {
	rot := func(a []T, k int) []T { // exact negation; the code is off by one unit there
		n := len(a)
		r := make([]T, n)
		for i := range a {
			j := (((i + k) % (2 * n)) + 2*n) % (2 * n)
			if j < n {
				r[j] = a[i]
			} else {
				r[j-n] = -a[i]
			}
		}
		return r
	}
	for round := 0; round < 20 && !late(); round++ {
		for _, l := range allLevels {
			setLevel(l)
			n := nn()
			ev := poly.NewEvaluator(n)
			for c := 0; c < 14; c++ {
				a := vec(n)
				k := rng.Intn(8*n) - 4*n
				if c < 9 {
					k = []int{0, n, 2 * n, -n, -2 * n, n - 1, n + 1, -1, 2*n - 1}[c]
				}
				w := rot(a, k)
				s := cp(a)
				cmp := func(name string, r []T) {
					check(len(r) == n, "%s length", name)
					for i := range r {
						check(r[i] == w[i] || r[i] == w[i]-1, "%s by %d: coefficient %d is %#x, expected %#x", name, k, i, r[i], w[i])
					}
					check(eq(s, a), "%s changed its input", name)
				}
				o := vec(n)
				poly.PolyMulWithXKInPlace(a, k, o)
				cmp("PolyMulWithXKInPlace", o)
				cmp("PolyMulWithXK", ev.PolyMulWithXK(a, k))
				o = vec(n)
				ev.PolyMulWithXKDirect(a, k, o)
				cmp("PolyMulWithXKDirect", o)
			}
			hist := func(name string, get func() []T, reset func()) {
				var last [][]T
				if rng.Intn(2) == 0 {
					reset()
				}
				for i := 0; i < 15; i++ {
					b := get()
					check(len(b) == n, "%s: buffer of %d", name, len(b))
					for j := len(last) - 1; j >= 0 && j >= len(last)-3; j-- {
						check(!share(b, last[j]), "%s: buffer handed out again after %d calls", name, len(last)-j)
					}
					last = append(last, b)
				}
			}
			hist("GetRotationBuffer", ev.GetRotationBuffer, ev.ResetRotationPool)
			hist("PolyMulWithXK", func() []T { return ev.PolyMulWithXK(make([]T, n), 3) }, ev.ResetRotationPool)
			hist("GetTRLWEBuffer.A", func() []T { a, _ := ev.GetTRLWEBuffer(); return a }, ev.ResetTRLWEPool)
			hist("GetTRLWEBuffer.B", func() []T { _, b := ev.GetTRLWEBuffer(); return b }, ev.ResetTRLWEPool)
			bm := poly.NewBufferManager(n)
			hist("BufferManager.GetRotationBuffer", func() []T { return bm.GetRotationBuffer().Coeffs }, bm.Reset)
			hist("BufferManager.GetTRLWEBuffer.A", func() []T { a, _ := bm.GetTRLWEBuffer(); return a }, bm.Reset)
			hist("BufferManager.GetTRLWEBuffer.B", func() []T { _, b := bm.GetTRLWEBuffer(); return b }, bm.Reset)
			a, b := ev.GetTRLWEBuffer()
			check(!share(a, b), "the two halves of a pooled ciphertext share storage")
		}
	}
}

func c10() {
	setLevel(params.Security80Bit)
	for _, l := range keyLevels[:3] {
		if late() {
			return
		}
		setLevel(l)
		k := cleanKeys()
		s := k.sk.KeyLv0
		ev := poly.NewEvaluator(nn())
		hash := func() uint64 {
			h := uint64(1469598103934665603)
			mix := func(v []T) {
				for _, x := range v {
					h = (h ^ uint64(x)) * 1099511628211
				}
			}
			mix(k.sk.KeyLv0)
			mix(k.sk.KeyLv1)
			mix(k.ck.BlindRotateTestvec.A)
			mix(k.ck.BlindRotateTestvec.B)
			mix([]T{k.ck.DecompositionOffset})
			for i, e := range k.ck.KeySwitchingKey {
				if i%5 == 0 {
					mix(e.P)
				}
			}
			for _, e := range k.ck.BootstrappingKey {
				for _, r := range e.TRLWEFFT {
					for x := 0; x < len(r.A.Coeffs); x += 3 {
						h = (h ^ math.Float64bits(r.A.Coeffs[x])) * 1099511628211
						h = (h ^ math.Float64bits(r.B.Coeffs[x])) * 1099511628211
					}
				}
			}
			return h
		}
		h0 := hash()
		e := evaluator.NewEvaluator(nn())
		b, ks, o := k.ck.BootstrappingKey, k.ck.KeySwitchingKey, k.ck.DecompositionOffset
		tab := lut.NewGenerator(4).GenLookUpTable(func(x int) int { return x + 1 })
		tabB := cp(tab.Poly.B)
		x, y, z := enc0(noisy(true), s), enc0(noisy(false), s), enc0(noisy(true), s)
		px, py, pz := cp(x.P), cp(y.P), cp(z.P)
		type held struct {
			name string
			c    *tlwe.TLWELv0
			v    []T
		}
		var keep []held
		re := proxyreenc.NewProxyReencryptionKeySymmetricWithParams(s, s, 0, 4, 4)
		pk := proxyreenc.NewPublicKeyLv0WithParams(s, 4, 0)
		reSnap, pkSnap := cp(re.KeyEncryptions[5].P), cp(pk.Encryptions[0].P)
		ops := map[string]func() *tlwe.TLWELv0{
			"NOT": func() *tlwe.TLWELv0 { return gates.NOT(x) }, "Copy": func() *tlwe.TLWELv0 { return gates.Copy(x) },
			"MUX":          func() *tlwe.TLWELv0 { return gates.MUX(x, y, z, k.ck) },
			"BootstrapLUT": func() *tlwe.TLWELv0 { return e.BootstrapLUT(x, tab, b, ks, o) },
			"BootstrapFunc": func() *tlwe.TLWELv0 {
				return e.BootstrapFunc(x, func(v int) int { return v }, 4, b, ks, o)
			},
			"Reencrypt":        func() *tlwe.TLWELv0 { return proxyreenc.ReencryptTLWELv0(x, re) },
			"PublicKeyEncrypt": func() *tlwe.TLWELv0 { return pk.EncryptBool(true, 0) },
			"BatchNAND":        func() *tlwe.TLWELv0 { return gates.BatchNAND([][2]*tlwe.TLWELv0{{x, y}, {z, x}}, k.ck)[1] },
			"BatchXNOR":        func() *tlwe.TLWELv0 { return gates.BatchXNOR([][2]*tlwe.TLWELv0{{x, y}, {z, x}}, k.ck)[0] },
			"Bootstrap":        func() *tlwe.TLWELv0 { return gates.Copy(e.Bootstrap(x, k.ck.BlindRotateTestvec, b, ks, o)) },
			"CMUX": func() *tlwe.TLWELv0 {
				r := trgsw.BlindRotate(x, k.ck.BlindRotateTestvec, b, o, ev)
				return trgsw.IdentityKeySwitching(trlwe.SampleExtractIndex(r, 0), ks)
			},
			"Decrypt": func() *tlwe.TLWELv0 {
				x.DecryptBool(s)
				x.DecryptLWEMessage(4, s)
				bitutils.DecryptBits([]*tlwe.TLWELv0{x, y}, s)
				return x.Add(y)
			},
		}
		for _, g := range gates2 {
			g := g
			ops[g.name] = func() *tlwe.TLWELv0 { return g.f(x, y, k.ck) }
		}
		for round := 0; round < 2; round++ {
			for name, f := range ops {
				r := f()
				check(eq(px, x.P) && eq(py, y.P) && eq(pz, z.P), "%s changed an operand", name)
				check(eq(tabB, tab.Poly.B), "%s changed a lookup table", name)
				check(eq(reSnap, re.KeyEncryptions[5].P) && eq(pkSnap, pk.Encryptions[0].P), "%s changed a re-encryption or public key", name)
				for _, q := range keep {
					check(eq(q.v, q.c.P), "the result of %s changed during a later %s", q.name, name)
					check(!share(q.c.P, r.P), "the results of %s and %s share storage", q.name, name)
				}
				keep = append(keep, held{name, r, cp(r.P)})
			}
			check(hash() == h0, "an evaluation key, secret key or test vector changed")
		}
		// pooled results stay intact for the next three bootstraps
		ee := evaluator.NewEvaluator(nn())
		var last []held
		for i := 0; i < 11; i++ {
			var r *tlwe.TLWELv0
			w := enc0(rt(), s)
			switch rng.Intn(3) {
			case 0:
				r = ee.BootstrapLUTTemp(w, tab, b, ks, o)
			case 1:
				ee.BootstrapLUT(w, tab, b, ks, o)
				r = nil
			default:
				r = ee.Bootstrap(w, k.ck.BlindRotateTestvec, b, ks, o)
			}
			for j := len(last) - 1; j >= 0 && j >= len(last)-3; j-- {
				if last[j].c != nil {
					check(eq(last[j].v, last[j].c.P), "a pooled bootstrap result changed after %d more bootstraps", len(last)-j)
				}
			}
			if r == nil {
				last = append(last, held{})
			} else {
				last = append(last, held{"", r, cp(r.P)})
			}
		}
		// results as operands
		p1 := ee.Bootstrap(x, k.ck.BlindRotateTestvec, b, ks, o)
		v := cp(p1.P)
		q := ee.Bootstrap(p1, k.ck.BlindRotateTestvec, b, ks, o)
		check(eq(v, p1.P) && dec(q, s) == dec(p1, s), "bootstrapping a pooled result changed it")
	}
}

func c17() {
	keysOf := map[params.SecurityLevel]keys{}
	lv := keyLevels
	if len(lv) > 5 {
		lv = lv[:5]
	}
	for _, l := range lv {
		if late() {
			break
		}
		setLevel(l)
		keysOf[l] = cleanKeys()
	}
	n := 0
	for round := 0; n < 40 && (n < 10 || !late()); round++ {
		l := lv[rng.Intn(len(lv))]
		k, ok := keysOf[l]
		if !ok {
			n++
			continue
		}
		n++
		setLevel(l)
		s := k.sk.KeyLv0
		a, b := rng.Intn(2) == 1, rng.Intn(2) == 1
		x, y := enc0(noisy(a), s), enc0(noisy(b), s)
		g := gates2[rng.Intn(len(gates2))]
		r := g.f(x, y, k.ck)
		check(len(r.P) == n0()+1 && dec(r, s) == g.t(a, b), "after switching to level %d %s(%v,%v) decrypts to %v", l, g.name, a, b, !g.t(a, b))
		bg := batches[rng.Intn(len(batches))]
		for _, r := range bg.f([][2]*tlwe.TLWELv0{{x, y}, {x, y}, {x, y}}, k.ck) {
			check(len(r.P) == n0()+1 && dec(r, s) == bg.t(a, b), "after switching to level %d %s(%v,%v) decrypts to %v", l, bg.name, a, b, !bg.t(a, b))
		}
		e := evaluator.NewEvaluator(nn())
		for j := 0; j < rng.Intn(6); j++ {
			e.Buffers.GetNextResult()
			e.PolyEvaluator.GetRotationBuffer()
			e.PolyEvaluator.GetTRLWEBuffer()
		}
		c := e.ShallowCopy()
		check(c.PolyEvaluator.Degree() == e.PolyEvaluator.Degree(), "a shallow copy has degree %d", c.PolyEvaluator.Degree())
		L := params.GetTRGSWLv1().L
		check(len(c.Decomposer.GetPolyDecomposedBuffer(2*L)) == 2*L && len(c.Decomposer.GetPolyFourierDecomposedBuffer(2*L)) == 2*L, "a shallow copy has a smaller decomposer")
		check(c.Buffers != e.Buffers && c.Decomposer != e.Decomposer && c.PolyEvaluator != e.PolyEvaluator, "a shallow copy shares its buffers")
		done := make(chan *tlwe.TLWELv0)
		in := enc0(noisy(a), s)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					fail("bootstrapping on a shallow copy panics: %v", r)
				}
			}()
			done <- c.Bootstrap(in, k.ck.BlindRotateTestvec, k.ck.BootstrappingKey, k.ck.KeySwitchingKey, k.ck.DecompositionOffset)
		}()
		u := e.Bootstrap(in, k.ck.BlindRotateTestvec, k.ck.BootstrappingKey, k.ck.KeySwitchingKey, k.ck.DecompositionOffset)
		v := <-done
		check(eq(u.P, v.P) && dec(u, s) == a, "original and shallow copy give different results when used concurrently")
		for i := range e.Buffers.ResultPool.Buffers {
			for j := range c.Buffers.ResultPool.Buffers {
				check(!share(e.Buffers.ResultPool.Buffers[i].P, c.Buffers.ResultPool.Buffers[j].P), "a shallow copy shares result buffers")
			}
		}
		pe := e.PolyEvaluator
		pc := pe.ShallowCopy()
		for i := 0; i < 4; i++ {
			p, q := pe.GetRotationBuffer(), pc.GetRotationBuffer()
			check(!share(p, q), "a shallow copy shares rotation buffers")
			p, _ = pe.GetTRLWEBuffer()
			q, _ = pc.GetTRLWEBuffer()
			check(!share(p, q), "a shallow copy shares ciphertext buffers")
		}
	}
}
