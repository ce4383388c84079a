package main

import (
	"math"
	"runtime"
	"sync"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
)

var table = map[string]func(){
	"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09,
	"C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17,
}

type gate2 struct {
	name string
	f    func(a, b *gates.Ciphertext, ck *cloudkey.CloudKey) *gates.Ciphertext
	t    func(a, b bool) bool
}

var gates2 = []gate2{
	{"AND", gates.AND, func(a, b bool) bool { return a && b }},
	{"OR", gates.OR, func(a, b bool) bool { return a || b }},
	{"NAND", gates.NAND, func(a, b bool) bool { return !(a && b) }},
	{"NOR", gates.NOR, func(a, b bool) bool { return !(a || b) }},
	{"XOR", gates.XOR, func(a, b bool) bool { return a != b }},
	{"XNOR", gates.XNOR, func(a, b bool) bool { return a == b }},
	{"ANDNY", gates.ANDNY, func(a, b bool) bool { return !a && b }},
	{"ANDYN", gates.ANDYN, func(a, b bool) bool { return a && !b }},
	{"ORNY", gates.ORNY, func(a, b bool) bool { return !a || b }},
	{"ORYN", gates.ORYN, func(a, b bool) bool { return a || !b }},
}

// phase of a boolean with an error up to 1/32 of the torus
func noisy(b bool) T {
	var e T
	switch rng.Intn(4) {
	case 0:
		e = (1 << 27) - 1
	case 1:
		e = ^T((1<<27)-1) + 1
	case 2:
		e = 0
	default:
		e = T(rng.Intn(1<<28)) - (1 << 27) + 1
	}
	if b {
		return 1<<29 + e
	}
	return 7<<29 + e
}

func dec(c *tlwe.TLWELv0, s []T) bool { return int32(phase(c.P, s)) >= 0 }

func c01() {
	for round := 0; round == 0 || (!late() && round < 2); round++ {
		for _, l := range keyLevels {
			if late() {
				return
			}
			setLevel(l)
			for _, v := range []bool{true, false} {
				c := gates.Constant(v)
				s := bits(n0())
				check(len(c.P) == n0()+1 && dec(c, s) == v && dist(phase(c.P, s), noisyless(v)) <= 1, "Constant(%v) has phase %#x", v, phase(c.P, s))
			}
			ks := []keys{cleanKeys(), cleanKeys()}
			for _, g := range gates2 {
				for x := 0; x < 4; x++ {
					a, b := x&1 == 1, x&2 == 2
					k := ks[rng.Intn(2)]
					ca, cb := enc0(noisy(a), k.sk.KeyLv0), enc0(noisy(b), k.sk.KeyLv0)
					if a == b && rng.Intn(3) == 0 {
						cb = ca
					}
					pa, pb := cp(ca.P), cp(cb.P)
					r := g.f(ca, cb, k.ck)
					check(dec(r, k.sk.KeyLv0) == g.t(a, b), "%s(%v,%v) decrypts to %v (operand phases %#x %#x, result phase %#x)", g.name, a, b, !g.t(a, b), phase(pa, k.sk.KeyLv0), phase(pb, k.sk.KeyLv0), phase(r.P, k.sk.KeyLv0))
					check(eq(pa, ca.P) && eq(pb, cb.P), "%s modified an operand", g.name)
				}
			}
			for x := 0; x < 8; x++ {
				a, b, c := x&1 == 1, x&2 == 2, x&4 == 4
				k := ks[rng.Intn(2)]
				ca, cb, cc := enc0(noisy(a), k.sk.KeyLv0), enc0(noisy(b), k.sk.KeyLv0), enc0(noisy(c), k.sk.KeyLv0)
				if a == b && rng.Intn(3) == 0 {
					cb = ca
				}
				if a == c && rng.Intn(3) == 0 {
					cc = ca
				}
				w := c
				if a {
					w = b
				}
				check(dec(gates.MUX(ca, cb, cc, k.ck), k.sk.KeyLv0) == w, "MUX(%v,%v,%v) decrypts to %v", a, b, c, !w)
				n := gates.NOT(ca)
				check(phase(n.P, k.sk.KeyLv0) == -phase(ca.P, k.sk.KeyLv0), "NOT of phase %#x has phase %#x", phase(ca.P, k.sk.KeyLv0), phase(n.P, k.sk.KeyLv0))
				cpy := gates.Copy(ca)
				check(eq(cpy.P, ca.P) && !share(cpy.P, ca.P), "Copy differs from its operand or shares its storage")
			}
		}
	}
}

func noisyless(b bool) T {
	if b {
		return 1 << 29
	}
	return 7 << 29
}

type bgate struct {
	name string
	f    func(in [][2]*gates.Ciphertext, ck *cloudkey.CloudKey) []*gates.Ciphertext
	t    func(a, b bool) bool
}

var batches = []bgate{
	{"BatchAND", gates.BatchAND, gates2[0].t}, {"BatchOR", gates.BatchOR, gates2[1].t}, {"BatchNAND", gates.BatchNAND, gates2[2].t},
	{"BatchNOR", gates.BatchNOR, gates2[3].t}, {"BatchXOR", gates.BatchXOR, gates2[4].t}, {"BatchXNOR", gates.BatchXNOR, gates2[5].t},
}

func c02() {
	for li, l := range keyLevels {
		if late() {
			return
		}
		setLevel(l)
		k := cleanKeys()
		s := k.sk.KeyLv0
		for gi, g := range batches {
			sizes := []int{0, 1, 3, 2 * runtime.NumCPU()}
			if li > 0 || gi > 1 {
				sizes = []int{0, 1, 5}
			}
			if gi == 5 && li == 0 {
				sizes = append(sizes, 70)
			}
			for _, n := range sizes {
				in := make([][2]*gates.Ciphertext, n)
				var ops []*gates.Ciphertext
				w := make([]bool, n)
				for i := range in {
					a, b := rng.Intn(2) == 1, rng.Intn(2) == 1
					in[i] = [2]*gates.Ciphertext{enc0(noisy(a), s), enc0(noisy(b), s)}
					if a == b && rng.Intn(4) == 0 {
						in[i][1] = in[i][0]
					}
					if i > 0 && rng.Intn(5) == 0 {
						in[i], w[i] = in[i-1], w[i-1]
						a = dec(in[i][0], s)
						b = dec(in[i][1], s)
					}
					w[i] = g.t(a, b)
					ops = append(ops, in[i][0], in[i][1])
				}
				snap := make([][]T, len(ops))
				for i := range ops {
					snap[i] = cp(ops[i].P)
				}
				r := g.f(in, k.ck)
				check(len(r) == n, "%s of %d pairs returned %d results", g.name, n, len(r))
				rs := make([][]T, n)
				for i := range r {
					check(dec(r[i], s) == w[i], "%s position %d of %d decrypts to %v", g.name, i, n, !w[i])
					rs[i] = cp(r[i].P)
					for j := 0; j < i; j++ {
						check(!share(r[i].P, r[j].P), "%s results %d and %d share storage", g.name, i, j)
					}
				}
				for i := range ops {
					check(eq(snap[i], ops[i].P), "%s modified an operand", g.name)
				}
				if n == 5 || n == 3 {
					other := batches[rng.Intn(len(batches))]
					other.f(in, k.ck)
					gates.AND(in[0][0], in[0][1], k.ck)
					for i := range r {
						check(eq(rs[i], r[i].P), "result %d of %s changed during a later %s", i, g.name, other.name)
					}
				}
			}
		}
		// two batches at the same time
		in := make([][2]*gates.Ciphertext, 6)
		w := make([]bool, 6)
		for i := range in {
			a, b := rng.Intn(2) == 1, rng.Intn(2) == 1
			in[i] = [2]*gates.Ciphertext{enc0(noisy(a), s), enc0(noisy(b), s)}
			w[i] = a != b
		}
		var wg sync.WaitGroup
		res := make([][]*gates.Ciphertext, 4)
		for j := range res {
			wg.Add(1)
			go func(j int) { defer wg.Done(); res[j] = gates.BatchXOR(in, k.ck) }(j)
		}
		wg.Wait()
		for j := range res {
			for i := range in {
				check(dec(res[j][i], s) == w[i], "concurrent BatchXOR %d position %d decrypts to %v", j, i, !w[i])
			}
		}
		// raw batch rotation: results independent of pooled evaluators
		srcs := []*tlwe.TLWELv0{enc0(rt(), s), enc0(rt(), s), enc0(rt(), s)}
		a := trgsw.BatchBlindRotate(srcs, k.ck.BlindRotateTestvec, k.ck.BootstrappingKey, k.ck.DecompositionOffset)
		var keep [][]T
		for _, x := range a {
			keep = append(keep, cp(x.A), cp(x.B))
		}
		trgsw.BatchBlindRotate([]*tlwe.TLWELv0{enc0(rt(), s), enc0(rt(), s), enc0(rt(), s), enc0(rt(), s)}, k.ck.BlindRotateTestvec, k.ck.BootstrappingKey, k.ck.DecompositionOffset)
		for i, x := range a {
			check(eq(keep[2*i], x.A) && eq(keep[2*i+1], x.B), "BatchBlindRotate result %d changed during a later batch", i)
			for j := 0; j < i; j++ {
				check(!share(x.A, a[j].A) && !share(x.B, a[j].B), "BatchBlindRotate results share storage")
			}
		}
	}
}

// coefficient selected at position p of 2N, negated in the second half
func selected(tv []T, p int) T {
	n := len(tv)
	p = ((p % (2 * n)) + 2*n) % (2 * n)
	if p < n {
		return tv[p]
	}
	return -tv[p-n]
}

const tol = 1 << 28

func c03() {
	for round := 0; round == 0 || (!late() && round < 3); round++ {
		for _, l := range keyLevels {
			if late() {
				return
			}
			setLevel(l)
			k := cleanKeys()
			s := k.sk.KeyLv0
			n, m := n0(), nn()
			step := uint(32 - params.GetTRGSWLv1().NBIT - 1)
			e := evaluator.NewEvaluator(m)
			pe := poly.NewEvaluator(m)
			for c := 0; c < 12; c++ {
				tv := k.ck.BlindRotateTestvec
				if c%3 != 0 {
					tv = &trlwe.TRLWELv1{A: make([]T, m), B: vec(m)}
					if c%3 == 2 { // a test vector with a mask
						for i := range tv.A {
							tv.A[i] = rt()
						}
					}
				}
				tvp := ringPhase(tv, k.sk.KeyLv1)
				in := &tlwe.TLWELv0{P: make([]T, n+1)}
				slack := 0
				pos := 0
				switch c % 4 {
				case 0, 1: // positions without rounding
					for i := 0; i < n; i++ {
						a := rng.Intn(2 * m)
						in.P[i] = T(a) << step
						if c%4 == 1 && i%7 != 0 {
							in.P[i] = 0
							a = 0
						}
						pos -= a * int(s[i])
					}
					b := rng.Intn(2 * m)
					in.P[n] = T(b) << step
					pos += b
				case 2: // rounding of the constant term only
					in.P[n] = rt()
					if rng.Intn(3) == 0 {
						in.P[n] = ^T(0) - T(rng.Intn(1<<(step-1)))
					}
					pos = int((uint64(in.P[n]) + 1<<(step-1)) >> step)
				default:
					in = enc0(rt(), s)
					ph := phase(in.P, s)
					pos = int((uint64(ph) + 1<<(step-1)) >> step)
					slack = int(8*math.Sqrt(float64(n)/24)) + 2
				}
				run := func(name string, r []T) {
					got := phase(r, s)
					ok := false
					for d := -slack; d <= slack && !ok; d++ {
						ok = dist(got, selected(tvp, pos+d)) < tol
					}
					check(ok, "%s: phase %#x selects position %d, expected test vector entry %#x, result has phase %#x (mask rounding slack %d)", name, phase(in.P, s), pos, selected(tvp, pos), got, slack)
				}
				run("Bootstrap", e.Bootstrap(in, tv, k.ck.BootstrappingKey, k.ck.KeySwitchingKey, k.ck.DecompositionOffset).P)
				out := ct0()
				e.BootstrapAssign(in, tv, k.ck.BootstrappingKey, k.ck.KeySwitchingKey, k.ck.DecompositionOffset, out)
				run("BootstrapAssign", out.P)
				e.BootstrapLUTAssign(in, &lut.LookUpTable{Poly: tv}, k.ck.BootstrappingKey, k.ck.KeySwitchingKey, k.ck.DecompositionOffset, out)
				run("BootstrapLUTAssign", out.P)
				rot := trgsw.BlindRotate(in, tv, k.ck.BootstrappingKey, k.ck.DecompositionOffset, pe)
				run("trgsw.BlindRotate", trgsw.IdentityKeySwitching(trlwe.SampleExtractIndex(rot, 0), k.ck.KeySwitchingKey).P)
				for _, b := range trgsw.BatchBlindRotate([]*tlwe.TLWELv0{in, in}, tv, k.ck.BootstrappingKey, k.ck.DecompositionOffset) {
					run("BatchBlindRotate", trgsw.IdentityKeySwitching(trlwe.SampleExtractIndex(b, 0), k.ck.KeySwitchingKey).P)
				}
				// in place: the output is the input
				c2 := &tlwe.TLWELv0{P: cp(in.P)}
				e.BootstrapAssign(c2, tv, k.ck.BootstrappingKey, k.ck.KeySwitchingKey, k.ck.DecompositionOffset, c2)
				run("BootstrapAssign in place", c2.P)
			}
		}
	}
}

func encode(x, m int) T { // nearest below, exact for powers of two
	x = ((x % m) + m) % m
	return T(uint64(x) << 31 / uint64(m))
}

func c04() {
	type fn struct {
		name string
		f    func(int) int
	}
	for _, l := range allLevels {
		setLevel(l)
		n := nn()
		ms := []int{1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 32, 64, 100, n / 4, n/4 - 1, n / 2, n/2 + 1, n - 1, n}
		for i := 0; i < 10; i++ {
			ms = append(ms, 1+rng.Intn(n))
		}
		for _, m := range ms {
			if m < 1 {
				continue
			}
			mult, add := rng.Intn(m)+1, rng.Intn(4*m)-2*m
			f := func(x int) int { return mult*x + add }
			g := lut.NewGenerator(m)
			tabs := map[string]*lut.LookUpTable{"GenLookUpTable": g.GenLookUpTable(f)}
			as := lut.NewLookUpTable()
			for i := range as.Poly.A {
				as.Poly.A[i], as.Poly.B[i] = rt(), rt()
			}
			g.GenLookUpTableAssign(f, as)
			tabs["GenLookUpTableAssign"] = as
			tabs["GenLookUpTableFull"] = g.GenLookUpTableFull(func(x int) T { return encode(f(x), m) })
			tabs["GenLookUpTableCustom"] = lut.NewGenerator(2).GenLookUpTableCustom(f, m, 1/float64(2*m))
			tabs["NewGeneratorWithScale"] = lut.NewGeneratorWithScale(m, 1/float64(2*m)).GenLookUpTable(f)
			tabs["Copy"] = tabs["GenLookUpTable"].Copy()
			cf := lut.NewLookUpTable()
			cf.CopyFrom(as)
			tabs["CopyFrom"] = cf
			for name, t := range tabs {
				for i := range t.Poly.A {
					check(t.Poly.A[i] == 0, "%s(m=%d): mask coefficient %d is not zero", name, m, i)
				}
				for x := 0; x < m; x++ {
					if m > 300 && x > 20 && x < m-20 && rng.Intn(8) != 0 {
						continue
					}
					// positions within half a message step, minus the slack of two positions
					lo := int(math.Ceil(float64(2*x-1)*float64(n)/float64(2*m))) + 2
					hi := int(math.Floor(float64(2*x+1)*float64(n)/float64(2*m))) - 2
					for p := lo; p <= hi; p++ {
						w := encode(f(x), m)
						got := selected(t.Poly.B, p)
						check(dist(got, w) <= 2, "%s: modulus %d, f(%d)=%d: position %d selects %#x, encoding is %#x", name, m, x, f(x), p, got, w)
					}
				}
			}
			c := tabs["Copy"]
			src := tabs["GenLookUpTable"]
			b := cp(src.Poly.B)
			c.Clear()
			for i := range c.Poly.B {
				check(c.Poly.B[i] == 0 && c.Poly.A[i] == 0, "Clear left coefficient %d", i)
			}
			check(eq(b, src.Poly.B), "clearing a copy changed the original table")
			check(g.Encoder.MessageModulus == m, "generating tables changed the generator's modulus")
			h := lut.NewGenerator(m)
			h.GenLookUpTableCustom(f, 2*m+1, 0.1)
			check(h.Encoder.MessageModulus == m && h.Encoder.Scale == g.Encoder.Scale, "GenLookUpTableCustom changed the generator")
		}
	}
	for _, l := range keyLevels {
		if late() {
			return
		}
		setLevel(l)
		k := cleanKeys()
		s := k.sk.KeyLv0
		e := evaluator.NewEvaluator(nn())
		for _, m := range []int{1, 2, 3, 4} {
			mult, add := rng.Intn(m)+1, rng.Intn(4*m)-2*m
			f := func(x int) int { return mult*x + add }
			t := lut.NewGenerator(m).GenLookUpTable(f)
			for x := 0; x < m; x++ {
				half := int64(1) << 30 / int64(m)
				sl := int64(8*math.Sqrt(float64(n0())/24)+2) << (32 - uint(params.GetTRGSWLv1().NBIT) - 1)
				er := half - sl
				if er < 0 {
					continue
				}
				for _, d := range []int64{0, er, -er, rng.Int63n(2*er+1) - er} {
					in := enc0(encode(x, m)+T(d), s)
					snap := cp(in.P)
					w := ((f(x) % m) + m) % m
					args := func(name string, r *tlwe.TLWELv0) {
						got := r.DecryptLWEMessage(m, s)
						check(got == w && dist(phase(r.P, s), encode(f(x), m)) < tol, "%s: modulus %d, message %d with error %d: f=%d, result %d (phase %#x)", name, m, x, d, w, got, phase(r.P, s))
					}
					b, ks, o := k.ck.BootstrappingKey, k.ck.KeySwitchingKey, k.ck.DecompositionOffset
					args("BootstrapFunc", e.BootstrapFunc(in, f, m, b, ks, o))
					args("BootstrapLUT", e.BootstrapLUT(in, t, b, ks, o))
					args("BootstrapLUTTemp", e.BootstrapLUTTemp(in, t, b, ks, o))
					out := ct0()
					e.BootstrapFuncAssign(in, f, m, b, ks, o, out)
					args("BootstrapFuncAssign", out)
					out = ct0()
					e.BootstrapLUTAssign(in, t, b, ks, o, out)
					args("BootstrapLUTAssign", out)
					check(eq(snap, in.P), "programmable bootstrapping modified its input")
				}
			}
		}
	}
}
