// The replay harness: concrete inputs against the real code, through its
// exported API, compared with independent reference oracles.  It is run only
// when a proof obligation fails or is out of the verifier's reach, to find a
// failing input; it decides nothing on the unchanged tree.
package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"time"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
)

type T = params.Torus

var (
	rng      *rand.Rand
	deadline time.Time
	cases    int
	prop     string
)

func fail(f string, a ...any) {
	fmt.Printf("FAILING INPUT property=%s level=%d: %s\n", prop, params.CurrentSecurityLevel, fmt.Sprintf(f, a...))
	os.Exit(3)
}

func check(ok bool, f string, a ...any) {
	cases++
	if !ok {
		fail(f, a...)
	}
}

func late() bool { return time.Now().After(deadline) }

var allLevels = []params.SecurityLevel{params.Security128Bit, params.Security80Bit, params.Security110Bit,
	params.SecurityUint1, params.SecurityUint2, params.SecurityUint3, params.SecurityUint4, params.SecurityUint5,
	params.SecurityUint6, params.SecurityUint7, params.SecurityUint8}

// levels whose key material is small enough to generate here
var keyLevels = []params.SecurityLevel{params.Security80Bit, params.SecurityUint2, params.SecurityUint1, params.Security128Bit,
	params.SecurityUint3, params.Security110Bit}

func setLevel(l params.SecurityLevel) { params.CurrentSecurityLevel = l }

func n0() int { return params.GetTLWELv0().N }
func nn() int { return params.GetTRGSWLv1().N }

func rt() T { return T(rng.Uint32()) }

// edge-biased torus element
func et() T {
	switch rng.Intn(8) {
	case 0:
		return 0
	case 1:
		return ^T(0)
	case 2:
		return 1 << uint(rng.Intn(32))
	case 3:
		return (1 << uint(rng.Intn(32))) - 1
	case 4:
		return -(T(1) << uint(rng.Intn(32)))
	}
	return rt()
}

func vec(n int) []T {
	v := make([]T, n)
	for i := range v {
		v[i] = et()
	}
	return v
}

func bits(n int) []T {
	v := make([]T, n)
	for i := range v {
		v[i] = T(rng.Intn(2))
	}
	return v
}

func cp(v []T) []T { return append([]T(nil), v...) }

func eq(a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func dot(a, s []T, n int) T {
	var d T
	for i := 0; i < n; i++ {
		d += a[i] * s[i]
	}
	return d
}

func phase(p, s []T) T { n := len(p) - 1; return p[n] - dot(p, s, n) }

func ct0() *tlwe.TLWELv0 { return &tlwe.TLWELv0{P: vec(n0() + 1)} }
func ct1() *tlwe.TLWELv1 { return &tlwe.TLWELv1{P: vec(nn() + 1)} }
func ring() *trlwe.TRLWELv1 {
	return &trlwe.TRLWELv1{A: vec(nn()), B: vec(nn())}
}

// a ciphertext of the given phase
func enc0(ph T, s []T) *tlwe.TLWELv0 {
	c := &tlwe.TLWELv0{P: make([]T, n0()+1)}
	for i := 0; i < n0(); i++ {
		c.P[i] = rt()
	}
	c.P[n0()] = ph + dot(c.P, s, n0())
	return c
}

func dist(a, b T) T {
	d := a - b
	if int32(d) < 0 {
		d = -d
	}
	return d
}

func share(a, b []T) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	for i := range a[:1] {
		for j := range b {
			if &a[i] == &b[j] {
				return true
			}
		}
	}
	for j := range a {
		if &a[j] == &b[0] {
			return true
		}
	}
	return false
}

type keys struct {
	sk *key.SecretKey
	ck *cloudkey.CloudKey
}

// noise-free evaluation keys built entry by entry from the definition
func cleanKeys() keys {
	n, m := n0(), nn()
	g := params.GetTRGSWLv1()
	sk := &key.SecretKey{KeyLv0: bits(n), KeyLv1: bits(m)}
	base := 1 << g.BASEBIT
	ksk := make([]*tlwe.TLWELv0, base*g.IKS_T*m)
	for i := 0; i < m; i++ {
		for j := 0; j < g.IKS_T; j++ {
			for k := 0; k < base; k++ {
				c := &tlwe.TLWELv0{P: make([]T, n+1)}
				var d T
				for x := 0; x < n; x++ {
					c.P[x] = rt()
					d += c.P[x] * sk.KeyLv0[x]
				}
				c.P[n] = d + T(k)*sk.KeyLv1[i]<<(32-(j+1)*g.BASEBIT)
				if k == 0 {
					for x := range c.P {
						c.P[x] = 0
					}
				}
				ksk[base*g.IKS_T*i+base*j+k] = c
			}
		}
	}
	bsk := make([]*trgsw.TRGSWLv1FFT, n)
	ev := poly.NewEvaluator(m)
	for i := range bsk {
		bsk[i] = gsw(sk.KeyLv0[i], sk.KeyLv1, ev)
	}
	tv := &trlwe.TRLWELv1{A: make([]T, m), B: make([]T, m)}
	for i := range tv.B {
		tv.B[i] = 1 << 29
	}
	var off T
	for i := 0; i < g.L; i++ {
		off += T(1) << (g.BGBIT - 1) << (32 - (uint32(i)+1)*g.BGBIT)
	}
	return keys{sk, &cloudkey.CloudKey{DecompositionOffset: off, BlindRotateTestvec: tv, KeySwitchingKey: ksk, BootstrappingKey: bsk}}
}

// schoolbook negacyclic product of a with a 0/1 polynomial
func mulBits(a, s []T) []T {
	n := len(a)
	r := make([]T, n)
	for j := 0; j < n; j++ {
		if s[j] == 0 {
			continue
		}
		for i := 0; i < n-j; i++ {
			r[i+j] += s[j] * a[i]
		}
		for i := n - j; i < n; i++ {
			r[i+j-n] -= s[j] * a[i]
		}
	}
	return r
}

func ringPhase(c *trlwe.TRLWELv1, s []T) []T {
	r := mulBits(c.A, s)
	for i := range r {
		r[i] = c.B[i] - r[i]
	}
	return r
}

func gsw(bit T, s []T, ev *poly.Evaluator) *trgsw.TRGSWLv1FFT {
	g := params.GetTRGSWLv1()
	m := nn()
	out := &trgsw.TRGSWLv1FFT{TRLWEFFT: make([]trgsw.TRLWELv1FFT, 2*g.L)}
	for r := 0; r < 2*g.L; r++ {
		a := make([]T, m)
		for i := range a {
			a[i] = rt()
		}
		b := mulBits(a, s)
		if r < g.L {
			a[0] += bit << (32 - uint32(r+1)*g.BGBIT)
		} else {
			b[0] += bit << (32 - uint32(r-g.L+1)*g.BGBIT)
		}
		out.TRLWEFFT[r].A = ev.ToFourierPoly(poly.Poly{Coeffs: a})
		out.TRLWEFFT[r].B = ev.ToFourierPoly(poly.Poly{Coeffs: b})
	}
	return out
}

func main() {
	var seed int64
	var secs float64
	flag.StringVar(&prop, "prop", "", "property")
	flag.Int64Var(&seed, "seed", 1, "seed")
	flag.Float64Var(&secs, "secs", 60, "time")
	few := flag.Bool("few", false, "two small levels only (for the race detector)")
	flag.Parse()
	if *few {
		keyLevels = []params.SecurityLevel{params.SecurityUint2, params.Security80Bit}
		if prop == "C02" {
			keyLevels = keyLevels[:1]
		}
		allLevels = keyLevels
	}
	rng = rand.New(rand.NewSource(seed))
	deadline = time.Now().Add(time.Duration(secs * float64(time.Second)))
	f, ok := table[prop]
	if !ok {
		fmt.Println("no replay cases for", prop)
		return
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Printf("FAILING INPUT property=%s level=%d: panic: %v\n", prop, params.CurrentSecurityLevel, r)
			panic(r)
		}
	}()
	f()
	fmt.Printf("replay %s: %d concrete checks passed, seed %d\n", prop, cases, seed)
}
