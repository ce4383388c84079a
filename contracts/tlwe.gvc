// Level-0 and level-1 LWE ciphertexts.
def phase0(p, s) = p[n0] - sum(i, n0, p[i]*s[i])
def phase1(p, s) = p[N] - sum(i, N, p[i]*s[i])

func tlwe.(*TLWELv0).Add(t, other) r
  prop C06 C10
  ensures fresh(r) && len(r.P) == n0+1
  ensures [components] forall(i, n0+1, r.P[i] == t.P[i] + other.P[i])
  ensures [phase] forall(k, 1, phase0(r.P, ghost("s")) == phase0(t.P, ghost("s")) + phase0(other.P, ghost("s")))

func tlwe.(*TLWELv0).Sub(t, other) r
  prop C06 C10
  ensures fresh(r) && len(r.P) == n0+1
  ensures [components] forall(i, n0+1, r.P[i] == t.P[i] - other.P[i])
  ensures [phase] phase0(r.P, ghost("s")) == phase0(t.P, ghost("s")) - phase0(other.P, ghost("s"))

func tlwe.(*TLWELv0).Neg(t) r
  prop C06 C10
  ensures fresh(r) && len(r.P) == n0+1
  ensures [components] forall(i, n0+1, r.P[i] == -t.P[i])
  ensures [phase] phase0(r.P, ghost("s")) == -phase0(t.P, ghost("s"))

func tlwe.(*TLWELv0).Mul(t, other) r
  prop C06 C10
  ensures fresh(r) && len(r.P) == n0+1
  ensures [components] forall(i, n0+1, r.P[i] == t.P[i] * other.P[i])

func tlwe.(*TLWELv0).AddMul(t, other, c) r
  prop C06 C10
  ensures fresh(r) && len(r.P) == n0+1
  ensures [components] forall(i, n0+1, r.P[i] == t.P[i] + c*other.P[i])
  ensures [phase] phase0(r.P, ghost("s")) == phase0(t.P, ghost("s")) + c*phase0(other.P, ghost("s"))

func tlwe.(*TLWELv0).SubMul(t, other, c) r
  prop C06 C10
  ensures fresh(r) && len(r.P) == n0+1
  ensures [components] forall(i, n0+1, r.P[i] == t.P[i] - c*other.P[i])
  ensures [phase] phase0(r.P, ghost("s")) == phase0(t.P, ghost("s")) - c*phase0(other.P, ghost("s"))

func tlwe.(*TLWELv0).AddAssign(t, other, output)
  prop C06 C10
  modifies output
  alias output=t
  alias output=other
  alias output=t other=t
  ensures [components] forall(i, n0+1, output.P[i] == old(t.P[i]) + old(other.P[i]))
  ensures [phase] phase0(output.P, ghost("s")) == old(phase0(t.P, ghost("s"))) + old(phase0(other.P, ghost("s")))

func tlwe.NewTLWELv0() r
  prop C06 C17
  ensures fresh(r) && len(r.P) == n0+1
  ensures forall(i, n0+1, r.P[i] == 0)

func tlwe.NewTLWELv1() r
  prop C13 C17
  ensures fresh(r) && len(r.P) == N+1
  ensures forall(i, N+1, r.P[i] == 0)

func tlwe.(*TLWELv0).B(t) r
  prop C06 C10
  ensures r == t.P[n0]

func tlwe.(*TLWELv0).SetB(t, val)
  prop C06 C10
  modifies t
  ensures forall(i, n0, t.P[i] == old(t.P[i])) && t.P[n0] == val

func tlwe.(*TLWELv1).SetB(t, val)
  prop C13 C10
  modifies t
  ensures forall(i, N, t.P[i] == old(t.P[i])) && t.P[N] == val

func tlwe.(*TLWELv0).EncryptF64(t, p, alpha, key) r
  prop C05 C10
  requires len(key) == n0
  modifies t
  ensures r == t && len(t.P) == n0+1
  ensures [one draw] norms() == 1
  ensures [phase] phase0(t.P, key) == utils.F64ToTorus(p) + utils.F64ToTorus(norm(0)*alpha)

func tlwe.(*TLWELv1).EncryptF64(t, p, alpha, key) r
  prop C05 C10
  requires len(key) == N
  modifies t
  ensures r == t && len(t.P) == N+1
  ensures [one draw] norms() == 1
  ensures [phase] phase1(t.P, key) == utils.F64ToTorus(p) + utils.F64ToTorus(norm(0)*alpha)

func tlwe.(*TLWELv0).EncryptBool(t, b, alpha, key) r
  prop C05 C10
  requires len(key) == n0
  modifies t
  ensures r == t && len(t.P) == n0+1
  ensures [one draw] norms() == 1
  ensures [phase] phase0(t.P, key) == ite(b, uint32(0x20000000), uint32(0xe0000000)) + utils.F64ToTorus(norm(0)*alpha)

func tlwe.(*TLWELv1).EncryptBool(t, b, alpha, key) r
  prop C05 C10
  requires len(key) == N
  modifies t
  ensures r == t && len(t.P) == N+1
  ensures [one draw] norms() == 1
  ensures [phase] phase1(t.P, key) == ite(b, uint32(0x20000000), uint32(0xe0000000)) + utils.F64ToTorus(norm(0)*alpha)

func tlwe.(*TLWELv0).DecryptBool(t, key) r
  prop C05 C10
  requires len(key) == n0
  ensures [sign] iff(r, int32(phase0(t.P, key)) >= 0)
  ensures [true decodes] imp(int32(phase0(t.P, key) - 0x20000000) > -0x20000000 && int32(phase0(t.P, key) - 0x20000000) < 0x20000000, r)
  ensures [false decodes] imp(int32(phase0(t.P, key) + 0x20000000) > -0x20000000 && int32(phase0(t.P, key) + 0x20000000) < 0x20000000, !r)

func tlwe.(*TLWELv1).DecryptBool(t, key) r
  prop C05 C10
  requires len(key) == N
  ensures [sign] iff(r, int32(phase1(t.P, key)) >= 0)
  ensures [true decodes] imp(int32(phase1(t.P, key) - 0x20000000) > -0x20000000 && int32(phase1(t.P, key) - 0x20000000) < 0x20000000, r)
  ensures [false decodes] imp(int32(phase1(t.P, key) + 0x20000000) > -0x20000000 && int32(phase1(t.P, key) + 0x20000000) < 0x20000000, !r)
