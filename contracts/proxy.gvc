// Proxy re-encryption.  Every decomposition base 2^b and depth t with b*t <= 31.
def pdig(a, j, b, t) = ((a + (uint32(1) << (32 - (1 + b*t)))) >> (32 - (j+1)*b)) & ((uint32(1) << b) - 1)
def prow(a, i, j, b, t) = (1 << b)*t*i + (1 << b)*j + int(pdig(a, j, b, t))

func proxyreenc.ReencryptTLWELv0(ct, rk) r
  prop C08 C10
  enum b in 1 .. 32
  enum t in 1 .. 31/b + 1
  set rk.Base = 1 << b
  set rk.T = t
  requires len(rk.KeyEncryptions) == (1 << b)*t*n0
  ensures [private] fresh(r) && len(r.P) == n0+1
  ensures [digits] forall(x, n0+1, r.P[x] == ite(x == n0, ct.P[n0], 0) - sum(i, n0, sum(j, t, ite(pdig(ct.P[i], j, b, t) != 0, rk.KeyEncryptions[prow(ct.P[i], i, j, b, t)].P[x], 0))))

// Digit rounding: what the digits of a mask component stand for differs from
// the component by at most half a unit of the last digit.
lemma reencRounding(a uint32)
  prop C08
  enum b in 1 .. 32
  enum t in 1 .. 31/b + 1
  let err = usum(j, t, pdig(a, j, b, t) << (32 - (j+1)*b)) - a
  ensures [half a unit of the last digit] int(int32(err)) <= (1 << (31 - b*t)) && int(int32(err)) >= -(1 << (31 - b*t))

// Re-encryption keys: entry (i, j, k), k >= 1, encrypts k*from_i/2^((j+1)b).
def pplain(from, i, j, k, b) = utils.F64ToTorus(float64(k)*float64(from[i])/float64(uint32(1) << uint32((j+1)*b)))

func proxyreenc.NewProxyReencryptionKeySymmetricWithParams(from, to, alpha, basebit, t) r
  prop C08
  unroll 1
  enum b in 1 .. 25
  enum d in 1 .. 31/b + 1
  set basebit = b
  set t = d
  requires len(from) == n0 && len(to) == n0
  ensures [shape] fresh(r) && r.Base == 1 << b && r.T == d && len(r.KeyEncryptions) == (1 << b)*d*n0
  ensures [entry sizes] forall(i, len(r.KeyEncryptions), len(r.KeyEncryptions[i].P) == n0+1)
  ensures [entries] forall(i, n0, all(j, d, forall(k, (1 << b) - 1, noise(phase0(r.KeyEncryptions[(1 << b)*d*i + (1 << b)*j + k + 1].P, to) - pplain(from, i, j, k+1, b), alpha))))

// Encryption under a public key: a signed 0/1 combination of its entries.
func proxyreenc.(*PublicKeyLv0).EncryptF64(pk, x, alpha) r
  prop C08 C10
  ensures fresh(r) && len(r.P) == n0+1
  ensures [one draw] norms() == 1
  ensures [combination] forall(y, n0+1, combination(r.P[y] - ite(y == n0, utils.F64ToTorus(x), 0), pk.Encryptions, y, alpha))

func proxyreenc.(*PublicKeyLv0).EncryptBool(pk, x, alpha) r
  prop C08 C10
  ensures fresh(r) && len(r.P) == n0+1
  ensures [one draw] norms() == 1
  ensures [combination] forall(y, n0+1, combination(r.P[y] - ite(y == n0, ite(x, uint32(0x20000000), uint32(0xe0000000)), 0), pk.Encryptions, y, alpha))

func proxyreenc.NewPublicKeyLv0WithParams(s, size, alpha) r
  prop C08
  requires len(s) == n0 && size >= 0 && size < 1000000
  ensures fresh(r) && len(r.Encryptions) == size
  ensures [zero encryptions] forall(i, size, len(r.Encryptions[i].P) == n0+1 && noise(phase0(r.Encryptions[i].P, s), alpha))

func proxyreenc.NewPublicKeyLv0(s) r
  prop C08
  requires len(s) == n0
  ensures fresh(r) && len(r.Encryptions) == 2*n0
  ensures [zero encryptions] forall(i, 2*n0, len(r.Encryptions[i].P) == n0+1 && noise(phase0(r.Encryptions[i].P, s), params.GetTLWELv0().ALPHA))

func proxyreenc.NewProxyReencryptionKeySymmetric(from, to) r
  prop C08
  unroll 1
  requires len(from) == n0 && len(to) == n0
  ensures [shape] fresh(r) && r.Base == base && r.T == iksT && len(r.KeyEncryptions) == base*iksT*n0
  ensures [entry sizes] forall(i, len(r.KeyEncryptions), len(r.KeyEncryptions[i].P) == n0+1)
  ensures [entries] forall(i, n0, all(j, iksT, forall(k, base - 1, noise(phase0(r.KeyEncryptions[base*iksT*i + base*j + k + 1].P, to) - pplain(from, i, j, k+1, basebit), params.KSKAlpha()))))

// (every depth at the default level, the largest depth of every base at the others)
func proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(from, pk, alpha, basebit, t) r
  prop C08
  unroll 1
  enum b in 1 .. 25
  enum d in ite(level() == 128, 1, 31/b) .. 31/b + 1
  set basebit = b
  set t = d
  requires len(from) == n0
  ensures [shape] fresh(r) && r.Base == 1 << b && r.T == d && len(r.KeyEncryptions) == (1 << b)*d*n0
  ensures [entry sizes] forall(i, len(r.KeyEncryptions), len(r.KeyEncryptions[i].P) == n0+1)
  ensures [entries] forall(i, n0, all(j, d, forall(k, (1 << b) - 1, forall(y, n0+1, combination(r.KeyEncryptions[(1 << b)*d*i + (1 << b)*j + k + 1].P[y] - ite(y == n0, pplain(from, i, j, k+1, b), 0), pk.Encryptions, y, alpha)))))

func proxyreenc.NewProxyReencryptionKeyAsymmetric(from, pk) r
  prop C08
  unroll 1
  requires len(from) == n0
  ensures [shape] fresh(r) && r.Base == base && r.T == iksT && len(r.KeyEncryptions) == base*iksT*n0
  ensures [entry sizes] forall(i, len(r.KeyEncryptions), len(r.KeyEncryptions[i].P) == n0+1)
  ensures [entries] forall(i, n0, all(j, iksT, forall(k, base - 1, forall(y, n0+1, combination(r.KeyEncryptions[base*iksT*i + base*j + k + 1].P[y] - ite(y == n0, pplain(from, i, j, k+1, basebit), 0), pk.Encryptions, y, params.KSKAlpha())))))
