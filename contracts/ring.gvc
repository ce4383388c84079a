// Ring arithmetic of TRLWE/TRGSW.
def neg1(x) = uint32(0xffffffff) - x

// coefficient x of X^k * a  for 0 <= k < 2N
def rotc(a, k, x) = ite(k < N,
   ite(x >= k, a[x-k], neg1(a[x-k+N])),
   ite(x >= k-N, neg1(a[x-(k-N)]), a[x-k+2*N]))
def modk(k) = ite(k % (2*N) < 0, k % (2*N) + 2*N, k % (2*N))

func poly.PolyMulWithXKInPlace(a, k, result)
  apply
  prop C16
  requires len(a) == N
  requires len(result) == N && disjoint(a, result)
  modifies result
  ensures [coefficients] forall(x, N, result[x] == rotc(arr(a), modk(k), x))

func trlwe.SampleExtractIndex(t, k) r
  prop C13
  requires 0 <= k && k < N
  ensures fresh(r) && len(r.P) == N+1
  ensures forall(i, N, r.P[i] == ite(i <= k, t.A[k-i], neg1(t.A[N+k-i])))
  ensures r.P[N] == t.B[k]

func trlwe.SampleExtractIndexAssign(t, k, output)
  prop C13
  requires 0 <= k && k < N
  modifies output
  ensures forall(i, N, output.P[i] == ite(i <= k, t.A[k-i], neg1(t.A[N+k-i])))
  ensures output.P[N] == t.B[k]

// digit j (most significant first) of mask component a
def ksdigit(a, j) = ((a + (uint32(1) << (32 - (1 + basebit*iksT)))) >> (32 - (j+1)*basebit)) & uint32(base-1)
def ksrow(a, i, j) = base*iksT*i + base*j + int(ksdigit(a, j))

func trgsw.IdentityKeySwitching(src, ksk) r
  prop C07
  requires len(ksk) == N*iksT*base
  ensures fresh(r) && len(r.P) == n0+1
  ensures forall(x, n0+1, r.P[x] == ite(x == n0, src.P[N], 0) -
     sum(i, N, sum(j, iksT, ite(ksdigit(src.P[i], j) != 0, ksk[ksrow(src.P[i], i, j)].P[x], 0))))

func trgsw.IdentityKeySwitchingAssign(src, ksk, output)
  prop C07
  requires len(ksk) == N*iksT*base
  modifies output
  ensures forall(x, n0+1, output.P[x] == ite(x == n0, src.P[N], 0) -
     sum(i, N, sum(j, iksT, ite(ksdigit(src.P[i], j) != 0, ksk[ksrow(src.P[i], i, j)].P[x], 0))))

func poly.DecomposePolyAssign(p, bg, level, offset, out)
  prop C15
  requires len(p) == N
  requires len(out) == L
  requires bg == bgbit && level == L
  modifies out
  ensures forall(j, N, forall(i, L, out[i].Coeffs[j] == (((p[j]+offset) >> (32-(i+1)*bgbit)) & uint32((1<<bgbit)-1)) - uint32(1 << (bgbit-1))))

// Digit rounding of key switching: at most half a unit of the last digit.
lemma ksRounding(a uint32)
  prop C07
  let err = usum(j, iksT, ksdigit(a, j) << (32 - (j+1)*basebit)) - a
  ensures [half a unit of the last digit] int(int32(err)) <= (1 << (31 - basebit*iksT)) && int(int32(err)) >= -(1 << (31 - basebit*iksT))

// Gadget digits: balanced range, and recomposition within one unit of the last
// level (the truncated part), for the offset key generation computes.
def gdigit(a, i) = (((a + cloudkey.genDecompositionOffset()) >> (32-(i+1)*bgbit)) & uint32((1<<bgbit)-1)) - uint32(1 << (bgbit-1))
lemma gadgetRecompose(a uint32)
  prop C15
  let err = usum(i, L, gdigit(a, i) * (uint32(1) << (32 - (i+1)*bgbit))) - a
  ensures [balanced] all(i, L, int(int32(gdigit(a, i))) >= -(1 << (bgbit-1)) && int(int32(gdigit(a, i))) < (1 << (bgbit-1)))
  ensures [recompose] int(int32(err)) <= 0 && int(int32(err)) > -(1 << (32 - L*bgbit))

// Extraction to the base level; only defined for samples of the base dimension.
func trlwe.SampleExtractIndex2(t, k) r
  prop C13
  set t.A = tlwe.NewTLWELv0().P[:n0]
  set t.B = tlwe.NewTLWELv0().P[:n0]
  havoc t
  requires 0 <= k && k < n0
  ensures fresh(r) && len(r.P) == n0+1
  ensures forall(i, n0, r.P[i] == ite(i <= k, t.A[k-i], neg1(t.A[n0+k-i])))
  ensures r.P[n0] == t.B[k]
