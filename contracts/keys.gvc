// Keys: the secret key, the evaluation key, and the ring encryptions in it.
func key.NewSecretKey() r
  prop C12
  ensures fresh(r) && len(r.KeyLv0) == n0 && len(r.KeyLv1) == N
  ensures [binary, level 0] forall(i, n0, r.KeyLv0[i] == 0 || r.KeyLv0[i] == 1)
  ensures [binary, level 1] forall(i, N, r.KeyLv1[i] == 0 || r.KeyLv1[i] == 1)

func cloudkey.genDecompositionOffset() r
  prop C12
  aux
  ensures r == sum(i, L, uint32(1 << (bgbit-1)) * uint32(1 << (32 - (i+1)*bgbit)))

func cloudkey.genTestvec() r
  prop C12
  aux
  ensures fresh(r) && len(r.A) == N && len(r.B) == N
  ensures forall(i, N, r.A[i] == 0 && r.B[i] == 0x20000000)

func trlwe.NewTRLWELv1() r
  prop C13
  ensures fresh(r) && len(r.A) == N && len(r.B) == N
  ensures forall(i, N, r.A[i] == 0 && r.B[i] == 0)

func trgsw.NewTRGSWLv1() r
  prop C12
  ensures fresh(r) && len(r.TRLWE) == 2*L
  ensures forall(i, 2*L, len(r.TRLWE[i].A) == N && len(r.TRLWE[i].B) == N)

func cloudkey.genKeySwitchingKey(sk) r
  prop C12
  aux
  requires len(sk.KeyLv0) == n0 && len(sk.KeyLv1) == N
  ensures [size] fresh(r) && len(r) == base*iksT*N
  ensures [entry sizes] forall(i, N, forall(j, iksT, forall(k, base, len(r[base*iksT*i+base*j+k].P) == n0+1)))
  ensures [entries] forall(i, N, all(j, iksT, all(k, base-1, noise(phase0(r[base*iksT*i+base*j+k+1].P, sk.KeyLv0) - utils.F64ToTorus(float64(k+1)*float64(sk.KeyLv1[i])/float64(1 << ((j+1)*basebit))), params.KSKAlpha()))))

// A ring encryption: B is plaintext plus one draw per coefficient plus A*key.
func trlwe.(*TRLWELv1).EncryptF64(t, p, alpha, key, ev) r
  prop C12 C13
  with ev = poly.NewEvaluator(N)
  havoc ev
  requires len(p) == N && len(key) == N
  modifies t, ev
  except tables(ev)
  ensures r == t && len(t.A) == N && len(t.B) == N
  ensures [phase] forall(x, N, noise(t.B[x] - sel(tor(lift(arr(t.A)) * lift(arr(key))), x) - utils.F64ToTorus(p[x]), alpha))

func trlwe.(*TRLWELv1).EncryptBool(t, p, alpha, key, ev) r
  prop C13
  with ev = poly.NewEvaluator(N)
  havoc ev
  requires len(p) == N && len(key) == N
  modifies t, ev
  except tables(ev)
  ensures r == t && len(t.A) == N && len(t.B) == N
  ensures [phase] forall(x, N, noise(t.B[x] - sel(tor(lift(arr(t.A)) * lift(arr(key))), x) - ite(p[x], uint32(0x20000000), uint32(0xe0000000)), alpha))

func trlwe.(*TRLWELv1).DecryptBool(t, key, ev) r
  prop C13 C10
  with ev = poly.NewEvaluator(N)
  havoc ev
  requires len(key) == N
  modifies ev
  except tables(ev)
  ensures fresh(r) && len(r) == N
  ensures [sign] forall(x, N, iff(r[x], int32(t.B[x] - sel(tor(lift(arr(t.A)) * lift(arr(key))), x)) >= 0))

// Gadget encryption of p: row i < L carries p/Bg^(i+1) on the mask, row L+i on
// the body; without it every row is a ring encryption of zero.
def gad(i) = uint32(1) << (32 - (i+1)*bgbit)
def rowA(a, i, p) = lam(x, N, ite(x == 0 && i < L, sel(a, 0) - p * gad(i), sel(a, x)))
def rowok(a, b, i, p, key, alpha) = forall(x, N, noise(b[x] - ite(x == 0 && i >= L, p * gad(i-L), 0) - sel(tor(lift(rowA(arr(a), i, p)) * lift(arr(key))), x), alpha))

func trgsw.(*TRGSWLv1).EncryptTorus(t, p, alpha, key, ev) r
  prop C12
  with ev = poly.NewEvaluator(N)
  havoc ev
  requires len(key) == N
  modifies t, ev
  except tables(ev)
  ensures r == t && len(t.TRLWE) == 2*L
  ensures all(i, 2*L, len(t.TRLWE[i].A) == N && len(t.TRLWE[i].B) == N)
  ensures [rows] all(i, 2*L, rowok(t.TRLWE[i].A, t.TRLWE[i].B, i, p, key, alpha))

func trgsw.NewTRGSWLv1FFT(t, ev) r
  prop C12
  with ev = poly.NewEvaluator(N)
  havoc ev
  ensures fresh(r) && len(r.TRLWEFFT) == 2*L
  ensures all(i, 2*L, arr(r.TRLWEFFT[i].A.Coeffs) == lift(arr(t.TRLWE[i].A)) && arr(r.TRLWEFFT[i].B.Coeffs) == lift(arr(t.TRLWE[i].B)))

func trgsw.NewTRGSWLv1FFTDummy(ev) r
  prop C12
  with ev = poly.NewEvaluator(N)
  havoc ev
  ensures fresh(r) && len(r.TRLWEFFT) == 2*L
  ensures all(i, 2*L, len(r.TRLWEFFT[i].A.Coeffs) == N && len(r.TRLWEFFT[i].B.Coeffs) == N)

// Bootstrapping key: entry i is the gadget encryption of key bit i, lifted.  The
// rows that were lifted are named by argof.
func cloudkey.genBootstrappingKey(sk) r
  prop C12
  aux
  requires len(sk.KeyLv0) == n0 && len(sk.KeyLv1) == N
  ensures [size] fresh(r) && len(r) == n0
  ensures [rows] forall(i, n0, len(r[i].TRLWEFFT) == 2*L)
  ensures [row sizes] forall(i, n0, all(j, 2*L, len(r[i].TRLWEFFT[j].A.Coeffs) == N && len(r[i].TRLWEFFT[j].B.Coeffs) == N))
  ensures [entries] forall(i, n0, all(j, 2*L, rowok(argof(arr(r[i].TRLWEFFT[j].A.Coeffs), lift, 0), argof(arr(r[i].TRLWEFFT[j].B.Coeffs), lift, 0), j, sk.KeyLv0[i], sk.KeyLv1, params.BSKAlpha())))

def kskok(ksk, sk) = forall(i, N, all(j, iksT, all(k, base-1, len(ksk[base*iksT*i+base*j+k+1].P) == n0+1 && noise(phase0(ksk[base*iksT*i+base*j+k+1].P, sk.KeyLv0) - utils.F64ToTorus(float64(k+1)*float64(sk.KeyLv1[i])/float64(1 << ((j+1)*basebit))), params.KSKAlpha()))))
def bskok(bk, sk) = forall(i, n0, all(j, 2*L, rowok(argof(arr(bk[i].TRLWEFFT[j].A.Coeffs), lift, 0), argof(arr(bk[i].TRLWEFFT[j].B.Coeffs), lift, 0), j, sk.KeyLv0[i], sk.KeyLv1, params.BSKAlpha())))

func cloudkey.NewCloudKey(sk) r
  prop C12
  requires len(sk.KeyLv0) == n0 && len(sk.KeyLv1) == N
  ensures [offset] r.DecompositionOffset == sum(i, L, uint32(1 << (bgbit-1)) * uint32(1 << (32 - (i+1)*bgbit)))
  ensures [test vector] len(r.BlindRotateTestvec.A) == N && len(r.BlindRotateTestvec.B) == N && forall(i, N, r.BlindRotateTestvec.A[i] == 0 && r.BlindRotateTestvec.B[i] == 0x20000000)
  ensures [private] fresh(r)
  ensures [key-switching key size] len(r.KeySwitchingKey) == base*iksT*N
  ensures [key-switching key] kskok(r.KeySwitchingKey, sk)
  ensures [bootstrapping key size] len(r.BootstrappingKey) == n0 && forall(i, n0, len(r.BootstrappingKey[i].TRLWEFFT) == 2*L)
  ensures [bootstrapping key] bskok(r.BootstrappingKey, sk)

func cloudkey.NewCloudKeyNoKSK() r
  prop C12
  ensures [offset] r.DecompositionOffset == sum(i, L, uint32(1 << (bgbit-1)) * uint32(1 << (32 - (i+1)*bgbit)))
  ensures [test vector] len(r.BlindRotateTestvec.A) == N && len(r.BlindRotateTestvec.B) == N && forall(i, N, r.BlindRotateTestvec.A[i] == 0 && r.BlindRotateTestvec.B[i] == 0x20000000)
  ensures [private] fresh(r)
  ensures [sizes] len(r.KeySwitchingKey) == base*iksT*N && len(r.BootstrappingKey) == n0 && forall(i, n0, len(r.BootstrappingKey[i].TRLWEFFT) == 2*L)

// Ring ciphertext in the Fourier domain.
func trlwe.NewTRLWELv1FFT(t, ev) r
  prop C13
  with ev = poly.NewEvaluator(N)
  havoc ev
  modifies ev
  except tables(ev)
  ensures fresh(r) && arr(r.A) == lift(arr(t.A)) && arr(r.B) == lift(arr(t.B))
