// Blind rotation and bootstrapping.
let nbit = params.GetTRGSWLv1().NBIT
def btil(b) = 2*N - ((int(b) + (1 << (31 - nbit - 1))) >> (32 - nbit - 1))
def atil(a) = int((a + uint32(1 << (31 - nbit - 1))) >> (32 - nbit - 1))
def rot(p, k) = lam(x, N, rotc(p, modk(k), x))
opaque brA(p, tv, bk, off) arr32 = fold(i, n0, 0, a, b,
    rot(arr(tv.A), btil(p[n0])), rot(arr(tv.B), btil(p[n0])),
    cmuxA(bk[i], a, b, rot(a, atil(p[i])), rot(b, atil(p[i])), off),
    cmuxB(bk[i], a, b, rot(a, atil(p[i])), rot(b, atil(p[i])), off))
opaque brB(p, tv, bk, off) arr32 = fold(i, n0, 1, a, b,
    rot(arr(tv.A), btil(p[n0])), rot(arr(tv.B), btil(p[n0])),
    cmuxA(bk[i], a, b, rot(a, atil(p[i])), rot(b, atil(p[i])), off),
    cmuxB(bk[i], a, b, rot(a, atil(p[i])), rot(b, atil(p[i])), off))

// Sample extraction at position 0 and key switching of the rotated ciphertext.
def ext0(a) = lam(x, N, ite(x == 0, sel(a, 0), neg1(sel(a, N-x))))
def ksw(x, a, b, ksk) = (ite(x == n0, b, 0) - sum(i, N, sum(j, iksT, ite(ksdigit(sel(a, i), j) != 0, ksk[ksrow(sel(a, i), i, j)].P[x], 0))))
def boot(x, p, tv, bk, ksk, off) = ksw(x, ext0(brA(p, tv, bk, off)), sel(brB(p, tv, bk, off), 0), ksk)

func evaluator.(*Evaluator).BlindRotateAssign(e, ct, tv, bk, off, out)
  prop C03
  apply
  reveal brA brB
  with e = evaluator.NewEvaluator(N)
  havoc e
  alias out=e.Buffers.BlindRotation.Rotated
  requires len(bk) == n0
  modifies e
  except tables(e)
  except e.Buffers.ResultPool.Buffers[0], e.Buffers.ResultPool.Buffers[1], e.Buffers.ResultPool.Buffers[2], e.Buffers.ResultPool.Buffers[3]
  modifies out
  ensures arr(out.A) == brA(arr(ct.P), tv, bk, off)
  ensures arr(out.B) == brB(arr(ct.P), tv, bk, off)

func trgsw.BlindRotate(ct, tv, bk, off, ev) r
  prop C03
  apply
  reveal brA brB
  enum k in 0 .. 4
  with ev = poly.NewEvaluator(N)
  havoc ev
  do repeat(k, ev.GetTRLWEBuffer())
  owned r by ev
  requires len(bk) == n0
  modifies ev
  except tables(ev)
  ensures len(r.A) == N && len(r.B) == N
  ensures arr(r.A) == brA(arr(ct.P), tv, bk, off)
  ensures arr(r.B) == brB(arr(ct.P), tv, bk, off)

func evaluator.(*Evaluator).BootstrapAssign(e, ct, tv, bk, ksk, off, out)
  prop C03
  with e = evaluator.NewEvaluator(N)
  havoc e
  alias out=ct
  requires len(bk) == n0 && len(ksk) == N*iksT*base
  modifies e
  except tables(e)
  except e.Buffers.ResultPool.Buffers[0], e.Buffers.ResultPool.Buffers[1], e.Buffers.ResultPool.Buffers[2], e.Buffers.ResultPool.Buffers[3]
  modifies out
  ensures forall(x, n0+1, out.P[x] == old(boot(x, arr(ct.P), tv, bk, ksk, off)))

// The pooled result: the three results handed out before stay untouched.
func evaluator.(*Evaluator).Bootstrap(e, ct, tv, bk, ksk, off) r
  prop C03 C10
  enum k in 0 .. 4
  with e = evaluator.NewEvaluator(N)
  havoc e
  requires len(bk) == n0 && len(ksk) == N*iksT*base
  do repeat(k, e.Bootstrap(ct, tv, bk, ksk, off))
  do r1 = e.Bootstrap(ct, tv, bk, ksk, off)
  do r2 = e.Bootstrap(ct, tv, bk, ksk, off)
  do r3 = e.Bootstrap(ct, tv, bk, ksk, off)
  do havoc(r1)
  do havoc(r2)
  do havoc(r3)
  modifies e
  except tables(e)
  except r1, r2, r3
  ensures len(r.P) == n0+1
  ensures forall(x, n0+1, r.P[x] == boot(x, arr(ct.P), tv, bk, ksk, off))

func evaluator.(*Evaluator).BootstrapLUTAssign(e, ct, lut, bk, ksk, off, out)
  prop C03 C04
  with e = evaluator.NewEvaluator(N)
  havoc e
  alias out=ct
  requires len(bk) == n0 && len(ksk) == N*iksT*base
  modifies e
  except tables(e)
  except e.Buffers.ResultPool.Buffers[0], e.Buffers.ResultPool.Buffers[1], e.Buffers.ResultPool.Buffers[2], e.Buffers.ResultPool.Buffers[3]
  modifies out
  ensures forall(x, n0+1, out.P[x] == old(boot(x, arr(ct.P), lut.Poly, bk, ksk, off)))

// A copy is handed out; the pooled results handed out before stay untouched.
func evaluator.(*Evaluator).BootstrapLUT(e, ct, lut, bk, ksk, off) r
  prop C03 C04 C10
  enum k in 0 .. 4
  with e = evaluator.NewEvaluator(N)
  havoc e
  requires len(bk) == n0 && len(ksk) == N*iksT*base
  do repeat(k, e.BootstrapLUTTemp(ct, lut, bk, ksk, off))
  do r1 = e.BootstrapLUTTemp(ct, lut, bk, ksk, off)
  do r2 = e.Bootstrap(ct, lut.Poly, bk, ksk, off)
  do r3 = e.BootstrapLUTTemp(ct, lut, bk, ksk, off)
  do havoc(r1)
  do havoc(r2)
  do havoc(r3)
  modifies e
  except tables(e)
  except r1, r2, r3
  ensures [private] fresh(r) && len(r.P) == n0+1
  ensures forall(x, n0+1, r.P[x] == boot(x, arr(ct.P), lut.Poly, bk, ksk, off))

func evaluator.(*Evaluator).BootstrapLUTTemp(e, ct, lut, bk, ksk, off) r
  prop C03 C04 C10
  enum k in 0 .. 4
  with e = evaluator.NewEvaluator(N)
  havoc e
  requires len(bk) == n0 && len(ksk) == N*iksT*base
  do repeat(k, e.BootstrapLUTTemp(ct, lut, bk, ksk, off))
  do r1 = e.BootstrapLUTTemp(ct, lut, bk, ksk, off)
  do r2 = e.Bootstrap(ct, lut.Poly, bk, ksk, off)
  do r3 = e.BootstrapLUTTemp(ct, lut, bk, ksk, off)
  do havoc(r1)
  do havoc(r2)
  do havoc(r3)
  modifies e
  except tables(e)
  except r1, r2, r3
  ensures len(r.P) == n0+1
  ensures forall(x, n0+1, r.P[x] == boot(x, arr(ct.P), lut.Poly, bk, ksk, off))

// Parallel blind rotation.  A pooled evaluator (d > 0) was put there by an
// earlier batch at a level of any degree, in any state of its buffers.
func trgsw.BatchBlindRotate(srcs, tv, bk, off) r
  prop C02 C17
  apply
  enum d in 0 .. 4
  enum j in 0 .. 4
  pooled it = poly.NewEvaluator(256 << d)
  pooldo repeat(j, it.GetTRLWEBuffer())
  putlike poly.NewEvaluator(it.Degree())
  requires len(bk) == n0
  ensures [one result each] len(r) == len(srcs)
  ensures forall(i, len(srcs), len(r[i].A) == N && len(r[i].B) == N)
  ensures forall(i, len(srcs), arr(r[i].A) == brA(arr(srcs[i].P), tv, bk, off))
  ensures forall(i, len(srcs), arr(r[i].B) == brB(arr(srcs[i].P), tv, bk, off))
  ensures [private results] fresh(r) && distinct(r)
