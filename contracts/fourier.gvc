// Fourier domain.  Callers reason in the ring of Fourier polynomials: the
// transforms are the maps lift/tor, the pointwise operations are + - *.
// The bodies are discharged by the linear-domain back end (see fft.go).
opaque lift(p) ring
opaque tor(f) arr32
opaque fscale(c, f) ring

func poly.(*Evaluator).ToFourierPolyAssign(e, p, fpOut)
  prop C11
  apply
  checked fft forward
  requires e.Degree() == N && len(p.Coeffs) == N && len(fpOut.Coeffs) == N
  modifies fpOut.Coeffs
  ensures arr(fpOut.Coeffs) == lift(arr(p.Coeffs))

func poly.(*Evaluator).ToPolyAssignUnsafe(e, fp, pOut)
  prop C11
  apply
  checked fft inverse
  requires e.Degree() == N && len(fp.Coeffs) == N && len(pOut.Coeffs) == N
  modifies fp.Coeffs, pOut.Coeffs
  ensures arr(pOut.Coeffs) == tor(old(arr(fp.Coeffs)))

func poly.(*Evaluator).ToPolyAddAssignUnsafe(e, fp, pOut)
  prop C11
  apply
  checked fft inverse+
  requires e.Degree() == N && len(fp.Coeffs) == N && len(pOut.Coeffs) == N
  modifies fp.Coeffs, pOut.Coeffs
  ensures forall(x, N, pOut.Coeffs[x] == old(pOut.Coeffs[x]) + sel(tor(old(arr(fp.Coeffs))), x))

func poly.(*Evaluator).ToPolySubAssignUnsafe(e, fp, pOut)
  prop C11
  apply
  checked fft inverse-
  requires e.Degree() == N && len(fp.Coeffs) == N && len(pOut.Coeffs) == N
  modifies fp.Coeffs, pOut.Coeffs
  ensures forall(x, N, pOut.Coeffs[x] == old(pOut.Coeffs[x]) - sel(tor(old(arr(fp.Coeffs))), x))

func poly.(*Evaluator).AddFourierPolyAssign(e, fp0, fp1, fpOut)
  prop C11
  apply
  checked fft add
  alias fpOut=fp0
  alias fpOut=fp1
  alias fp1=fp0
  alias fp1=fp0 fpOut=fp0
  requires len(fp0.Coeffs) == N && len(fp1.Coeffs) == N && len(fpOut.Coeffs) == N
  modifies fpOut.Coeffs
  ensures arr(fpOut.Coeffs) == old(arr(fp0.Coeffs)) + old(arr(fp1.Coeffs))

func poly.(*Evaluator).SubFourierPolyAssign(e, fp0, fp1, fpOut)
  prop C11
  apply
  checked fft sub
  alias fpOut=fp0
  alias fpOut=fp1
  alias fp1=fp0
  alias fp1=fp0 fpOut=fp0
  requires len(fp0.Coeffs) == N && len(fp1.Coeffs) == N && len(fpOut.Coeffs) == N
  modifies fpOut.Coeffs
  ensures arr(fpOut.Coeffs) == old(arr(fp0.Coeffs)) - old(arr(fp1.Coeffs))

func poly.(*Evaluator).MulFourierPolyAssign(e, fp0, fp1, fpOut)
  prop C11
  apply
  checked fft mul
  alias fpOut=fp0
  alias fpOut=fp1
  alias fp1=fp0
  alias fp1=fp0 fpOut=fp0
  requires len(fp0.Coeffs) == N && len(fp1.Coeffs) == N && len(fpOut.Coeffs) == N
  modifies fpOut.Coeffs
  ensures arr(fpOut.Coeffs) == old(arr(fp0.Coeffs)) * old(arr(fp1.Coeffs))

func poly.(*Evaluator).MulAddFourierPolyAssign(e, fp0, fp1, fpOut)
  prop C11
  apply
  checked fft muladd
  alias fpOut=fp0
  alias fpOut=fp1
  alias fp1=fp0
  alias fp1=fp0 fpOut=fp0
  requires len(fp0.Coeffs) == N && len(fp1.Coeffs) == N && len(fpOut.Coeffs) == N
  modifies fpOut.Coeffs
  ensures arr(fpOut.Coeffs) == old(arr(fpOut.Coeffs)) + old(arr(fp0.Coeffs)) * old(arr(fp1.Coeffs))

func poly.(*Evaluator).MulSubFourierPolyAssign(e, fp0, fp1, fpOut)
  prop C11
  apply
  checked fft mulsub
  alias fpOut=fp0
  alias fpOut=fp1
  alias fp1=fp0
  alias fp1=fp0 fpOut=fp0
  requires len(fp0.Coeffs) == N && len(fp1.Coeffs) == N && len(fpOut.Coeffs) == N
  modifies fpOut.Coeffs
  ensures arr(fpOut.Coeffs) == old(arr(fpOut.Coeffs)) - old(arr(fp0.Coeffs)) * old(arr(fp1.Coeffs))

// Products of polynomials are the torus image of the product of the lifts.
func poly.(*Evaluator).MulPoly(e, p0, p1) r
  prop C11
  with e = poly.NewEvaluator(N)
  havoc e
  requires len(p0.Coeffs) == N && len(p1.Coeffs) == N
  modifies e
  except tables(e)
  ensures fresh(r) && len(r.Coeffs) == N
  ensures arr(r.Coeffs) == tor(lift(arr(p0.Coeffs)) * lift(arr(p1.Coeffs)))

func poly.(*Evaluator).MulPolyAssign(e, p0, p1, pOut)
  prop C11
  with e = poly.NewEvaluator(N)
  havoc e
  alias pOut=p0
  alias pOut=p1
  alias pOut=p0 p1=p0
  requires len(p0.Coeffs) == N && len(p1.Coeffs) == N && len(pOut.Coeffs) == N
  modifies e, pOut.Coeffs
  except tables(e)
  ensures arr(pOut.Coeffs) == tor(old(lift(arr(p0.Coeffs)) * lift(arr(p1.Coeffs))))

func poly.(*Evaluator).MulAddPolyAssign(e, p0, p1, pOut)
  prop C11
  with e = poly.NewEvaluator(N)
  havoc e
  alias pOut=p0
  requires len(p0.Coeffs) == N && len(p1.Coeffs) == N && len(pOut.Coeffs) == N
  modifies e, pOut.Coeffs
  except tables(e)
  ensures forall(x, N, pOut.Coeffs[x] == old(pOut.Coeffs[x]) + sel(tor(old(lift(arr(p0.Coeffs)) * lift(arr(p1.Coeffs)))), x))

func poly.(*Evaluator).MulSubPolyAssign(e, p0, p1, pOut)
  prop C11
  with e = poly.NewEvaluator(N)
  havoc e
  alias pOut=p0
  requires len(p0.Coeffs) == N && len(p1.Coeffs) == N && len(pOut.Coeffs) == N
  modifies e, pOut.Coeffs
  except tables(e)
  ensures forall(x, N, pOut.Coeffs[x] == old(pOut.Coeffs[x]) - sel(tor(old(lift(arr(p0.Coeffs)) * lift(arr(p1.Coeffs)))), x))

// External product and CMUX.
def digit(v, off, i) = (((v + off) >> (32-(i+1)*bgbit)) & uint32((1<<bgbit)-1)) - uint32(1 << (bgbit-1))
def digpoly(p, off, i) = lam(x, N, digit(sel(p, x), off, i))
def extA(g, a, b, off) = tor(sum(i, L, lift(digpoly(a, off, i)) * arr(g.TRLWEFFT[i].A.Coeffs) + lift(digpoly(b, off, i)) * arr(g.TRLWEFFT[L+i].A.Coeffs)))
def extB(g, a, b, off) = tor(sum(i, L, lift(digpoly(a, off, i)) * arr(g.TRLWEFFT[i].B.Coeffs) + lift(digpoly(b, off, i)) * arr(g.TRLWEFFT[L+i].B.Coeffs)))
def dif(p, q) = lam(x, N, sel(p, x) - sel(q, x))
def addp(p, q) = lam(x, N, sel(p, x) + sel(q, x))
def cmuxA(g, a0, b0, a1, b1, off) = addp(a0, extA(g, dif(a1, a0), dif(b1, b0), off))
def cmuxB(g, a0, b0, a1, b1, off) = addp(b0, extB(g, dif(a1, a0), dif(b1, b0), off))

func trgsw.ExternalProductWithFFT(g, ct, off, ev) r
  prop C15
  enum k in 0 .. 4
  with ev = poly.NewEvaluator(N)
  havoc ev
  do repeat(k, ev.GetTRLWEBuffer())
  modifies ev
  except tables(ev)
  ensures len(r.A) == N && len(r.B) == N
  ensures arr(r.A) == extA(g, arr(ct.A), arr(ct.B), off)
  ensures arr(r.B) == extB(g, arr(ct.A), arr(ct.B), off)

func evaluator.(*Evaluator).ExternalProductAssign(e, g, ct, off, out)
  prop C15
  with e = evaluator.NewEvaluator(N)
  havoc e
  alias out=ct
  modifies e, out
  except tables(e)
  ensures arr(out.A) == old(extA(g, arr(ct.A), arr(ct.B), off))
  ensures arr(out.B) == old(extB(g, arr(ct.A), arr(ct.B), off))

func trgsw.CMUX(in1, in2, g, off, ev) r
  prop C15
  enum k in 0 .. 4
  with ev = poly.NewEvaluator(N)
  havoc ev
  do repeat(k, ev.GetTRLWEBuffer())
  alias in2=in1
  modifies ev
  except tables(ev)
  ensures len(r.A) == N && len(r.B) == N
  ensures arr(r.A) == cmuxA(g, arr(in1.A), arr(in1.B), arr(in2.A), arr(in2.B), off)
  ensures arr(r.B) == cmuxB(g, arr(in1.A), arr(in1.B), arr(in2.A), arr(in2.B), off)

func evaluator.(*Evaluator).CMuxAssign(e, g, ct0, ct1, off, out)
  prop C15
  with e = evaluator.NewEvaluator(N)
  havoc e
  alias out=ct0
  alias ct1=ct0
  modifies e, out
  except tables(e)
  ensures arr(out.A) == old(cmuxA(g, arr(ct0.A), arr(ct0.B), arr(ct1.A), arr(ct1.B), off))
  ensures arr(out.B) == old(cmuxB(g, arr(ct0.A), arr(ct0.B), arr(ct1.A), arr(ct1.B), off))

func poly.(*Evaluator).FloatMulFourierPolyAssign(e, fp0, c, fpOut)
  prop C11
  apply
  checked fft scale
  alias fpOut=fp0
  requires len(fp0.Coeffs) == N && len(fpOut.Coeffs) == N
  modifies fpOut.Coeffs
  ensures arr(fpOut.Coeffs) == fscale(c, old(arr(fp0.Coeffs)))

func poly.(*Evaluator).FloatMulAddFourierPolyAssign(e, fp0, c, fpOut)
  prop C11
  apply
  checked fft scaleadd
  alias fpOut=fp0
  requires len(fp0.Coeffs) == N && len(fpOut.Coeffs) == N
  modifies fpOut.Coeffs
  ensures arr(fpOut.Coeffs) == old(arr(fpOut.Coeffs)) + fscale(c, old(arr(fp0.Coeffs)))

func poly.(*Evaluator).ToFourierPoly(e, p) r
  prop C11
  with e = poly.NewEvaluator(N)
  havoc e
  requires len(p.Coeffs) == N
  ensures fresh(r) && len(r.Coeffs) == N
  ensures arr(r.Coeffs) == lift(arr(p.Coeffs))

func poly.(*Evaluator).ToPolyAssign(e, fp, pOut)
  prop C11
  apply
  checked fft inverse
  with e = poly.NewEvaluator(N)
  havoc e
  requires len(fp.Coeffs) == N && len(pOut.Coeffs) == N
  modifies e, pOut.Coeffs
  except tables(e)
  ensures arr(pOut.Coeffs) == tor(old(arr(fp.Coeffs)))

func poly.(*Evaluator).ToPoly(e, fp) r
  prop C11
  with e = poly.NewEvaluator(N)
  havoc e
  requires len(fp.Coeffs) == N
  modifies e
  except tables(e)
  ensures fresh(r) && len(r.Coeffs) == N
  ensures arr(r.Coeffs) == tor(arr(fp.Coeffs))

func poly.(*Evaluator).AddFourierPoly(e, fp0, fp1) r
  prop C11
  with e = poly.NewEvaluator(N)
  havoc e
  alias fp1=fp0
  requires len(fp0.Coeffs) == N && len(fp1.Coeffs) == N
  ensures fresh(r) && len(r.Coeffs) == N
  ensures arr(r.Coeffs) == arr(fp0.Coeffs) + arr(fp1.Coeffs)

func poly.(*Evaluator).SubFourierPoly(e, fp0, fp1) r
  prop C11
  with e = poly.NewEvaluator(N)
  havoc e
  alias fp1=fp0
  requires len(fp0.Coeffs) == N && len(fp1.Coeffs) == N
  ensures fresh(r) && len(r.Coeffs) == N
  ensures arr(r.Coeffs) == arr(fp0.Coeffs) - arr(fp1.Coeffs)

func poly.(*Evaluator).MulFourierPoly(e, fp0, fp1) r
  prop C11
  with e = poly.NewEvaluator(N)
  havoc e
  alias fp1=fp0
  requires len(fp0.Coeffs) == N && len(fp1.Coeffs) == N
  ensures fresh(r) && len(r.Coeffs) == N
  ensures arr(r.Coeffs) == arr(fp0.Coeffs) * arr(fp1.Coeffs)
