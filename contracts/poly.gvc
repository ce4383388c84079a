// Polynomials as values: constructors, copies and clearing.
func poly.NewPoly(n) r
  prop C10 C11
  enum k in 4 .. 12
  with n = 1 << k
  ensures [zero, of that degree] fresh(r.Coeffs) && len(r.Coeffs) == n && forall(i, n, r.Coeffs[i] == 0)

func poly.NewFourierPoly(n) r
  prop C10 C11
  enum k in 4 .. 12
  with n = 1 << k
  ensures [zero, of that degree] fresh(r.Coeffs) && len(r.Coeffs) == n && forall(i, n, r.Coeffs[i] == 0.0)

func poly.Poly.Copy(p) r
  prop C10 C11
  ensures [own memory] fresh(r.Coeffs) && len(r.Coeffs) == len(p.Coeffs)
  ensures [same coefficients] forall(i, len(p.Coeffs), r.Coeffs[i] == p.Coeffs[i])

func poly.Poly.Clear(p)
  prop C11
  modifies p.Coeffs
  ensures [all zero] forall(i, len(p.Coeffs), p.Coeffs[i] == 0)

func poly.FourierPoly.Copy(p) r
  prop C10 C11
  ensures [own memory] fresh(r.Coeffs) && len(r.Coeffs) == len(p.Coeffs)
  ensures [same coefficients] forall(i, len(p.Coeffs), r.Coeffs[i] == p.Coeffs[i])

func poly.FourierPoly.Clear(p)
  prop C11
  modifies p.Coeffs
  ensures [all zero] forall(i, len(p.Coeffs), p.Coeffs[i] == 0.0)

func poly.(*FourierPoly).CopyFrom(p, q)
  prop C11
  requires len(q.Coeffs) == len(p.Coeffs)
  modifies p.Coeffs
  ensures [same coefficients] forall(i, len(p.Coeffs), p.Coeffs[i] == q.Coeffs[i])

func poly.NewPolyAligned(n) r
  prop C10 C11
  enum k in 4 .. 12
  with n = 1 << k
  ensures [zero, of that degree] fresh(r.Coeffs) && len(r.Coeffs) == n && forall(i, n, r.Coeffs[i] == 0)

func poly.NewFourierPolyAligned(n) r
  prop C10 C11
  enum k in 4 .. 12
  with n = 1 << k
  ensures [zero, of that degree] fresh(r.Coeffs) && len(r.Coeffs) == n && forall(i, n, r.Coeffs[i] == 0.0)

// The buffered steps of the external product, on any state of the buffers.
func poly.(*Evaluator).ToFourierPolyInBuffer(e, p, i)
  prop C11
  enum j in 0 .. 2*L
  with e = poly.NewEvaluator(N)
  havoc e
  set i = j
  requires len(p.Coeffs) == N
  modifies e
  except tables(e)
  ensures [transform in that buffer] arr(e.buffer.decompFFT[j].Coeffs) == lift(arr(p.Coeffs))

func poly.(*Evaluator).CopyToDecompBuffer(e, src, i)
  prop C11
  enum j in 0 .. 2*L
  with e = poly.NewEvaluator(N)
  havoc e
  set i = j
  requires len(src) == N
  modifies e
  except tables(e)
  ensures [copied] forall(x, N, e.buffer.decompBuffer[j].Coeffs[x] == src[x])
