// Lookup tables.  The generators are discharged by the concrete-control back
// end for every message modulus 1..N and an arbitrary function (see lut.go);
// callers know the table by its function, modulus and scale.
opaque lutB(f, m, s) arr32
opaque lutT(f, m) arr32
def lutgen(g) = g.PolyDegree == N && g.LookUpTableSize == N && g.Encoder.MessageModulus >= 1 && g.Encoder.MessageModulus <= N

func lut.NewLookUpTable() r
  prop C04
  ensures fresh(r) && len(r.Poly.A) == N && len(r.Poly.B) == N
  ensures forall(i, N, r.Poly.A[i] == 0 && r.Poly.B[i] == 0)

func lut.NewGenerator(m) r
  prop C04
  requires m >= 1 && m <= N
  ensures fresh(r) && r.PolyDegree == N && r.LookUpTableSize == N
  ensures r.Encoder.MessageModulus == m && r.Encoder.Scale == 1.0 / float64(2*m)

func lut.NewGeneratorWithScale(m, s) r
  prop C04
  requires m >= 1 && m <= N
  ensures fresh(r) && r.PolyDegree == N && r.LookUpTableSize == N
  ensures r.Encoder.MessageModulus == m && r.Encoder.Scale == s

func lut.(*Generator).GenLookUpTable(g, f) r
  prop C04
  apply
  checked lut
  requires lutgen(g)
  ensures fresh(r) && len(r.Poly.A) == N && len(r.Poly.B) == N
  ensures forall(i, N, r.Poly.A[i] == 0)
  ensures arr(r.Poly.B) == lutB(f, g.Encoder.MessageModulus, g.Encoder.Scale)

func lut.(*Generator).GenLookUpTableAssign(g, f, out)
  prop C04
  apply
  checked lut
  requires lutgen(g)
  requires len(out.Poly.A) == N && len(out.Poly.B) == N
  modifies out
  ensures forall(i, N, out.Poly.A[i] == 0)
  ensures arr(out.Poly.B) == lutB(f, g.Encoder.MessageModulus, g.Encoder.Scale)

func lut.(*Generator).GenLookUpTableFull(g, f) r
  prop C04
  apply
  checked lut
  requires lutgen(g)
  ensures fresh(r) && len(r.Poly.A) == N && len(r.Poly.B) == N
  ensures forall(i, N, r.Poly.A[i] == 0)
  ensures arr(r.Poly.B) == lutT(f, g.Encoder.MessageModulus)

func lut.(*Generator).GenLookUpTableFullAssign(g, f, out)
  prop C04
  apply
  checked lut
  requires lutgen(g)
  requires len(out.Poly.A) == N && len(out.Poly.B) == N
  modifies out
  ensures forall(i, N, out.Poly.A[i] == 0)
  ensures arr(out.Poly.B) == lutT(f, g.Encoder.MessageModulus)

func lut.(*Generator).GenLookUpTableCustom(g, f, m, s) r
  prop C04
  apply
  checked lut
  requires g.LookUpTableSize == N && m >= 1 && m <= N
  ensures fresh(r) && len(r.Poly.A) == N && len(r.Poly.B) == N
  ensures forall(i, N, r.Poly.A[i] == 0)
  ensures arr(r.Poly.B) == lutB(f, m, s)

func lut.(*LookUpTable).Copy(t) r
  prop C04
  requires len(t.Poly.A) == N && len(t.Poly.B) == N
  ensures fresh(r) && len(r.Poly.A) == N && len(r.Poly.B) == N
  ensures forall(i, N, r.Poly.A[i] == t.Poly.A[i] && r.Poly.B[i] == t.Poly.B[i])

func lut.(*LookUpTable).CopyFrom(t, o)
  prop C04
  alias o=t
  requires len(t.Poly.A) == N && len(t.Poly.B) == N && len(o.Poly.A) == N && len(o.Poly.B) == N
  modifies t.Poly.A, t.Poly.B
  ensures forall(i, N, t.Poly.A[i] == old(o.Poly.A[i]) && t.Poly.B[i] == old(o.Poly.B[i]))

func lut.(*LookUpTable).Clear(t)
  prop C04
  requires len(t.Poly.A) == N && len(t.Poly.B) == N
  modifies t.Poly.A, t.Poly.B
  ensures forall(i, N, t.Poly.A[i] == 0 && t.Poly.B[i] == 0)

func evaluator.(*Evaluator).BootstrapFunc(e, ct, f, m, bk, ksk, off) r
  prop C04
  with e = evaluator.NewEvaluator(N)
  havoc e
  requires m >= 1 && m <= N
  requires len(bk) == n0 && len(ksk) == N*iksT*base
  let t = lut.NewGenerator(m).GenLookUpTable(f)
  modifies e
  except tables(e)
  ensures [private] fresh(r) && len(r.P) == n0+1
  ensures forall(x, n0+1, r.P[x] == boot(x, arr(ct.P), t.Poly, bk, ksk, off))

func evaluator.(*Evaluator).BootstrapFuncAssign(e, ct, f, m, bk, ksk, off, out)
  prop C04
  with e = evaluator.NewEvaluator(N)
  havoc e
  alias out=ct
  requires m >= 1 && m <= N
  requires len(bk) == n0 && len(ksk) == N*iksT*base
  let t = lut.NewGenerator(m).GenLookUpTable(f)
  modifies e
  except tables(e)
  except e.Buffers.ResultPool.Buffers[0], e.Buffers.ResultPool.Buffers[1], e.Buffers.ResultPool.Buffers[2], e.Buffers.ResultPool.Buffers[3]
  modifies out
  ensures forall(x, n0+1, out.P[x] == old(boot(x, arr(ct.P), t.Poly, bk, ksk, off)))

// The table position of a torus value: the nearest of the N positions.
func lut.(*Generator).ModSwitch(g, x) r
  prop C04
  with g = lut.NewGenerator(4)
  ensures [nearest position] r == ((int(x)*N + 2147483648) >> 32) % N
