// Buffers handed out by the rotation and ciphertext pools.
func poly.(*Evaluator).GetRotationBuffer(e) r
  prop C16 C10
  enum k in 0 .. 8
  with e = poly.NewEvaluator(N)
  havoc e
  do repeat(k, e.GetRotationBuffer())
  do p1 = e.GetRotationBuffer()
  do p2 = e.GetRotationBuffer()
  do p3 = e.GetRotationBuffer()
  do havoc(p1)
  do havoc(p2)
  do havoc(p3)
  modifies e
  except p1, p2, p3, tables(e)
  ensures [length] len(r) == N
  ensures [distinct from the last three] disjoint(r, p1) && disjoint(r, p2) && disjoint(r, p3)
  ensures [still an evaluator] like(e, poly.NewEvaluator(N))

func poly.(*Evaluator).GetTRLWEBuffer(e) r, s
  prop C16 C10
  enum k in 0 .. 8
  with e = poly.NewEvaluator(N)
  havoc e
  do repeat(k, e.GetTRLWEBuffer())
  do p1 = e.GetTRLWEBuffer()
  do p2 = e.GetTRLWEBuffer()
  do p3 = e.GetTRLWEBuffer()
  do havoc(p1)
  do havoc(p2)
  do havoc(p3)
  modifies e
  except p1, p2, p3, tables(e)
  ensures [lengths] len(r) == N && len(s) == N && disjoint(r, s)
  ensures [distinct from the last three] disjoint(r, p1) && disjoint(r, p2) && disjoint(r, p3)
  ensures [distinct from the last three, body] disjoint(s, p1) && disjoint(s, p2) && disjoint(s, p3)
  ensures [still an evaluator] like(e, poly.NewEvaluator(N))

func poly.(*BufferManager).GetRotationBuffer(e) r
  prop C16
  enum k in 0 .. 8
  with e = poly.NewBufferManager(N)
  havoc e
  do repeat(k, e.GetRotationBuffer())
  do p1 = e.GetRotationBuffer()
  do p2 = e.GetRotationBuffer()
  do p3 = e.GetRotationBuffer()
  do havoc(p1)
  do havoc(p2)
  do havoc(p3)
  modifies e
  except p1, p2, p3
  ensures [length] len(r.Coeffs) == N
  ensures [distinct from the last three] disjoint(r, p1) && disjoint(r, p2) && disjoint(r, p3)
  ensures [still a manager] like(e, poly.NewBufferManager(N))

func poly.(*BufferManager).GetTRLWEBuffer(e) r, s
  prop C16
  enum k in 0 .. 8
  with e = poly.NewBufferManager(N)
  havoc e
  do repeat(k, e.GetTRLWEBuffer())
  do p1 = e.GetTRLWEBuffer()
  do p2 = e.GetTRLWEBuffer()
  do p3 = e.GetTRLWEBuffer()
  do havoc(p1)
  do havoc(p2)
  do havoc(p3)
  modifies e
  except p1, p2, p3
  ensures [lengths] len(r) == N && len(s) == N && disjoint(r, s)
  ensures [distinct from the last three] disjoint(r, p1) && disjoint(r, p2) && disjoint(r, p3)
  ensures [distinct from the last three, body] disjoint(s, p1) && disjoint(s, p2) && disjoint(s, p3)
  ensures [still a manager] like(e, poly.NewBufferManager(N))

// Rotation into a pooled buffer, the operand being the caller's or a recent result.
func poly.(*Evaluator).PolyMulWithXK(e, a, k) r
  prop C16 C10
  enum h in 0 .. 8
  requires len(a) == N
  with e = poly.NewEvaluator(N)
  havoc e
  do repeat(h, e.GetRotationBuffer())
  do p1 = e.GetRotationBuffer()
  do p2 = e.GetRotationBuffer()
  do p3 = e.GetRotationBuffer()
  do havoc(p1)
  do havoc(p2)
  do havoc(p3)
  modifies e
  except p1, p2, p3, tables(e)
  ensures [coefficients] len(r) == N && forall(x, N, r[x] == rotc(arr(a), modk(k), x))
  ensures [distinct from the last three] disjoint(r, p1) && disjoint(r, p2) && disjoint(r, p3)

func poly.(*Evaluator).PolyMulWithXKDirect(e, a, k, result)
  prop C16 C10
  requires len(a) == N
  requires len(result) == N
  with e = poly.NewEvaluator(N)
  havoc e
  modifies result
  ensures [coefficients] forall(x, N, result[x] == rotc(arr(a), modk(k), x))

func evaluator.(*BufferPool).GetNextResult(e) r
  prop C16 C10
  enum k in 0 .. 8
  with e = evaluator.NewBufferPool(N)
  havoc e
  do repeat(k, e.GetNextResult())
  do p1 = e.GetNextResult()
  do p2 = e.GetNextResult()
  do p3 = e.GetNextResult()
  do havoc(p1)
  do havoc(p2)
  do havoc(p3)
  modifies e
  except p1, p2, p3
  ensures [length] len(r.P) == n0+1
  ensures [distinct from the last three] disjoint(r, p1) && disjoint(r, p2) && disjoint(r, p3)
  ensures [still a pool] like(e, evaluator.NewBufferPool(N))

// Resetting a pool restarts it; what was handed out keeps its contents.
func poly.(*Evaluator).ResetRotationPool(e)
  prop C16
  enum k in 0 .. 8
  with e = poly.NewEvaluator(N)
  havoc e
  do repeat(k, e.GetRotationBuffer())
  do p1 = e.GetRotationBuffer()
  do havoc(p1)
  modifies e
  except p1, tables(e)
  ensures [still an evaluator] like(e, poly.NewEvaluator(N))

func poly.(*Evaluator).ResetTRLWEPool(e)
  prop C16
  enum k in 0 .. 8
  with e = poly.NewEvaluator(N)
  havoc e
  do repeat(k, e.GetTRLWEBuffer())
  do p1 = e.GetTRLWEBuffer()
  do havoc(p1)
  modifies e
  except p1, tables(e)
  ensures [still an evaluator] like(e, poly.NewEvaluator(N))

func poly.(*BufferManager).Reset(e)
  prop C16
  enum k in 0 .. 8
  with e = poly.NewBufferManager(N)
  havoc e
  do repeat(k, e.GetRotationBuffer())
  do p1 = e.GetRotationBuffer()
  do repeat(k, e.GetTRLWEBuffer())
  do p2 = e.GetTRLWEBuffer()
  do havoc(p1)
  do havoc(p2)
  modifies e
  except p1, p2
  ensures [still a manager] like(e, poly.NewBufferManager(N))

func evaluator.(*BufferPool).Reset(e)
  prop C16 C10
  enum k in 0 .. 8
  with e = evaluator.NewBufferPool(N)
  havoc e
  do repeat(k, e.GetNextResult())
  do p1 = e.GetNextResult()
  do havoc(p1)
  modifies e
  except p1
  ensures [still a pool] like(e, evaluator.NewBufferPool(N))

func poly.(*Evaluator).ClearTRLWEBuffer(e, a, b)
  prop C16
  requires len(a) == N && len(b) == N
  with e = poly.NewEvaluator(N)
  havoc e
  modifies a, b
  ensures [all zero] forall(i, N, a[i] == 0 && b[i] == 0)
