// Evaluator construction, copying and level changes.
func poly.(*Evaluator).ShallowCopy(e) r
  prop C17
  with e = poly.NewEvaluator(N)
  havoc e
  ensures [dimensions] like(r, poly.NewEvaluator(N)) && r.Degree() == N
  ensures [no shared scratch memory] disjoint(r, e, tables(e))
  ensures [same tables] sametables(r, e)

func evaluator.(*Evaluator).ShallowCopy(e) r
  prop C17
  enum k in 0 .. 4
  with e = evaluator.NewEvaluator(N)
  havoc e
  do repeat(k, e.Buffers.GetNextResult())
  ensures [dimensions] like(r, evaluator.NewEvaluator(N)) && r.PolyEvaluator.Degree() == N
  ensures [no shared scratch memory] disjoint(r, e, tables(e))
  ensures [same tables] sametables(r.PolyEvaluator, e.PolyEvaluator)

func evaluator.(*Evaluator).ResetBuffers(e)
  prop C17
  enum k in 0 .. 4
  with e = evaluator.NewEvaluator(N)
  havoc e
  do repeat(k, e.Buffers.GetNextResult())
  modifies e
  except tables(e)
  ensures like(e, evaluator.NewEvaluator(N)) && e.PolyEvaluator.Degree() == N

def levelno(j) = ite(j == 8, 80, ite(j == 9, 110, ite(j == 10, 128, j + 1)))

// The package's evaluator after any number of selections.
func gates.currentEval() r
  prop C17
  aux
  enum prev in 0 .. 11
  enum used in 0 .. 2
  do params.CurrentSecurityLevel = params.SecurityLevel(levelno(prev))
  do repeat(used, gates.currentEval())
  do params.CurrentSecurityLevel = params.SecurityLevel(level())
  havoc globals(gates)
  modifies globals(gates)
  except tables(globals(gates))
  ensures like(r, evaluator.NewEvaluator(N)) && r.PolyEvaluator.Degree() == N
