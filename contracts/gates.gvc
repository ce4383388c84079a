// Boolean gates.  Each gate bootstraps, with exactly the key material it was
// given, a linear combination z of its operands whose phase lies on the side of
// the torus that the truth table asks for, with a margin of 1/32.
def bootck(x, p, ck) = boot(x, p, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
def near(p, v) = int32(phase0(p, ghost("s")) - ite(v, uint32(0x20000000), uint32(0xe0000000))) > -0x8000000 && int32(phase0(p, ghost("s")) - ite(v, uint32(0x20000000), uint32(0xe0000000))) < 0x8000000
def istrue(z) = int32(phase0(z, ghost("s"))) > 0x8000000 && int32(phase0(z, ghost("s"))) < 0x78000000
def isfalse(z) = int32(phase0(z, ghost("s"))) < -0x8000000 && int32(phase0(z, ghost("s"))) > -0x78000000
def row(a, b, va, vb, z, out) = imp(near(a, va) && near(b, vb), ite(out, istrue(z), isfalse(z)))

func gates.NAND(a, b, ck) r
  prop C01 C10 C17
  enum k in 0 .. 2
  alias b=a
  do repeat(k, gates.NAND(a, b, ck))
  havoc globals(gates)
  modifies globals(gates)
  except tables(globals(gates))
  let z = argof(r.P, brA, 0)
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures [bootstrapped with the given key] forall(x, n0+1, r.P[x] == bootck(x, z, ck))
  ensures [row ff] row(a.P, b.P, false, false, z, true)
  ensures [row ft] row(a.P, b.P, false, true, z, true)
  ensures [row tf] row(a.P, b.P, true, false, z, true)
  ensures [row tt] row(a.P, b.P, true, true, z, false)

func gates.AND(a, b, ck) r
  prop C01 C10 C17
  enum k in 0 .. 2
  alias b=a
  do repeat(k, gates.AND(a, b, ck))
  havoc globals(gates)
  modifies globals(gates)
  except tables(globals(gates))
  let z = argof(r.P, brA, 0)
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures [bootstrapped with the given key] forall(x, n0+1, r.P[x] == bootck(x, z, ck))
  ensures [row ff] row(a.P, b.P, false, false, z, false)
  ensures [row ft] row(a.P, b.P, false, true, z, false)
  ensures [row tf] row(a.P, b.P, true, false, z, false)
  ensures [row tt] row(a.P, b.P, true, true, z, true)

func gates.OR(a, b, ck) r
  prop C01 C10 C17
  enum k in 0 .. 2
  alias b=a
  do repeat(k, gates.OR(a, b, ck))
  havoc globals(gates)
  modifies globals(gates)
  except tables(globals(gates))
  let z = argof(r.P, brA, 0)
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures [bootstrapped with the given key] forall(x, n0+1, r.P[x] == bootck(x, z, ck))
  ensures [row ff] row(a.P, b.P, false, false, z, false)
  ensures [row ft] row(a.P, b.P, false, true, z, true)
  ensures [row tf] row(a.P, b.P, true, false, z, true)
  ensures [row tt] row(a.P, b.P, true, true, z, true)

func gates.XOR(a, b, ck) r
  prop C01 C10 C17
  enum k in 0 .. 2
  alias b=a
  do repeat(k, gates.XOR(a, b, ck))
  havoc globals(gates)
  modifies globals(gates)
  except tables(globals(gates))
  let z = argof(r.P, brA, 0)
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures [bootstrapped with the given key] forall(x, n0+1, r.P[x] == bootck(x, z, ck))
  ensures [row ff] row(a.P, b.P, false, false, z, false)
  ensures [row ft] row(a.P, b.P, false, true, z, true)
  ensures [row tf] row(a.P, b.P, true, false, z, true)
  ensures [row tt] row(a.P, b.P, true, true, z, false)

func gates.XNOR(a, b, ck) r
  prop C01 C10 C17
  enum k in 0 .. 2
  alias b=a
  do repeat(k, gates.XNOR(a, b, ck))
  havoc globals(gates)
  modifies globals(gates)
  except tables(globals(gates))
  let z = argof(r.P, brA, 0)
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures [bootstrapped with the given key] forall(x, n0+1, r.P[x] == bootck(x, z, ck))
  ensures [row ff] row(a.P, b.P, false, false, z, true)
  ensures [row ft] row(a.P, b.P, false, true, z, false)
  ensures [row tf] row(a.P, b.P, true, false, z, false)
  ensures [row tt] row(a.P, b.P, true, true, z, true)

func gates.NOR(a, b, ck) r
  prop C01 C10 C17
  enum k in 0 .. 2
  alias b=a
  do repeat(k, gates.NOR(a, b, ck))
  havoc globals(gates)
  modifies globals(gates)
  except tables(globals(gates))
  let z = argof(r.P, brA, 0)
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures [bootstrapped with the given key] forall(x, n0+1, r.P[x] == bootck(x, z, ck))
  ensures [row ff] row(a.P, b.P, false, false, z, true)
  ensures [row ft] row(a.P, b.P, false, true, z, false)
  ensures [row tf] row(a.P, b.P, true, false, z, false)
  ensures [row tt] row(a.P, b.P, true, true, z, false)

func gates.ANDNY(a, b, ck) r
  prop C01 C10 C17
  enum k in 0 .. 2
  alias b=a
  do repeat(k, gates.ANDNY(a, b, ck))
  havoc globals(gates)
  modifies globals(gates)
  except tables(globals(gates))
  let z = argof(r.P, brA, 0)
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures [bootstrapped with the given key] forall(x, n0+1, r.P[x] == bootck(x, z, ck))
  ensures [row ff] row(a.P, b.P, false, false, z, false)
  ensures [row ft] row(a.P, b.P, false, true, z, true)
  ensures [row tf] row(a.P, b.P, true, false, z, false)
  ensures [row tt] row(a.P, b.P, true, true, z, false)

func gates.ANDYN(a, b, ck) r
  prop C01 C10 C17
  enum k in 0 .. 2
  alias b=a
  do repeat(k, gates.ANDYN(a, b, ck))
  havoc globals(gates)
  modifies globals(gates)
  except tables(globals(gates))
  let z = argof(r.P, brA, 0)
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures [bootstrapped with the given key] forall(x, n0+1, r.P[x] == bootck(x, z, ck))
  ensures [row ff] row(a.P, b.P, false, false, z, false)
  ensures [row ft] row(a.P, b.P, false, true, z, false)
  ensures [row tf] row(a.P, b.P, true, false, z, true)
  ensures [row tt] row(a.P, b.P, true, true, z, false)

func gates.ORNY(a, b, ck) r
  prop C01 C10 C17
  enum k in 0 .. 2
  alias b=a
  do repeat(k, gates.ORNY(a, b, ck))
  havoc globals(gates)
  modifies globals(gates)
  except tables(globals(gates))
  let z = argof(r.P, brA, 0)
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures [bootstrapped with the given key] forall(x, n0+1, r.P[x] == bootck(x, z, ck))
  ensures [row ff] row(a.P, b.P, false, false, z, true)
  ensures [row ft] row(a.P, b.P, false, true, z, true)
  ensures [row tf] row(a.P, b.P, true, false, z, false)
  ensures [row tt] row(a.P, b.P, true, true, z, true)

func gates.ORYN(a, b, ck) r
  prop C01 C10 C17
  enum k in 0 .. 2
  alias b=a
  do repeat(k, gates.ORYN(a, b, ck))
  havoc globals(gates)
  modifies globals(gates)
  except tables(globals(gates))
  let z = argof(r.P, brA, 0)
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures [bootstrapped with the given key] forall(x, n0+1, r.P[x] == bootck(x, z, ck))
  ensures [row ff] row(a.P, b.P, false, false, z, true)
  ensures [row ft] row(a.P, b.P, false, true, z, false)
  ensures [row tf] row(a.P, b.P, true, false, z, true)
  ensures [row tt] row(a.P, b.P, true, true, z, true)

func gates.MUX(a, b, c, ck) r
  prop C01 C10 C17
  alias b=a c=a
  alias c=b
  modifies globals(gates)
  except tables(globals(gates))
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures [select] arr(r.P) == arr(gates.OR(gates.AND(a, b, ck), gates.AND(gates.NOT(a), c, ck), ck).P)

func gates.NOT(a) r
  prop C01 C10
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures [true] imp(near(a.P, true), near(r.P, false))
  ensures [false] imp(near(a.P, false), near(r.P, true))

func gates.Copy(a) r
  prop C01 C10
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures forall(x, n0+1, r.P[x] == a.P[x])

func gates.Constant(v) r
  prop C01 C10
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures near(r.P, v)

// Batch gates: position i holds the single gate's specification for pair i.

func gates.BatchNAND(inputs, ck) r
  prop C02 C17 C10
  ensures [one result per pair] len(r) == len(inputs)
  ensures [private results] fresh(r) && distinct(r)
  ensures [bootstrapped with the given key] forall(i, len(inputs), len(r[i].P) == n0+1 && forall(x, n0+1, r[i].P[x] == bootck(x, argof(r[i].P, brA, 0), ck)))
  ensures [row ff] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, false, false, argof(r[i].P, brA, 0), true))
  ensures [row ft] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, false, true, argof(r[i].P, brA, 0), true))
  ensures [row tf] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, true, false, argof(r[i].P, brA, 0), true))
  ensures [row tt] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, true, true, argof(r[i].P, brA, 0), false))

func gates.BatchAND(inputs, ck) r
  prop C02 C17 C10
  ensures [one result per pair] len(r) == len(inputs)
  ensures [private results] fresh(r) && distinct(r)
  ensures [bootstrapped with the given key] forall(i, len(inputs), len(r[i].P) == n0+1 && forall(x, n0+1, r[i].P[x] == bootck(x, argof(r[i].P, brA, 0), ck)))
  ensures [row ff] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, false, false, argof(r[i].P, brA, 0), false))
  ensures [row ft] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, false, true, argof(r[i].P, brA, 0), false))
  ensures [row tf] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, true, false, argof(r[i].P, brA, 0), false))
  ensures [row tt] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, true, true, argof(r[i].P, brA, 0), true))

func gates.BatchOR(inputs, ck) r
  prop C02 C17 C10
  ensures [one result per pair] len(r) == len(inputs)
  ensures [private results] fresh(r) && distinct(r)
  ensures [bootstrapped with the given key] forall(i, len(inputs), len(r[i].P) == n0+1 && forall(x, n0+1, r[i].P[x] == bootck(x, argof(r[i].P, brA, 0), ck)))
  ensures [row ff] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, false, false, argof(r[i].P, brA, 0), false))
  ensures [row ft] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, false, true, argof(r[i].P, brA, 0), true))
  ensures [row tf] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, true, false, argof(r[i].P, brA, 0), true))
  ensures [row tt] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, true, true, argof(r[i].P, brA, 0), true))

func gates.BatchXOR(inputs, ck) r
  prop C02 C17 C10
  ensures [one result per pair] len(r) == len(inputs)
  ensures [private results] fresh(r) && distinct(r)
  ensures [bootstrapped with the given key] forall(i, len(inputs), len(r[i].P) == n0+1 && forall(x, n0+1, r[i].P[x] == bootck(x, argof(r[i].P, brA, 0), ck)))
  ensures [row ff] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, false, false, argof(r[i].P, brA, 0), false))
  ensures [row ft] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, false, true, argof(r[i].P, brA, 0), true))
  ensures [row tf] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, true, false, argof(r[i].P, brA, 0), true))
  ensures [row tt] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, true, true, argof(r[i].P, brA, 0), false))

func gates.BatchNOR(inputs, ck) r
  prop C02 C17 C10
  ensures [one result per pair] len(r) == len(inputs)
  ensures [private results] fresh(r) && distinct(r)
  ensures [bootstrapped with the given key] forall(i, len(inputs), len(r[i].P) == n0+1 && forall(x, n0+1, r[i].P[x] == bootck(x, argof(r[i].P, brA, 0), ck)))
  ensures [row ff] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, false, false, argof(r[i].P, brA, 0), true))
  ensures [row ft] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, false, true, argof(r[i].P, brA, 0), false))
  ensures [row tf] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, true, false, argof(r[i].P, brA, 0), false))
  ensures [row tt] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, true, true, argof(r[i].P, brA, 0), false))

func gates.BatchXNOR(inputs, ck) r
  prop C02 C17 C10
  ensures [one result per pair] len(r) == len(inputs)
  ensures [private results] fresh(r) && distinct(r)
  ensures [bootstrapped with the given key] forall(i, len(inputs), len(r[i].P) == n0+1 && forall(x, n0+1, r[i].P[x] == bootck(x, argof(r[i].P, brA, 0), ck)))
  ensures [row ff] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, false, false, argof(r[i].P, brA, 0), true))
  ensures [row ft] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, false, true, argof(r[i].P, brA, 0), false))
  ensures [row tf] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, true, false, argof(r[i].P, brA, 0), false))
  ensures [row tt] forall(i, len(inputs), row(inputs[i][0].P, inputs[i][1].P, true, true, argof(r[i].P, brA, 0), true))

// The zero-allocation preparations, on their own.
func evaluator.(*Evaluator).PrepareNAND(e, a, b) r
  prop C01
  alias b=a
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures [row ff] row(a.P, b.P, false, false, r.P, true)
  ensures [row ft] row(a.P, b.P, false, true, r.P, true)
  ensures [row tf] row(a.P, b.P, true, false, r.P, true)
  ensures [row tt] row(a.P, b.P, true, true, r.P, false)

func evaluator.(*Evaluator).PrepareAND(e, a, b) r
  prop C01
  alias b=a
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures [row ff] row(a.P, b.P, false, false, r.P, false)
  ensures [row ft] row(a.P, b.P, false, true, r.P, false)
  ensures [row tf] row(a.P, b.P, true, false, r.P, false)
  ensures [row tt] row(a.P, b.P, true, true, r.P, true)

func evaluator.(*Evaluator).PrepareOR(e, a, b) r
  prop C01
  alias b=a
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures [row ff] row(a.P, b.P, false, false, r.P, false)
  ensures [row ft] row(a.P, b.P, false, true, r.P, true)
  ensures [row tf] row(a.P, b.P, true, false, r.P, true)
  ensures [row tt] row(a.P, b.P, true, true, r.P, true)

func evaluator.(*Evaluator).PrepareXOR(e, a, b) r
  prop C01
  alias b=a
  ensures [private result] fresh(r) && len(r.P) == n0+1
  ensures [row ff] row(a.P, b.P, false, false, r.P, false)
  ensures [row ft] row(a.P, b.P, false, true, r.P, true)
  ensures [row tf] row(a.P, b.P, true, false, r.P, true)
  ensures [row tt] row(a.P, b.P, true, true, r.P, false)
