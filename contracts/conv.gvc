// Conversions between integers, bits, torus values and encodings.
func bitutils.ToBits(val, size) r
  prop C14
  requires size >= 0 && size < 1000000
  ensures fresh(r) && len(r) == size
  ensures [least significant first] forall(i, size, iff(r[i], ((val >> uint64(i)) & 1) != 0))

func bitutils.U8ToBits(val) r
  prop C14
  ensures fresh(r) && len(r) == 8
  ensures forall(i, 8, iff(r[i], ((uint64(val) >> uint64(i)) & 1) != 0))

func bitutils.U16ToBits(val) r
  prop C14
  ensures fresh(r) && len(r) == 16
  ensures forall(i, 16, iff(r[i], ((uint64(val) >> uint64(i)) & 1) != 0))

func bitutils.U32ToBits(val) r
  prop C14
  ensures fresh(r) && len(r) == 32
  ensures forall(i, 32, iff(r[i], ((uint64(val) >> uint64(i)) & 1) != 0))

func bitutils.U64ToBits(val) r
  prop C14
  ensures fresh(r) && len(r) == 64
  ensures forall(i, 64, iff(r[i], ((val >> uint64(i)) & 1) != 0))

func bitutils.ConvertU8(bits) r
  prop C14
  enum n in 0 .. 131
  requires len(bits) == n
  ensures [positional] r == uint8(usum(i, n, ite(bits[i] && i < 8, uint8(1), uint8(0)) << uint8(i)))

func bitutils.ConvertU16(bits) r
  prop C14
  enum n in 0 .. 131
  requires len(bits) == n
  ensures [positional] r == uint16(usum(i, n, ite(bits[i] && i < 16, uint16(1), uint16(0)) << uint16(i)))

func bitutils.ConvertU32(bits) r
  prop C14
  enum n in 0 .. 131
  requires len(bits) == n
  ensures [positional] r == uint32(usum(i, n, ite(bits[i] && i < 32, uint32(1), uint32(0)) << uint32(i)))

func bitutils.ConvertU64(bits) r
  prop C14
  enum n in 0 .. 131
  requires len(bits) == n
  ensures [positional] r == uint64(usum(i, n, ite(bits[i] && i < 64, uint64(1), uint64(0)) << uint64(i)))

lemma roundtrip8(v uint8)
  prop C14
  ensures bitutils.ConvertU8(bitutils.U8ToBits(v)) == v
lemma roundtrip16(v uint16)
  prop C14
  ensures bitutils.ConvertU16(bitutils.U16ToBits(v)) == v
lemma roundtrip32(v uint32)
  prop C14
  ensures bitutils.ConvertU32(bitutils.U32ToBits(v)) == v
lemma roundtrip64(v uint64)
  prop C14
  ensures bitutils.ConvertU64(bitutils.U64ToBits(v)) == v

func utils.TorusToF64(t) r
  prop C14
  ensures r == float64(t) / 4294967296.0

lemma torusF64(v uint32)
  prop C14
  ensures [survives] utils.F64ToTorus(utils.TorusToF64(v)) == v

lemma truncates(d float64)
  prop C14
  requires d >= 0 && d < 1000000000.0
  ensures [below] float64(utils.F64ToTorus(d)) <= math.Mod(d, 1.0) * 4294967296.0
  ensures [nearest] float64(utils.F64ToTorus(d)) + 1.0 > math.Mod(d, 1.0) * 4294967296.0

lemma truncatesNegative(d float64)
  prop C14
  requires d <= 0 && d > -1000000000.0
  ensures [odd] float64(-utils.F64ToTorus(d)) <= -(math.Mod(d, 1.0)) * 4294967296.0
  ensures [nearest] float64(-utils.F64ToTorus(d)) + 1.0 > -(math.Mod(d, 1.0)) * 4294967296.0

func lut.NewEncoder(m) r
  prop C14
  requires m >= 1 && m <= 1048576
  ensures fresh(r) && r.MessageModulus == m && r.Scale == 1.0 / float64(2*m)

func lut.NewEncoderWithScale(m, s) r
  prop C14
  ensures fresh(r) && r.MessageModulus == m && r.Scale == s

func lut.(*Encoder).Encode(e, x) r
  prop C14
  requires e.MessageModulus >= 1 && e.MessageModulus <= 1048576
  requires x > -1000000000000 && x < 1000000000000
  ensures [reduced] r == utils.F64ToTorus(float64(ite(x % e.MessageModulus < 0, x % e.MessageModulus + e.MessageModulus, x % e.MessageModulus)) * e.Scale)

func lut.(*Encoder).EncodeWithCustomScale(e, x, s) r
  prop C14
  requires e.MessageModulus >= 1 && e.MessageModulus <= 1048576
  ensures [reduced] r == utils.F64ToTorus(float64(ite(x % e.MessageModulus < 0, x % e.MessageModulus + e.MessageModulus, x % e.MessageModulus)) * s)

func lut.(*Encoder).DecodeBool(e, v) r
  prop C14
  requires e.MessageModulus >= 1 && e.MessageModulus <= 1048576 && e.Scale > 0.0000001 && e.Scale <= 1.0
  ensures iff(r, e.Decode(v) != 0)

lemma decode(m int, x int, v uint32)
  prop C14
  requires m >= 1 && m <= 1048576 && x >= 0 && x < m
  requires int(v)*2*m - x*4294967296 < 2147483648 - 4*m && int(v)*2*m - x*4294967296 > 4*m - 2147483648
  ensures [decodes] lut.NewEncoder(m).Decode(v) == x

lemma decodeWrap(m int, v uint32)
  prop C14
  requires m >= 1 && m <= 1048576
  requires (4294967296 - int(v))*2*m < 2147483648 - 4*m
  ensures [negative noise on message 0] lut.NewEncoder(m).Decode(v) == 0

lemma encodeNear(m int, x int)
  prop C14
  requires m >= 1 && m <= 1048576 && x >= 0 && x < m
  ensures [from below] int(lut.NewEncoder(m).Encode(x))*2*m <= x*4294967296 + 2*m
  ensures [within two units] int(lut.NewEncoder(m).Encode(x))*2*m > x*4294967296 - 4*m

def red(x, m) = ite(x % m < 0, x % m + m, x % m)

lemma encodeAny(m int, x int)
  prop C14
  requires m >= 1 && m <= 1048576 && x > -1000000000000 && x < 1000000000000
  ensures [any integer] int(lut.NewEncoder(m).Encode(x))*2*m <= red(x, m)*4294967296 + 2*m && int(lut.NewEncoder(m).Encode(x))*2*m > red(x, m)*4294967296 - 4*m

func utils.F64ToTorusVec(d) r
  prop C14
  ensures fresh(r) && len(r) == len(d)
  ensures forall(i, len(d), r[i] == utils.F64ToTorus(d[i]))

func utils.GaussianTorus(mu, sd, rng) r
  prop C05 C14
  ensures [one draw] norms() == 1
  ensures r == mu + utils.F64ToTorus(norm(0)*sd)

func utils.GaussianF64(mu, sd, rng) r
  prop C05 C14
  ensures [one draw] norms() == 1
  ensures r == utils.F64ToTorus(mu) + utils.F64ToTorus(norm(0)*sd)

func utils.GaussianF64Vec(mu, sd, rng) r
  prop C05 C14
  ensures fresh(r) && len(r) == len(mu)
  ensures [one draw each] norms() == 1
  ensures forall(i, len(mu), r[i] == utils.F64ToTorus(mu[i]) + utils.F64ToTorus(norm(0, i)*sd))

// Integer messages: step 2^31/m.
func tlwe.(*TLWELv0).EncryptLWEMessage(t, x, m, alpha, key) r
  prop C05 C10
  requires len(key) == n0
  requires m >= 1 && m <= 16384 && x > -1000000000000 && x < 1000000000000
  modifies t
  ensures r == t && len(t.P) == n0+1
  ensures [one draw] norms() == 1
  let e = phase0(t.P, key) - utils.F64ToTorus(norm(0)*alpha)
  ensures [plaintext] int(e)*m <= red(x, m)*2147483648 + 2*m && int(e)*m > red(x, m)*2147483648 - 2*m

func tlwe.(*TLWELv0).DecryptLWEMessage(t, m, key) r
  prop C05 C10
  requires len(key) == n0
  requires m >= 1 && m <= 16384
  let ph = phase0(t.P, key)
  let x = int(sel(ghost("x"), 0))
  ensures [range] r >= 0 && r < m
  ensures [decodes] imp(x < m && int(ph)*m - x*2147483648 < 1073741824 - m*(m+2) && int(ph)*m - x*2147483648 > m*(m+2) - 1073741824, r == x)
  ensures [negative noise on message 0] imp((4294967296 - int(ph))*m < 1073741824 - m*(m+2), r == 0)

func bitutils.EncryptBits(bits, alpha, key) r
  prop C05 C10
  requires len(key) == n0
  ensures fresh(r) && len(r) == len(bits)
  ensures [phases] forall(i, len(bits), phase0(r[i].P, key) == ite(bits[i], uint32(0x20000000), uint32(0xe0000000)) + utils.F64ToTorus(norm(0, i)*alpha))

func bitutils.DecryptBits(cts, key) r
  prop C05 C10
  requires len(key) == n0
  ensures fresh(r) && len(r) == len(cts)
  ensures [signs] forall(i, len(cts), iff(r[i], int32(phase0(cts[i].P, key)) >= 0))
