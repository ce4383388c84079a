import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
p("C01","Boolean gates compute their truth tables on every low-noise operand",
 "For every key pair and every combination of operand ciphertexts whose phase lies within 1/32 of the torus of +1/8 (true) or -1/8 (false), each boolean gate function (AND, OR, NAND, NOR, XOR, XNOR, ANDNY, ANDYN, ORNY, ORYN, three-operand MUX, and the bootstrap-free NOT, Copy and Constant) returns a ciphertext that decrypts to the gate's truth-table value whenever the bootstrapping noise is below 1/32. The same ciphertext object may be passed for several operands, and the key material used is exactly the one passed to the call.",
 ["inputs","configurations"],"all operand ciphertexts (all masks, all noise values inside the bound), all keys, all shipped parameter sets, aliased operands",
 "The gate tests try each truth-table row once, on fresh encryptions whose noise is ~1e-4 of the torus, at the default level only; they never reach operands with larger noise, other parameter sets or aliased operands.",
 ["gates/gates.go","evaluator/gates_helper.go","tlwe/tlwe.go"],
 [("linear preparation of each gate plus sign bootstrap","gates/gates.go, evaluator/gates_helper.go"),("torus constants","utils.F64ToTorus")],
 obs=["return values of gates.*"])
p("C02","Batch gates equal the single gates position by position, in any schedule",
 "For every batch length (zero, one, more than the number of processors) and every goroutine schedule, each batch gate returns one result per operand pair, in input order, that decrypts to the truth table of the gate with the same name, whatever the other pairs in the batch contain. No result shares storage with another result, with an operand or with pooled scratch memory that a concurrent or later batch may overwrite, and no memory is accessed by two goroutines without synchronisation when one of them writes.",
 ["inputs","schedules","histories"],"all batch sizes, all interleavings of the worker goroutines, all operand values",
 "Only BatchAND, BatchOR and BatchXOR are tested, with four pairs on fresh keys; NAND, NOR and XNOR batches have no test, and four goroutines on eight cores never recycle a pooled evaluator.",
 ["gates/gates.go","trgsw/trgsw.go","trlwe/trlwe.go"],
 [("per-index goroutines joined by a WaitGroup","gates.Batch*, trgsw.BatchBlindRotate"),("sync.Pool of polynomial evaluators","trgsw.evaluatorPool")],
 state=[dict(name="evaluatorPool",meaning="recycled polynomial evaluators and their scratch polynomials",where="trgsw/trgsw.go")],
 obs=["slices returned by gates.Batch*"])
p("C03","Bootstrapping returns the test-vector entry selected by the input phase",
 "For every input ciphertext, key pair and test vector, bootstrapping returns a level-0 ciphertext whose phase equals, up to evaluation noise, the test-vector coefficient selected by the input phase rounded to the nearest of 2N positions, negated in the second half turn. With the standard test vector this is +1/8 for a phase in (0,1/2) and -1/8 for a phase in (-1/2,0), and the allocating, in-place and batch paths compute the same function of their inputs.",
 ["inputs","configurations","histories"],"all ciphertexts, keys and test vectors, all shipped parameter sets, any earlier use of the evaluator's buffers",
 "Tests observe only the decrypted bit of a handful of bootstraps; a wrong rounding constant, rotation direction or buffer reuse shows only for particular phases or call histories.",
 ["evaluator/evaluator.go","trgsw/trgsw.go","trgsw/keyswitch.go","trlwe/trlwe.go","trlwe/trlwe_ops.go","poly/buffer_methods.go","cloudkey/cloudkey.go"],
 [("modulus switching of mask and body","evaluator.BlindRotateAssign, trgsw.BlindRotate"),("CMUX ladder over the bootstrapping key","evaluator.CMuxAssign, trgsw.CMUX"),("sample extraction and key switching","trlwe.SampleExtractIndex*, trgsw.IdentityKeySwitching*")],
 obs=["evaluator.Bootstrap*","trgsw.BlindRotate"])
p("C04","Programmable bootstrapping applies the given function to every message",
 "For every message modulus m from 1 to the polynomial degree, every function f on integers and every ciphertext whose phase is closer to the encoding of message x than half a message step minus the rounding slack of two rotation positions, the lookup table generated for f selects the encoding of f(x) reduced modulo m, including for x=0 with negative noise and for the last message. The generator's modulus switch maps every torus value to the nearest table position. The function-based, table-based, in-place and temporary variants give the same result, and a generated table can be reused, copied and cleared without changing other tables.",
 ["inputs","programs","configurations"],"all functions f, all moduli, all messages, all phases inside the stated margin, all shipped polynomial degrees",
 "Tests evaluate identity, NOT, constants and a few moduli that are powers of two on fresh encryptions, so they see only the centre of each table region.",
 ["lut/generator.go","lut/lut.go","lut/encoder.go","evaluator/programmable_bootstrap.go"],
 [("region filling, half-region rotation and negated tail","lut.Generator.GenLookUpTableAssign / GenLookUpTableFullAssign")],
 obs=["lut.Generator.*","evaluator.BootstrapFunc*, BootstrapLUT*"])
p("C05","Decryption inverts encryption for every key, mask and bounded noise",
 "For every binary key, every random mask and every noise draw smaller than the decoding margin (1/8 for booleans, half a message step for integer messages), decrypting an encryption returns the encrypted boolean, bit list or integer message reduced modulo the message modulus, at both ciphertext levels. The phase of a fresh encryption equals the encoded plaintext plus exactly one Gaussian draw scaled by the requested standard deviation.",
 ["inputs","configurations"],"all keys, all masks, all noise draws within the margin, all messages including negative and out-of-range integers, all moduli, all shipped dimensions",
 "Tests draw a few random encryptions at the default level; they cannot enumerate masks, keys or noise, nor notice a noise term applied twice, dropped or scaled wrongly.",
 ["tlwe/tlwe.go","tlwe/programmable_encrypt.go","bitutils/bitutils.go","utils/utils.go"],
 [("b = <a,s> + mu + e","tlwe.(*TLWELv0).EncryptF64, (*TLWELv1).EncryptF64"),("sign and DivRound decoding","DecryptBool, DecryptLWEMessage")],
 obs=["tlwe.*","bitutils.EncryptBits/DecryptBits"])
p("C06","Ciphertext arithmetic is exactly linear in the phase",
 "For all ciphertexts x, y, every key and every constant c, the phases of the results of add, subtract, negate, add-multiple and subtract-multiple are exactly phase(x)+phase(y), phase(x)-phase(y), -phase(x), phase(x)+c*phase(y) and phase(x)-c*phase(y) modulo 1, and element-wise multiplication multiplies every component. Results are freshly allocated and operands keep their value; the in-place addition writes only its output, which may be one of its operands.",
 ["inputs"],"all ciphertext contents, all multipliers, every aliasing of operands and output, every dimension",
 "Tests add and negate a few encryptions of booleans and look at the decrypted sign; subtraction, the multiples and aliasing are not tested.",
 ["tlwe/tlwe.go"],[("component-wise torus arithmetic over all N+1 components","tlwe.(*TLWELv0).Add/Sub/Neg/Mul/AddMul/SubMul/AddAssign")],obs=["tlwe.(*TLWELv0).*"])
p("C07","Key switching preserves the phase up to rounding and key noise",
 "For every level-1 ciphertext and every key-switching key, key switching returns the level-0 ciphertext whose phase is the input phase plus a rounding error of at most 1/2 unit of the last digit per mask component, minus the noise of the key entries actually used, where the entry used for each mask digit is the one generated for that position, level and digit. The allocating and the in-place form return identical ciphertexts, whatever the output buffer held before.",
 ["inputs","configurations"],"all ciphertexts, all key contents, all digits, all shipped (base, depth) pairs, arbitrary previous output contents",
 "Tests only see key switching at the end of a bootstrap through a sign decision with a wide margin, where a dropped low digit or an off-by-one rounding constant is absorbed.",
 ["trgsw/keyswitch.go","trgsw/trgsw.go"],[("rounded base-2^b digit decomposition and table lookup","trgsw.IdentityKeySwitching, IdentityKeySwitchingAssign")],obs=["trgsw.IdentityKeySwitching*"])
p("C08","Proxy re-encryption preserves the plaintext under the target key",
 "For every pair of keys, every ciphertext under the source key and every decomposition base and depth whose product of bits is at most 31, re-encryption with a symmetric or asymmetric re-encryption key returns a ciphertext under the target key whose phase is the source phase up to digit rounding and the noise of the entries used. Encryption under a public key yields the encoded plaintext plus a signed 0/1 combination of the public key's zero encryptions plus one fresh draw, and a public key contains the requested number of encryptions of zero.",
 ["inputs","configurations","histories"],"all keys, ciphertexts, masks, random selections, bases and depths, chains of re-encryptions",
 "Tests re-encrypt some booleans with the default base and depth; custom bases, low-order digits and the exact combination of zero encryptions are invisible to a sign test, and one chain test is flaky.",
 ["proxyreenc/proxyreenc.go"],[("digit table of encryptions of k*s_i/2^{(j+1)b}","NewProxyReencryptionKey*WithParams"),("digit decomposition and subtraction","ReencryptTLWELv0"),("random subset of zero encryptions","PublicKeyLv0.EncryptF64")],obs=["proxyreenc.*"])
p("C09","Every security level yields one coherent parameter set",
 "For every selectable security level (and any other value, which selects the 128-bit default), all parameter accessors describe the same set: ring degrees agree and are powers of two with matching logarithm, the gadget base is two to its bit count, gadget and key-switching digits fit the 32-bit torus, noise parameters used for key generation are those of the level, and the level's message modulus fits the ring degree. Accessors are pure: reading parameters changes nothing and switching level back and forth returns the same values.",
 ["configurations","histories"],"all SecurityLevel values including undefined ones, any order of switching",
 "Tests check a few fields of some levels; the cross-field constraints and the accessors' agreement for all levels and unknown values are not checked.",
 ["params/params.go"],[("per-level parameter structs and accessor switches","params.Get*")],obs=["params.GetTLWELv0/GetTLWELv1/GetTRLWELv1/GetTRGSWLv1, KSKAlpha, BSKAlpha, GetBlockCount"])
p("C10","Operations never modify operands or keys, and results stay valid",
 "No homomorphic operation, decryption, bootstrapping, table generation or re-encryption changes the value of any ciphertext, table, key or evaluation key passed to it. Ciphertexts returned by gates, batch gates, table bootstrapping and re-encryption are private to the caller: later operations on the same evaluator or package never change them, and results of the buffer-pool bootstrap stay intact for the next three bootstraps.",
 ["inputs","histories"],"all operands, all later sequences of operations",
 "Tests decrypt each result immediately and throw the operands away, so a result that aliases a recycled buffer or an operand that is overwritten is never observed.",
 ["gates/gates.go","evaluator/evaluator.go","evaluator/buffers.go","evaluator/programmable_bootstrap.go","poly/buffer_methods.go","trgsw/trgsw.go"],
 [("copy out of the result pool","gates.bootstrap, evaluator.BootstrapLUT"),("round-robin result pool of four","evaluator.BufferPool.GetNextResult")],
 state=[dict(name="ResultPool",meaning="round-robin result ciphertexts",where="evaluator/buffers.go")],obs=["all exported functions taking ciphertexts or keys"])
p("C11","Polynomial products are negacyclic convolutions",
 "For every supported power-of-two degree, multiplying two torus/integer polynomials through the Fourier domain computes their product modulo X^N+1 up to floating-point rounding: transforming forth and back is the identity, the product, multiply-add and multiply-subtract forms agree with schoolbook negacyclic multiplication (as exact real-valued maps: rounding of the floating-point operations is the only deviation), and inputs documented as read-only are unchanged. All unchecked pointer accesses stay inside the polynomial buffers.",
 ["inputs","configurations"],"all polynomial coefficients, all degrees 16..2048, every element of every buffer",
 "The FFT round trip is tested on one polynomial with tolerance 10 and multiplication is only run, its result is never compared.",
 ["poly/fourier_transform.go","poly/fourier_ops.go","poly/poly_mul.go","poly/poly_evaluator.go"],[("folded complex FFT with twiddle tables","poly.fftInPlace, ifftInPlace, genTwiddleFactors"),("element-wise complex arithmetic","poly/fourier_ops.go")],obs=["poly.Evaluator.*"])
p("C12","Evaluation keys encode the secret key they were generated from",
 "For every secret key and every random draw, the generated cloud key holds at each key-switching position an encryption under the level-0 key of digit*s_i/2^{level*base bits}, at each bootstrapping position a gadget encryption of the i-th level-0 key bit under the level-1 key, the constant 1/8 test vector and the gadget rounding offset; secret keys are binary and have the level's dimensions. Key generation is deterministic in structure under every goroutine schedule: every position is written exactly once by exactly one worker before the key is returned.",
 ["inputs","schedules","configurations"],"all secret keys, all random draws, all goroutine interleavings, all shipped parameter sets",
 "A key entry that is wrong or missing contributes rarely or adds a small error; tests only see the sign after one bootstrap.",
 ["cloudkey/cloudkey.go","key/key.go","trgsw/trgsw.go"],[("parallel key generation joined by WaitGroups","cloudkey.genKeySwitchingKey, genBootstrappingKey"),("gadget rows p/Bg^i","trgsw.(*TRGSWLv1).EncryptTorus")],obs=["cloudkey.NewCloudKey","key.NewSecretKey"])
p("C13","Ring ciphertexts decrypt and extract coefficient by coefficient",
 "For every level-1 ring ciphertext, key and index k, the sample extracted at k has, up to the documented one-unit error per mask component, the phase of coefficient k of the ring phase, and decrypting a ring encryption returns the encrypted booleans for every noise below 1/8. The allocating and in-place extractions return identical ciphertexts.",
 ["inputs","configurations"],"all ring ciphertexts, all indices k in [0,N), all keys, masks and noise below the margin",
 "Only index 0 is ever extracted by the gates and no test covers ring encryption or other indices.",
 ["trlwe/trlwe.go","trlwe/trlwe_ops.go"],[("index reversal with negation","trlwe.SampleExtractIndex*, SampleExtractIndex2"),("b = a*s + mu + e","trlwe.(*TRLWELv1).EncryptF64")],obs=["trlwe.*"])
p("C14","Conversions between integers, bits, torus and encodings are inverse",
 "For every 8, 16, 32 and 64-bit integer, converting to bits and back returns the integer, least significant bit first, and bit lists of other lengths convert positionally; every torus value survives conversion to floating point and back, and every real number converts to the torus element nearest below its fractional part in magnitude. Encoding a message (any integer, reduced modulo the modulus) and decoding the result, with any error below half a step (less two torus units), returns the reduced message for every modulus up to 2^20.",
 ["inputs"],"all integers, all bit-list lengths, all torus values, all moduli up to 2^20, all messages including negative ones",
 "Tests convert a few sample values and moduli.",
 ["bitutils/bitutils.go","utils/utils.go","lut/encoder.go"],[("bit loops","bitutils.ToBits, ConvertU*"),("fraction scaling","utils.F64ToTorus, TorusToF64"),("scaled rounding","lut.Encoder.Encode/Decode")],obs=["bitutils.*","utils.*","lut.Encoder.*"])
p("C15","Gadget decomposition, external product and CMUX are exact up to key noise",
 "For every torus polynomial the gadget digits lie in the balanced range of the base and recompose to the input with an error smaller than one unit of the last gadget level. For every ring ciphertext and gadget ciphertext of a bit, the external product is the sum over gadget rows of digit polynomial times row, and CMUX of two ciphertexts equals the first plus the external product of the selector with their difference; both implementations agree and give the first operand for an encryption of 0 and the second for 1, even when the output is the first operand.",
 ["inputs","configurations","histories"],"all polynomials, all gadget ciphertexts, all aliasing patterns used, all shipped gadget parameters, arbitrary previous buffer contents",
 "Digits and partial products are internal; tests only see the final sign, which hides a dropped level, a wrong digit range or stale buffer contents in most runs.",
 ["poly/decomposer.go","trgsw/trgsw.go","evaluator/evaluator.go","cloudkey/cloudkey.go"],[("offset-and-mask digit extraction","poly.DecomposePolyAssign, trgsw.decompositionInPlace"),("Fourier accumulation over 2L rows","ExternalProductAssign, ExternalProductWithFFT")],obs=["evaluator.ExternalProductAssign/CMuxAssign","trgsw.ExternalProductWithFFT/CMUX"])
p("C16","Rotation by X^k is negacyclic for every k and never aliases live data",
 "For every polynomial of degree N and every integer k, positive, negative or beyond 2N, multiplication by X^k moves coefficient i to position i+k modulo N and negates it (up to the documented one-unit error) once per wrap, leaving the input unchanged. Buffers handed out by the rotation and ciphertext pools stay distinct from the most recent three handed out, for every call history.",
 ["inputs","histories"],"all coefficients, all integers k, all lengths, all sequences of pool requests",
 "Rotation amounts in tests are those of a few random ciphertexts and results are only seen as a sign; negative k and multiples of N are not tested.",
 ["poly/buffer_methods.go","poly/buffer_manager.go"],[("two-segment copy with sign","poly.PolyMulWithXKInPlace, Evaluator.PolyMulWithXK"),("round-robin pools","poly.Evaluator.GetRotationBuffer, GetTRLWEBuffer, BufferManager.Get*")],obs=["poly.PolyMulWithXKInPlace, poly.Evaluator.PolyMulWithXK*"])
p("C17","Any level can be selected at run time and evaluators can be copied",
 "After any sequence of security-level selections, gates, batch gates and bootstrapping with keys generated at the currently selected level run without panicking and use buffers of that level's dimensions. A shallow copy of an evaluator has buffers of the same dimensions as the original, shares no mutable memory with it, and therefore gives the same results when both are used concurrently.",
 ["configurations","histories","schedules"],"all sequences of level selections, all shipped levels, all interleavings of original and copy",
 "Every test binary that uses gates stays at the default level, and no test copies an evaluator.",
 ["gates/gates.go","evaluator/evaluator.go","evaluator/buffers.go","trgsw/trgsw.go","poly/poly_evaluator.go"],[("evaluator construction and copying","evaluator.NewEvaluator, ShallowCopy, poly.Evaluator.ShallowCopy"),("package-level evaluator and evaluator pool","gates.globalEval, trgsw.evaluatorPool")],
 state=[dict(name="globalEval",meaning="evaluator shared by the single gates",where="gates/gates.go")],obs=["gates.*","evaluator.ShallowCopy"])
p("C18","Keys and masks carry the entropy of the claimed security level",
 "Secret keys, masks and noise are drawn from a generator whose output cannot be predicted or enumerated with less work than the claimed security level, and no two encryptions reuse a mask.",
 ["inputs","histories"],"all adversaries and all sequences of encryptions","Unpredictability is a statement about all efficient observers; tests only check correctness.",
 ["key/key.go","tlwe/tlwe.go","trlwe/trlwe.go","proxyreenc/proxyreenc.go"],[("math/rand sources seeded by a 63-bit value","key.NewSecretKey, EncryptF64")],obs=["generated keys and ciphertexts"])
p("C19","Decryption failure stays below the documented probability",
 "At each security level the probability that a gate or programmable bootstrap on fresh or bootstrapped operands decrypts to the wrong value stays below the level's documented failure rate.",
 ["inputs"],"the probability space of keys, masks and noise","A failure rate far below 1e-6 cannot be sampled by a test suite.",
 ["params/params.go"],[("noise parameters","params")],obs=["decryption results"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import sys
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    print(x['id'],x['statement'].count('. ')+1)
