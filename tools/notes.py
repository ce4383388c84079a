NOTE = {
 "C01": "Every gate: the pooled-free result is the bootstrapping, under exactly the key material passed in, of a combination whose phase lies on the truth table's side of the torus for every row, for all operands, keys and evaluator histories, at all levels.",
 "C09": "Every accessor against the documented table for an arbitrary (symbolic) level number, coherence clauses, frame conditions: reading changes nothing.",
 "C14": "Torus/float/encoder conversions for all values (integer/real arithmetic back end); bit lists for all values at every length up to 130 (bounded in the length only).",
 "C10": "Frame conditions of every function under contract: operands, keys, package state unchanged.",
 "C11": "Both transforms, the spectral products and the allocating and in-place product forms: the transforms' real SSA is executed on symbolic linear forms at every power-of-two degree 16..4096, every coefficient and every unchecked pointer access; floating-point rounding bounded by a tolerance, not by a worst-case proof.",
 "C04": "Table generation executed for every message modulus 1..N with an arbitrary function, inspected at every rotation position; programmable bootstrapping, all variants, as the bootstrapping of exactly that table; copies and clearing.",
 "C08": "Re-encryption against the digit-sum specification for every decomposition base and depth; both key generators (symmetric and public-key) entry by entry for every base and depth; public keys and public-key encryption as signed combinations with one noise draw; digit rounding lemma.",
 "C12": "Secret keys, ring and gadget encryptions, key-switching and bootstrapping keys for every secret key and random draw at all levels, goroutine writes joined and disjoint.",
 "C17": "Gates from any selected level and history, evaluator copies: structure, dimensions, sharing and tables, for all levels and prior levels.",
 "C02": "Every batch gate at every position, for any batch length, all operands and keys, pooled evaluators in every state an earlier batch at any level can leave; goroutine accesses checked for conflicts, results for privacy.",
 "C03": "Blind rotation (both implementations), extraction and key switching verified for all inputs at all eleven levels against the fold of CMUX steps; Fourier transforms through their contracts.",
 "C05": "Encryption phase equations and boolean decoding for all keys, masks and noise draws at all levels.",
 "C06": "All ciphertext arithmetic, component and phase equations, for all inputs and levels.",
 "C07": "Both key-switching forms against the same specification for all inputs and levels.",
 "C13": "Both extraction forms for all inputs, indices and levels.",
 "C15": "Decomposition, external product and CMUX, both implementations, all inputs, all levels; Fourier transforms through their contracts.",
 "C16": "Rotation for every integer k and every polynomial at all levels.",
}
NA = {
 "C18": "Entropy of math/rand seeds is a statement about an attacker's work, not a relation between program states that a contract can express; the code's use of math/rand is noted in DESIGN.md.",
 "C19": "A probability bound over the noise distribution; the contracts treat every noise draw as arbitrary and cannot express probabilities.",
}
for p in []:
    NA[p] = "Check under construction."
