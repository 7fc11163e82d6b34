#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording stays in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "crypto/stark/src/"
p("C01", "STARK completeness: honest proofs are produced and accepted",
  "For every constraint system and every trace that satisfies it, proving succeeds and the verifier accepts the proof for the same claim and parameters. This holds for every supported trace length, number of columns, constraint degree, row offset, blow-up factor, query count, proof-of-work difficulty and FRI layout.",
  ["inputs", "configurations", "programs"], "all constraint systems x satisfying traces x proof parameters",
  "The tests prove a handful of fixed recurrences at one or two parameter settings; completeness is a for-all over systems, sizes and parameters, and prover and verifier each have many size-dependent paths.",
  [S+"prover.rs", S+"verifier.rs", S+"constraints.rs", S+"algebraic_dag.rs", S+"trace_table.rs"],
  [("prove pipeline", S+"prover.rs: prove"), ("verification pipeline", S+"verifier.rs: verify"), ("degree accounting", S+"constraints.rs: combine, degree")],
  ["prove()", "verify()"])
p("C02", "STARK soundness: unsatisfied claims are never accepted",
  "No proof is accepted for a claim that the committed trace does not satisfy, whatever values a dishonest prover commits to, answers with or omits: trace, constraint, out-of-domain, FRI-layer, last-layer and proof-of-work deviations are each rejected (up to the negligible error of the chosen parameters). The library's own prover returns an error rather than a proof for a trace that violates any constraint at any row.",
  ["inputs", "programs", "fault_sequences"], "all traces violating some constraint, and all single deviations of a prover from the protocol, at every stage",
  "Soundness talks about provers that do not exist in the code base; no test runs a deviating prover, so dropping one of the verifier's checks leaves every test green.",
  [S+"verifier.rs", S+"prover.rs", S+"proof_of_work.rs", "crypto/merkle-tree/src/proof.rs"],
  [("Merkle openings of trace, constraints and every FRI layer", S+"verifier.rs: verify"), ("folding consistency and last layer evaluation", S+"verifier.rs: fri_fold, verify"), ("out-of-domain consistency", S+"verifier.rs: oods_value_from_trace_values, out_of_domain_element"), ("self check", S+"prover.rs: prove")],
  ["prove()", "verify()"])
p("C03", "Proof integrity: altered proofs or claims are rejected",
  "A proof that the verifier accepts is no longer accepted once any of its bits is changed, any part of it is removed, repeated or swapped, or bytes are appended (up to the negligible error of the chosen parameters). Nor is it accepted for a different claim, constraint system or proof parameters than those it was made for, as far as these differ in what is being proven.",
  ["inputs", "fault_sequences"], "all valid proofs x all byte-level alterations x all other claims",
  "The tests only verify proofs exactly as produced; every field of the proof, each position in the opening order and each parameter needs its own altered case.",
  [S+"verifier.rs", S+"channel.rs", S+"proof_of_work.rs", "crypto/merkle-tree/src/proof.rs", S+"constraints.rs"],
  [("everything read is absorbed or opened", S+"channel.rs: VerifierChannel::replay"), ("end-of-proof check", S+"verifier.rs: at_end")], ["verify()"])
p("C04", "Verifier totality: any bytes yield a verdict",
  "Verifying any byte string as a proof terminates with acceptance or an error; it never panics, hangs, or reads out of bounds, whatever the length and content of the bytes. The same holds for rendering such bytes in the Solidity exchange format, for a Merkle opening with arbitrary hashes and leaves, and for deserialising field elements, points and signatures.",
  ["inputs"], "all byte strings (truncations at every length, random and structured garbage) for every claim",
  "No test feeds the verifier anything but a well-formed proof.",
  [S+"verifier.rs", S+"channel.rs", S+"solidity_seralizer.rs", "crypto/merkle-tree/src/proof.rs", "algebra/primefield/src/convert.rs", "algebra/u256/src/encoding.rs"],
  [("proof reader", S+"channel.rs: VerifierChannel"), ("error type", S+"verifier.rs: Error")], ["verify()"])
p("C05", "Fiat-Shamir: challenges bind everything said before them",
  "Every challenge used by prover and verifier is the prescribed hash-based function of the channel seed and of all messages written before it, in protocol order, and is a uniformly sampled canonical field element or a query index in range. Prover and verifier derive identical challenges, and no message that influences verification is left out of the transcript before the challenges that must depend on it.",
  ["histories", "inputs"], "all transcripts: message sequences, draws between them, rejection-sampling paths",
  "Tests pin two transcript vectors; whether each message is absorbed before the challenge that must depend on it is a property of every prefix of every proof.",
  [S+"channel.rs", S+"prover.rs", S+"verifier.rs"],
  [("coin state", S+"channel.rs: PublicCoin"), ("prover channel", S+"channel.rs: ProverChannel"), ("verifier channel", S+"channel.rs: VerifierChannel"), ("query sampling", S+"prover.rs/verifier.rs: get_indices")],
  ["proof bytes of prove()"])
p("C06", "Proof of work: minimal valid nonce, exact difficulty, any schedule",
  "The proof-of-work nonce found is always the smallest nonce whose digest has at least the demanded number of leading zero bits, for every seed and difficulty, no matter how many threads search or how they interleave. The verifier accepts a nonce exactly when that threshold is met for the seed drawn from the transcript, so a proof with insufficient work is rejected.",
  ["schedules", "inputs", "configurations"], "all seeds, difficulties, thread counts and interleavings of the parallel search",
  "The tests solve one fixed seed; the race between search threads and the threshold boundary (one zero bit too few) are not sampled.",
  [S+"proof_of_work.rs", S+"channel.rs", S+"prover.rs", S+"verifier.rs"],
  [("parallel search with shared minimum", S+"proof_of_work.rs: Challenge::solve"), ("threshold test", S+"proof_of_work.rs: Challenge::verify")],
  ["proof bytes of prove() under different thread pools", "verify()"])
p("C07", "Proof contents: each entry is what the protocol prescribes",
  "A proof is a deterministic function of constraints, parameters and trace: every committed root, out-of-domain value, folded layer, last-layer coefficient, opened row and authentication hash is exactly the value the protocol defines for the challenges drawn, laid out in the prescribed order. The bytes do not depend on thread count, scheduling or repetition.",
  ["schedules", "inputs", "configurations"], "all runs of the prover, on any number of threads, for any small claim",
  "The tests compare one StarkWare vector and otherwise only check that verification accepts, which a matching error on both sides also satisfies.",
  [S+"prover.rs", S+"polynomial.rs", S+"trace_table.rs", S+"algebraic_dag.rs", "algebra/primefield/src/fft/mod.rs", "crypto/merkle-tree/src/tree.rs"],
  [("low-degree extension", S+"prover.rs: calculate_low_degree_extensions"), ("constraint polynomials", S+"prover.rs: get_constraint_polynomials"), ("out-of-domain quotient", S+"prover.rs: oods_combine"), ("FRI layers", S+"prover.rs: perform_fri_layering"), ("decommitment", S+"prover.rs: decommit_*")],
  ["proof bytes of prove()"])
p("C08", "Constraint expressions mean what they say on every path",
  "Building, combining, simplifying and substituting constraint expressions never changes the rational function they denote: direct evaluation, evaluation after claim substitution or substitution for the variable, and the prover's batched evaluation over the whole domain all agree with the algebraic meaning. The degree reported for an expression bounds the degree of its numerator and denominator, and the trace cells reported for it are exactly those it reads.",
  ["programs", "inputs"], "all expression trees over variable, constants, trace cells, polynomials, sums, products, inverses and powers",
  "Tests evaluate a few hand-written expressions; the compiled evaluator has special cases per node kind, period and chunk that only particular trees and sizes reach.",
  [S+"rational_expression.rs", S+"algebraic_dag.rs", S+"constraints.rs"],
  [("evaluation", S+"rational_expression.rs: evaluate"), ("degree", S+"rational_expression.rs: degree_impl"), ("compiled evaluation with periodic lookup and batch inversion", S+"algebraic_dag.rs: AlgebraicGraph")],
  ["RationalExpression methods", "prove()"])
p("C09", "The constraint checker agrees with the definition of satisfaction",
  "The debugging checker reports a trace as satisfying a constraint system exactly when every constraint, with its divisor cleared, holds on every row where it applies, and otherwise names a constraint and row that are really violated. Checking selected constraints gives the same verdict as checking all of them restricted to the selection, and the checker's verdict agrees with whether an honest proof can be made.",
  ["inputs", "programs"], "all constraint systems x all traces, satisfying and violating at any single cell",
  "Tests check one good and one bad trace; agreement is over every row, offset wrap-around and divisor.",
  [S+"constraint_check.rs", S+"rational_expression.rs", S+"traits.rs"],
  [("row-wise check", S+"constraint_check.rs: check_constraints, check_specific_constraint"), ("partial evaluation", S+"rational_expression.rs: check")],
  ["check_constraints()", "Provable::check"])
p("C10", "Component composition preserves satisfaction",
  "Placing components side by side, stacking copies of one on top of each other (for components whose constraints neither depend on the copy's claim nor read past its ends) or folding columns into rows yields a system that a combined trace satisfies exactly when each part satisfies its own constraints, and the combined trace contains each part's cells at the documented place. Trace, constraints and proofs of the composite are mutually consistent for every nesting.",
  ["programs", "inputs", "configurations"], "all nestings of horizontal, vertical and fold over base components of any power-of-two shape",
  "Tests cover one level of each combinator with one base component.",
  [S+"component/horizontal.rs", S+"component/vertical.rs", S+"component/fold.rs", S+"component/mapped.rs", S+"component/mod.rs", S+"polynomial.rs"],
  [("claim/witness routing", S+"component/*.rs"), ("cell addressing", S+"component/mod.rs: PolynomialWriter")],
  ["Component::prove/verify/check/trace"])
p("C11", "Polynomials and trace tables obey their algebra",
  "A polynomial evaluates, reports its degree, extends to a larger coset domain and has a point divided out into an accumulator at least as long exactly as its coefficient sequence says, and interpolating a trace column yields the unique low-degree polynomial through its values. Trace table cells are stored and returned without aliasing for every shape.",
  ["inputs", "histories"], "all coefficient vectors and sizes, all table shapes and write histories",
  "Property tests cover a few algebraic identities on small random polynomials; sizes, chunk boundaries and degenerate inputs are not enumerated.",
  [S+"polynomial.rs", S+"trace_table.rs"],
  [("polynomial operations", S+"polynomial.rs: DensePolynomial"), ("table layout and interpolation", S+"trace_table.rs: TraceTable")], ["DensePolynomial", "TraceTable"])
p("C12", "Solidity exports carry the same proof and system",
  "The exported proof contains precisely the values of the proof bytes, each under its field and in order, so that a reader of the export recovers the same commitments, openings and challenges. The generated verifier contracts encode the same constraints, degree adjustments, trace layout and parameters as the system they were generated from, for the systems the generator supports (row offsets from 0, inverses not nested in inverses, polynomials of powers of X): run on any point, values and coefficients, they return the combination of the constraints that the verifier computes.",
  ["inputs", "configurations", "programs"], "all proofs and constraint systems",
  "Tests only check that the export functions do not fail.",
  [S+"solidity_seralizer.rs", S+"solidity_verifier.rs"],
  [("proof export", S+"solidity_seralizer.rs: proof_serialize"), ("contract generation", S+"solidity_verifier.rs: generate")],
  ["proof_serialize()", "generate()"])
p("C13", "Advertised security and size limits are honest",
  "The advertised security level never exceeds what queries, blow-up factor and proof of work provide, and grows with each of them. The advertised maximum proof size is never exceeded by an actual proof, the default parameters are always ones the prover and verifier can run, and trace lengths that are not a power of two are refused.",
  ["configurations"], "all parameter combinations and trace sizes",
  "Only one parameter set is tested; the statements are inequalities over all configurations.",
  [S+"constraints.rs"],
  [("security estimate", S+"constraints.rs: security_bits"), ("size estimate", S+"constraints.rs: max_proof_size"), ("default layout", S+"constraints.rs: default_fri_layout")], ["Constraints"])
M = "crypto/merkle-tree/src/"
p("C14", "Merkle completeness: openings of committed values verify",
  "For every power-of-two list of leaves and every multiset of in-range positions in any order, the opening produced verifies against the root with exactly the opened leaves, and contains precisely the minimal number of hashes announced. Roots and openings do not depend on how many layers are cached or recomputed.",
  ["inputs", "configurations"], "all tree sizes, leaf values, index lists (unsorted, repeated, adjacent, empty) and cache depths",
  "Property tests sample a few sizes and index lists and no combination of cache depth with sibling merging.",
  [M+"tree.rs", M+"proof.rs", M+"commitment.rs", M+"index.rs"],
  [("tree construction", M+"tree.rs: from_leaves_skip_layers"), ("batched opening", M+"tree.rs: open"), ("opening size", M+"commitment.rs: proof_size")], ["Tree", "Proof", "Commitment"])
p("C15", "Merkle binding: wrong openings are rejected",
  "An opening verifies only for the committed leaf at each claimed position: a changed leaf, position, size, hash or root, a missing or additional hash, a swapped or missing leaf, or a second differing value for one position makes verification fail. Verification depends only on the set of claimed leaves, not on their order, and never panics.",
  ["inputs", "fault_sequences"], "all openings x all alterations of leaves, indices, hashes and root",
  "Tests only verify honest openings.",
  [M+"proof.rs", M+"commitment.rs", M+"index.rs"],
  [("opening verification", M+"proof.rs: verify"), ("index arithmetic", M+"index.rs")], ["Proof::verify"])
p("C16", "Hashing is the specified Keccak with 160-bit masking",
  "The commitment hash of any byte string is its Keccak-256 digest with the last 96 bits cleared, independently of how the input is split into updates. A number or field element hashes to its big-endian (Montgomery) encoding, a list of one element to that element's hash, and a longer list to the masked digest of its elements' hashes.",
  ["inputs", "histories"], "all byte strings of any length, all ways of feeding them, all nested values",
  "Tests fix a few digests; block-boundary lengths and update splits are unbounded.",
  ["crypto/hash/src/masked_keccak.rs", "crypto/hash/src/hashable.rs", "crypto/hash/src/hash.rs"],
  [("masked digest", "crypto/hash/src/masked_keccak.rs"), ("value hashing", "crypto/hash/src/hashable.rs")], ["MaskedKeccak", "Hashable"])
U = "algebra/u256/src/"
p("C17", "256-bit integers: ring, bit and order operations are exact",
  "Addition, subtraction, negation, multiplication, squaring, exponentiation, fused and widening variants, bitwise operations, shifts by any amount, bit queries and comparisons of 256-bit integers agree with integer arithmetic modulo 2^256 for all operands. Every borrowed, owned, in-place, mixed-width, iterator and inlined form of an operation gives the same result.",
  ["inputs", "histories"], "all operands (2^256 each) and shift amounts, and sequences of operations",
  "Random 256-bit inputs reach carry chains, limb boundaries and shift multiples of 64 with negligible probability.",
  [U+"additive.rs", U+"multiplicative.rs", U+"binary.rs", U+"u256.rs", U+"u256_traits.rs", U+"algorithms/binary_operator_macros.rs"],
  [("limb arithmetic", U+"additive.rs, multiplicative.rs"), ("shifts and masks", U+"binary.rs")], ["U256 operators"])
p("C18", "256-bit division: quotient and remainder are exact",
  "For every dividend and non-zero divisor, quotient times divisor plus remainder equals the dividend and the remainder is smaller than the divisor; for a zero divisor the fallible forms report absence. Modular multiplication of any two numbers modulo any non-zero modulus is the true residue of the full 512-bit product.",
  ["inputs"], "all dividends, divisors and moduli of one to four (eight) words",
  "The quotient-digit correction paths of long division occur with probability around 2^-64 on random inputs.",
  [U+"division.rs", U+"arch/generic/knuth_division.rs", U+"multiplicative.rs"],
  [("Knuth division", U+"arch/generic/knuth_division.rs: divrem_nby1, divrem_nbym"), ("mulmod", U+"division.rs")], ["DivRem, Div, Rem, mulmod"])
p("C19", "Greatest common divisors and modular inverses are exact",
  "The greatest common divisor and its Bezout cofactors are correct for all pairs of numbers, and the inverse modulo any modulus greater than one exists exactly when the numbers are coprime, is reduced, and multiplies to one. The inverse modulo 2^256 exists exactly for odd numbers.",
  ["inputs"], "all pairs of 256-bit numbers, including zero, equal, consecutive-Fibonacci-like and one-word operands",
  "Lehmer's algorithm switches strategy on operand size and quotient size; random pairs exercise a thin slice.",
  [U+"arch/generic/lehmer_gcd.rs", U+"division.rs", U+"u256.rs", U+"algorithms/"],
  [("Lehmer gcd", U+"arch/generic/lehmer_gcd.rs: gcd, gcd_extended, inv_mod")], ["gcd, gcd_extended, inv_mod, inverse"])
p("C20", "Encodings and conversions are faithful and reject what does not fit",
  "Every number survives conversion to and from decimal, hexadecimal, big-endian bytes, serialised form and native integer types; parsing accepts exactly the strings that denote a number in range and reports an error for every other string. Conversions to narrower native types succeed exactly when the value fits, and compile-time literals denote the number written.",
  ["inputs"], "all values and all strings, in particular around 2^256, type limits, and malformed text",
  "Round-trip tests cover random values; overflow boundaries and malformed strings are not sampled.",
  [U+"encoding.rs", U+"conversion.rs", U+"u256.rs", "algebra/primefield/src/convert.rs", "utils/macros-lib/src/lib.rs"],
  [("text parsing", U+"encoding.rs"), ("native conversions", U+"conversion.rs"), ("literals", "utils/macros-lib/src/lib.rs")], ["parsers, From/TryFrom, serde, literal macros"])
F = "algebra/primefield/src/"
p("C21", "Prime field arithmetic is exact and canonical",
  "Addition, subtraction, negation, doubling, multiplication, squaring, division and conversion in every supported prime field agree with arithmetic modulo the prime for all operands, in every operator form. Results are always in canonical reduced form, so equal field values have equal representations, hashes and encodings.",
  ["inputs", "histories"], "all pairs of field elements, in particular representations near 0, the modulus and word boundaries; all operation sequences",
  "Random field elements miss the final-subtraction and carry boundaries of Montgomery reduction.",
  [F+"prime_field.rs", F+"ops.rs", F+"proth_field.rs", U+"algorithms/montgomery/generic.rs", U+"algorithms/montgomery/proth.rs", "algebra/elliptic-curve/src/scalar_field.rs"],
  [("Montgomery reduction", U+"algorithms/montgomery/*.rs"), ("field operators", F+"prime_field.rs, ops.rs")], ["FieldElement, ScalarFieldElement operators"])
p("C22", "Field inverses, powers, roots and series are correct",
  "Inversion (single and batched), powers with any exponent, square roots, roots of unity of every order and geometric series return the mathematically defined value, and report absence exactly where none exists. Batched forms agree element-wise with single forms for every length.",
  ["inputs"], "all field elements, exponents, orders, slice lengths and iterator adaptors",
  "Tests sample random elements; residue classes, zero handling inside batches and order edge cases are for-all statements.",
  [F+"prime_field.rs", F+"invert_batch.rs", F+"geometric_series.rs", F+"traits.rs"],
  [("inversion", F+"prime_field.rs: inv"), ("batch inversion", F+"invert_batch.rs"), ("Tonelli-Shanks", F+"prime_field.rs: square_root"), ("series", F+"geometric_series.rs")], ["inv, pow, root, square_root, invert_batch, geometric_series"])
p("C23", "Fourier transforms equal the discrete Fourier transform",
  "For every power-of-two length, the forward transform returns the evaluations at all powers of the root of unity in bit-reversed order, the inverse transform undoes it, and the coset variants evaluate on the shifted domain, for any values and any number of threads. Bit-reversal and transposition are the exact permutations they name.",
  ["inputs", "configurations", "schedules"], "all lengths across the strategy switch-overs, all values, thread counts",
  "Tests compare with a reference only up to length 512, below the size at which the parallel algorithm starts.",
  [F+"fft/mod.rs", F+"fft/radix_sqrt.rs", F+"fft/recursive.rs", F+"fft/small.rs", F+"fft/transpose.rs", F+"fft/bit_reverse.rs"],
  [("recursive kernel", F+"fft/recursive.rs"), ("six-step parallel transform", F+"fft/radix_sqrt.rs"), ("permutations", F+"fft/bit_reverse.rs, transpose.rs")], ["Fft trait", "fft::permute", "transpose_square_stretch"])
p("C24", "Elliptic curve points form the curve's group in every representation",
  "Addition, subtraction, doubling, negation and scalar multiplication obey the group law of the curve for all points including the neutral element, equal and opposite points, and every scalar. Affine, projective, mixed and all windowed multiplication routines agree, and results stay on the curve.",
  ["inputs", "histories"], "all pairs of points and scalars, including exceptional cases, and sequences of operations",
  "Random points never hit the exceptional branches of mixed addition; two of the multiplication routines have no test.",
  ["algebra/elliptic-curve/src/curve.rs", "algebra/elliptic-curve/src/jacobian.rs", "algebra/elliptic-curve/src/wnaf.rs"],
  [("affine law", "algebra/elliptic-curve/src/curve.rs"), ("jacobian law", "algebra/elliptic-curve/src/jacobian.rs"), ("windowed NAF", "algebra/elliptic-curve/src/wnaf.rs")], ["Affine, Jacobian, mul, double_mul, base_mul, double_base_mul"])
p("C25", "Signatures: valid ones verify, all others do not",
  "A signature made with a private key over a digest verifies under the matching public key and that digest, is deterministic, and matches the prescribed scheme. A signature is accepted exactly when the curve equation holds, so it fails for another digest, another key or altered components (apart from negating the second component, which the equation cannot distinguish); degenerate inputs are answered with rejection, not a crash.",
  ["inputs", "fault_sequences"], "all keys, digests and signatures",
  "Tests check one signature and round trips; rejection is never tested.",
  ["crypto/elliptic-curve-crypto/src/private_key.rs", "crypto/elliptic-curve-crypto/src/public_key.rs", "crypto/elliptic-curve-crypto/src/signature.rs"],
  [("signing", "crypto/elliptic-curve-crypto/src/private_key.rs: sign"), ("verification", "crypto/elliptic-curve-crypto/src/public_key.rs: verify")], ["PrivateKey::sign, PublicKey::verify"])
p("C26", "The memory-mapped vector behaves as a bounded vector",
  "Any sequence of pushes, extensions, resizes, truncations, clears, element writes, clones and comparisons on the memory-mapped vector has the effect it has on an ordinary vector, with exceeding the fixed capacity refused and leaving the contents intact. No element is dropped twice, dropped without having been stored, or observed after being dropped.",
  ["histories", "inputs"], "all operation sequences, capacities and element types",
  "Tests run five straight-line sequences on integers and strings.",
  ["utils/mmap-vec/src/mmap_vec.rs"],
  [("raw storage with length and capacity", "utils/mmap-vec/src/mmap_vec.rs: MmapVec")], ["MmapVec"],
  [("length", "number of live elements", "MmapVec.length"), ("capacity", "fixed bound", "MmapVec.capacity")])
p("C27", "Allocation statistics are exact under concurrency",
  "After any interleaving of allocations, reallocations and releases on any number of threads, the reported live, cumulative, count and largest figures equal what the history of calls implies, and the reported peak is at least the largest live total at any completed allocation and no more than the cumulative total. Requests beyond the rejection limit fail without being counted, and logging never makes a call fail. Exactly the requests of a million bytes or more are reported in the log, at a level that rises with their size (from ten million a warning, from a hundred million an error), and reports state the amounts to three digits.",
  ["schedules", "histories"], "all interleavings of allocator calls",
  "There is no test of the statistics at all.",
  ["utils/logging-allocator/src/logging_allocator.rs", "utils/logging-allocator/src/size_bytes.rs"],
  [("reports", "utils/logging-allocator/src/logging_allocator.rs: alloc, log_statistics"), ("atomic counters", "utils/logging-allocator/src/logging_allocator.rs: alloc, dealloc, fetch_max")], ["LoggingAllocator counters"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
assert all(len(x["title"]) <= 80 for x in P), [x["title"] for x in P if len(x["title"])>80]
print(len(P))
