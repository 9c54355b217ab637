HOOKS = None

prop("S01", "Shamir: any degree+1 shares reconstruct exactly the shared value",
     "Sharing a field element, a vector of field elements or a curve point among n parties with degree d gives one share per party, and combining the shares of any d+1 or more parties, in any order, returns exactly the shared value. Combining fewer than d+1 shares, a different number of shares and indices, or ragged vectors returns an error. The interpolation helpers (Lagrange coefficients, precomputed polynomials, polynomials with prescribed roots) agree with polynomial interpolation over the field.",
     ["inputs", "configurations"], "for every secret, every randomness, every subset of d+1 parties, every (n, d) within the bounds",
     TESTS + "correctness must hold for every secret, polynomial and subset of parties.",
     ["mpc-core/src/protocols/shamir.rs", "mpc-core/src/protocols/shamir/poly.rs"],
     [("sharing polynomial and evaluation", "mpc-core/src/protocols/shamir.rs"),
      ("Lagrange coefficients at zero", "mpc-core/src/protocols/shamir.rs")])

prop("S02", "Shamir: d or fewer shares reveal nothing about the shared value",
     "The shares that any d of the n parties obtain when a field element, vector of field elements or curve point is shared with degree d are distributed independently of the shared values, for every value and every coalition. All elements of a shared vector use independent randomness.",
     ["inputs", "configurations"], "for every secret, every coalition of at most d parties, every (n, d) within the bounds",
     TESTS + "a test cannot observe that a distribution is independent of the secret.",
     ["mpc-core/src/protocols/shamir.rs"],
     [("fresh uniform coefficients for every sharing", "mpc-core/src/protocols/shamir.rs")])

prop("S03", "Shamir: arithmetic on shares computes the arithmetic on the values",
     "For valid degree-t sharings of any values, every arithmetic operation on shares (addition, subtraction, negation, public-operand variants, multiplication and its vector form, multiply-and-open, inversion, division, opening, promotion of public values) leaves all n parties with a valid degree-t sharing of, or the opened value of, the same operation on the underlying field elements. Inverting or dividing by a sharing of zero returns an error at every party.",
     ["inputs", "configurations"], "for every operand value, every sharing polynomial and all protocol randomness, with n parties and threshold t within the bounds",
     TESTS + "and cover only some operations at n=3; the result must be right for every operand, sharing and randomness, including consistency of all parties' shares.",
     ["mpc-core/src/protocols/shamir/arithmetic.rs", "mpc-core/src/protocols/shamir/network.rs", "mpc-core/src/protocols/shamir.rs"],
     [("degree reduction by random double sharings", "mpc-core/src/protocols/shamir.rs"),
      ("share arithmetic", "mpc-core/src/protocols/shamir/arithmetic")])

prop("S04", "Shamir: correlated randomness is valid, fresh and never reused",
     "Preprocessing leaves the n parties with pairs of degree-t and degree-2t sharings of the same uniformly random value, of which no pair, random value or forked state is handed out twice, and which no t parties know anything about. Running out of preprocessed pairs yields new valid pairs, and thresholds or party counts that do not allow multiplication are refused.",
     ["inputs", "configurations", "histories"], "for all randomness of all parties, any use/fork pattern within the bounds, (n, t) within the bounds",
     TESTS + "reuse, correlation or an off-degree pair does not show in results.",
     ["mpc-core/src/protocols/shamir.rs", "mpc-core/src/protocols/shamir/rngs.rs", "mpc-core/src/protocols/shamir/network.rs"],
     [("randomness extraction with a Vandermonde matrix", "mpc-core/src/protocols/shamir/rngs.rs"),
      ("pair buffer and fork", "mpc-core/src/protocols/shamir.rs")])

prop("S05", "Shamir: protocol messages reveal nothing but the opened results",
     "In every interactive Shamir operation (multiplication, inversion, division, openings, preprocessing), everything a coalition of up to t parties receives can be produced from that coalition's own shares and the values the operation opens (openings of sharings of degree t), so it learns nothing else about the operands. In particular multiply-and-open reveals the product but not its factors.",
     ["inputs", "configurations"], "for all operand values, sharings and randomness, every coalition of t parties, (n, t) within the bounds",
     "Tests look at outputs, never at what the transcript discloses; a leak changes no result.",
     ["mpc-core/src/protocols/shamir/arithmetic.rs", "mpc-core/src/protocols/shamir.rs", "mpc-core/src/protocols/shamir/network.rs"],
     [("masking before opening", "mpc-core/src/protocols/shamir/arithmetic.rs"),
      ("degree reduction through the king party", "mpc-core/src/protocols/shamir.rs")],
     technique=SYM + ", perfect simulation by solver-checked coupling")

prop("S06", "Shamir: point-share operations compute the group operation",
     "For valid degree-t sharings of curve points and scalars, every point-share operation (addition, subtraction, in-place and public-operand variants, scalar multiplication with a public or shared scalar or point, multi-scalar multiplication over public points, promotion, conversions, single and batched openings, half openings of degree-2t products, mixed point-and-field openings) leaves all n parties with a valid degree-t sharing of, or the opened value of, the same operation on the underlying points.",
     ["inputs", "configurations"], "for every point, scalar, sharing polynomial and all protocol randomness, with n parties and threshold t within the bounds",
     "Only few of the operations have tests, at n=3 with random values; the result must be right for every operand, sharing and party.",
     ["mpc-core/src/protocols/shamir/pointshare.rs", "mpc-core/src/protocols/shamir/pointshare/ops.rs", "mpc-core/src/protocols/shamir/network.rs"],
     [("point-share operations", "mpc-core/src/protocols/shamir/pointshare.rs"),
      ("degree reduction of point shares", "mpc-core/src/protocols/shamir/network.rs")])

prop("S07", "Shamir: evaluating a shared polynomial equals plain evaluation",
     "Evaluating a polynomial whose coefficients are Shamir-shared at any public point gives shares of the plain polynomial's value at that point, for every number of coefficients (at least one) and whatever the polynomial's trailing zero coefficients are.",
     ["inputs"], "for every coefficient and evaluation point, coefficient counts within the bounds",
     "No unit test evaluates a shared polynomial in the available build, and special points and lengths (0, chunk boundaries of the parallel evaluation) decide correctness.",
     ["mpc-core/src/protocols/shamir/poly.rs", "mpc-core/src/protocols/shamir/arithmetic.rs"],
     [("Horner evaluation, chunked in parallel for long polynomials", "mpc-core/src/protocols/shamir/poly.rs")])

prop("P01", "Poseidon2: the plain permutation is the specified one",
     "For every state, the plain Poseidon2 permutation computes the Poseidon2 specification (initial external linear layer; external and internal rounds with the instance's constants, S-box x^d and the specified matrices), in all in-place, by-value, packed and component forms; the bundled BN254 instances have the round constants that the specification's generator yields, and the specified round numbers and matrices.",
     ["inputs"], "for every state (and, for the components, every constant), state sizes T in {2,3,4,8,12,16} and S-box degrees within the bounds",
     "Tests compare one or two known answers and random states; an error that needs particular values, or one in the unused forms and sizes, passes them.",
     ["mpc-core/src/gadgets/poseidon2/poseidon2_permutation.rs", "mpc-core/src/gadgets/poseidon2"],
     [("external and internal linear layers, S-box, round schedule", "mpc-core/src/gadgets/poseidon2/poseidon2_permutation.rs"),
      ("bundled constants", "mpc-core/src/gadgets/poseidon2")])

prop("P02", "Poseidon2: the Shamir permutation equals the plain one for every input",
     "For valid degree-t sharings of any state, the Shamir permutations (with and without precomputed randomness, single and packed over several states) leave all n parties with valid degree-t sharings of the plain permutation of the state, consume exactly the preprocessed pairs they announce, and refuse mismatching sizes.",
     ["inputs", "configurations"], "for every state, sharing and (per round) all protocol randomness; (n, t), state size and number of packed states within the bounds",
     "Tests run random states for n=3, one state at a time; rarely used forms and other n are untested, and shares can be inconsistent for parties the test never combines.",
     ["mpc-core/src/gadgets/poseidon2/shamir.rs", "mpc-core/src/gadgets/poseidon2/poseidon2_permutation.rs"],
     [("S-box by precomputed powers of a random mask", "mpc-core/src/gadgets/poseidon2/shamir.rs")])

prop("P03", "Merkle trees: roots and paths are as defined; only true paths verify",
     "The plain Merkle root (sponge and compression mode) over any leaves is the tree hash of these leaves with the node function defined from the permutation; the path returned for any leaf verifies against this root, and verification accepts exactly the paths that hash to the root, whatever the leaf, the siblings and the positions are.",
     ["inputs"], "for all leaves, siblings and positions; arities, depths and state sizes within the bounds",
     "Tests check a few random trees, and never that a wrong leaf, sibling, position or root is rejected for all values.",
     ["mpc-core/src/gadgets/merkle_tree/mod.rs", "mpc-core/src/gadgets/poseidon2"],
     [("node hashing in sponge and compression mode, path verification", "mpc-core/src/gadgets/poseidon2")])

prop("P04", "Merkle trees: the Shamir root equals the plain root",
     "The Merkle root that n parties compute over Shamir-shared leaves (sponge and compression mode, every arity) is a valid sharing of the plain Merkle root of these leaves.",
     ["inputs", "configurations"], "for all leaves and sharings; arity, depth, (n, t) within the bounds",
     "Tests cover random leaves for n=3 only.",
     ["mpc-core/src/gadgets/poseidon2/shamir.rs", "mpc-core/src/gadgets/poseidon2"],
     [("level-wise packed hashing of shared nodes", "mpc-core/src/gadgets/poseidon2/shamir.rs")])

prop("P05", "Poseidon2 and Merkle trees on Shamir shares reveal nothing",
     "While n parties compute Poseidon2 permutations (with and without precomputation, packed or one at a time) or Merkle roots over Shamir shares, everything a coalition of up to t parties receives can be produced without the shared inputs: every message is masked by randomness used nowhere else, so neither the inputs nor any intermediate state leak.",
     ["inputs", "configurations"], "for all inputs, sharings and randomness, every coalition of t parties; state size, rounds, number of permutations and leaves, (n, t) within the bounds",
     "A mask used twice, or a message that is not masked, changes no result that a test compares.",
     ["mpc-core/src/gadgets/poseidon2/shamir.rs", "mpc-core/src/protocols/shamir/arithmetic.rs"],
     [("S-box on a masked value, mask powers precomputed", "mpc-core/src/gadgets/poseidon2/shamir.rs")],
     technique=SYM + ", perfect simulation by solver-checked coupling")

prop("G01", "Groth16: the QAP witness maps compute the quotient polynomial",
     "For every satisfying assignment, the libsnark reduction computes the coefficients of the quotient of A(x)B(x) - C(x) by the domain's vanishing polynomial, and the circom reduction the values of A(x)B(x) - C(x) on the odd coset of the domain (what the key's h_query is for). On Shamir shares, the n parties' results are a valid sharing of degree 2t of the plain result. The number of worker threads does not matter.",
     ["inputs", "configurations"], "for all witness values and public inputs (and, for one constraint, all coefficients), number of constraints, public inputs and worker threads within the bounds",
     "Tests prove a few fixed circuits and witnesses; domain padding, missing rows and sharings are sampled at one shape each.",
     ["co-circom/co-groth16/src/mpc.rs", "co-circom/co-groth16/src/groth16.rs", "co-circom/co-groth16/src/groth16/reduction.rs"],
     [("FFT pipeline of the witness map", "co-circom/co-groth16/src/groth16/reduction.rs"),
      ("constraint evaluation on plain and shared values", "co-circom/co-groth16/src/mpc")])

prop("G02", "Groth16: the proof is the Groth16 formula, for every key and witness",
     "For every proving key and witness, the plain prover and the Shamir provers output A, B, C as Groth16 defines them from the key, the witness, the quotient and two blinders; all n parties output the same proof; a witness or key of the wrong size is refused.",
     ["inputs", "configurations"], "for every key element, witness value, public input, sharing and all randomness; circuit shapes and (n, t) within the bounds",
     "Tests only verify a proof for one honest key at n=3: an error in a term that this key or witness hides passes.",
     ["co-circom/co-groth16/src/groth16.rs", "co-circom/co-groth16/src/mpc/shamir.rs", "co-circom/co-groth16/src/mpc/plain.rs"],
     [("proof assembly, multi-scalar multiplications on half shares", "co-circom/co-groth16/src/groth16.rs")])

prop("G03", "Groth16: honest proofs verify; verify accepts exactly valid ones",
     "Every proof the plain and Shamir provers output for a satisfying witness under an honest key is accepted for its public inputs, and for an unsatisfying witness refused; verify accepts a proof exactly when the number of public inputs is the key's and the Groth16 pairing equation holds.",
     ["inputs"], "for all witnesses, public inputs, key trapdoors, proof elements and randomness; circuit shapes and number of public inputs within the bounds",
     "Tests verify correct proofs for fixed circuits; soundness of the verifier concerns all proofs, keys and inputs.",
     ["co-circom/co-groth16/src/verifier.rs", "co-circom/co-groth16/src/groth16.rs"],
     [("pairing equation over the prepared public inputs", "co-circom/co-groth16/src/verifier.rs")])

prop("G04", "Groth16: published proofs hide the witness",
     "A proof the plain or Shamir provers publish is blinded with two uniform values that are fresh for every proof, unknown to every coalition of up to t parties, and used nowhere else: proofs for two different witnesses of the same public inputs have the same distribution, also together with earlier proofs for the same key.",
     ["inputs"], "for all witnesses and randomness; two proofs for one key; circuit and (n, t) within the bounds",
     "A blinder that is missing, reused or known changes nothing a verification test can see.",
     ["co-circom/co-groth16/src/groth16.rs", "co-circom/co-groth16/src/mpc/shamir.rs"],
     [("blinders r and s", "co-circom/co-groth16/src/groth16.rs")],
     technique=SYM + ", perfect simulation by solver-checked coupling")

prop("C01", "Circom inputs and witnesses: every party gets the given values",
     "Splitting a JSON input for Shamir parties gives every party the same entries: each name, or for arrays name[i] in flattened order, where unknown entries are left out but counted; the entries of public names hold the given value in the clear, those of all others a valid degree-t sharing of it, with signs, hexadecimal notation and booleans honoured and malformed values refused. Splitting a witness gives each party the public part unchanged and valid sharings of the rest; a batched witness unbatches into its individual witnesses, and inconsistent batches are refused.",
     ["inputs", "configurations"], "for all field values and randomness, JSON shapes, numbers of parties and degrees within the bounds",
     "No unit test in the available build covers input splitting; shapes with unknown or nested entries and the shares of all parties must be right for every value.",
     ["co-circom/co-circom-types/src/lib.rs"],
     [("input parsing and splitting, witness sharing, unbatching", "co-circom/co-circom-types/src/lib.rs")])

prop("C02", "Circom inputs and witnesses: shares reveal nothing to t parties",
     "What any t parties get when inputs or a witness are split for Shamir parties is distributed independently of all values that are not public, also of repeated values and of relations between them.",
     ["inputs", "configurations"], "for all values and randomness, every coalition of t parties; shapes, numbers of parties and degrees within the bounds",
     "Shares that reuse randomness reconstruct correctly.",
     ["co-circom/co-circom-types/src/lib.rs", "mpc-core/src/protocols/shamir.rs"],
     [("fresh polynomial for each value", "co-circom/co-circom-types/src/lib.rs")],
     technique=SYM + ", perfect simulation by solver-checked coupling")

prop("K01", "PLONK: an honest proof verifies",
     "For every satisfying witness of a circuit, with or without public inputs, additions, unused rows and all selectors, the PLONK prover returns a proof, and that proof fulfils the PLONK verification equation under the challenges of snarkjs' transcript and is accepted by verify.",
     ["inputs"], "for every value of one signal at a time, all prover randomness, every trusted-setup secret; circuits, domains of 8 and 16 within the bounds",
     "Tests prove two fixed circuits with one witness each: a wrong term at an edge of the domain, for a selector they do not use or a circuit without public inputs goes unnoticed.",
     ["co-circom/co-plonk/src/lib.rs", "co-circom/co-plonk/src/round1.rs", "co-circom/co-plonk/src/round2.rs", "co-circom/co-plonk/src/round3.rs", "co-circom/co-plonk/src/round4.rs", "co-circom/co-plonk/src/round5.rs", "co-circom/co-plonk/src/types.rs"],
     [("permutation and quotient polynomials", "co-circom/co-plonk/src/round2.rs, round3.rs"),
      ("linearisation and opening proofs", "co-circom/co-plonk/src/round5.rs")])

prop("K02", "PLONK: verify accepts exactly valid proofs",
     "PLONK verify accepts a proof exactly when the number of public inputs is the key's and the PLONK verification equation holds for challenges that hash, in snarkjs' order, the whole verification key, all public inputs and all proof elements before them.",
     ["inputs"], "for every verification key, proof and public inputs; number of public inputs and domain size within the bounds",
     "Tests verify valid proofs only; a verifier that leaves out a term, a public input or a transcript entry accepts those as well.",
     ["co-circom/co-plonk/src/plonk.rs", "co-circom/co-plonk/src/types.rs", "co-circom/co-plonk/src/lib.rs"],
     [("challenges, linearisation commitment and pairing check", "co-circom/co-plonk/src/plonk.rs")])

prop("K03", "PLONK: the parties of a Shamir proof obtain one valid proof",
     "When n parties with Shamir shares of a satisfying witness run the PLONK prover, all n succeed, return the same proof, and that proof fulfils the verification equation and is accepted by verify.",
     ["inputs", "configurations"], "for every value of one private signal at a time; circuits and (n, t) within the bounds",
     "Tests prove fixed circuits with three parties; other numbers of parties and circuit shapes use other randomness budgets and recombination vectors.",
     ["co-circom/co-plonk/src/mpc/shamir.rs", "co-circom/co-plonk/src/lib.rs", "co-circom/co-plonk/src/round2.rs", "co-circom/co-plonk/src/round3.rs"],
     [("array products, masks and state forks", "co-circom/co-plonk/src/mpc/shamir.rs, round2.rs, round3.rs")])

prop("K04", "PLONK: a published proof hides the witness",
     "A proof of the plain PLONK prover is blinded with eleven independent uniform values, so that its commitments and evaluations are distributed the same for any two witnesses with the same public inputs; the opening proofs add nothing that does not follow from them.",
     ["inputs"], "for every value of one private signal at a time and all blinders; circuits within the bounds",
     "A blinder that is missing or used twice changes nothing a verification test can see.",
     ["co-circom/co-plonk/src/round1.rs", "co-circom/co-plonk/src/round2.rs", "co-circom/co-plonk/src/round3.rs", "co-circom/co-plonk/src/lib.rs"],
     [("eleven blinders", "co-circom/co-plonk/src/round1.rs, round2.rs, round3.rs")],
     technique=SYM + ", perfect simulation by solver-checked coupling")

prop("K05", "PLONK: a witness of the wrong size or a malformed key is refused",
     "The plain and the Shamir PLONK provers return an error, and neither panic nor produce a proof, when the number of public or private values is not the circuit's, when a wire or an addition refers to a signal that does not exist, and when the domain size is not a power of two.",
     ["inputs"], "for all witness values; numbers of values, wires and domain sizes within the bounds",
     "Tests run the prover on well-formed inputs only.",
     ["co-circom/co-plonk/src/round1.rs", "co-circom/co-plonk/src/lib.rs", "co-circom/co-plonk/src/types.rs"],
     [("witness lookup", "co-circom/co-plonk/src/lib.rs"), ("additions", "co-circom/co-plonk/src/round1.rs")])
