#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth: this list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

# ---------------------------------------------------------------- STARK system
p("S01", "Every valid trace gets a proof that verifies",
  "For every PIL program and every committed trace that satisfies it (polynomial identities, lookups, permutations, connections and public values, with current-row and next-row references), setup followed by proving succeeds and the verifier accepts the resulting proof. This holds for each of the three commitment hashes (GL, BN128, BLS12381), every legal blow-up factor, query count and FRI folding schedule. The proof reports exactly the public values the trace defines.",
  ["programs", "inputs", "configurations"], "all satisfied AIRs over Goldilocks, all legal stark structs, all hash back ends",
  "The suite proves half a dozen fixed PIL files with one fixed stark struct each; the code generator, expression map, degree reduction, Z polynomials and FRI schedule are never exercised on other programs.",
  ["starky/src/stark_gen.rs", "starky/src/stark_verify.rs", "starky/src/starkinfo.rs", "starky/src/starkinfo_codegen.rs", "starky/src/starkinfo_cp_prover.rs", "starky/src/starkinfo_cp_ver.rs", "starky/src/starkinfo_fri_prover.rs", "starky/src/starkinfo_fri_ver.rs", "starky/src/starkinfo_map.rs", "starky/src/starkinfo_Z.rs", "starky/src/interpreter.rs", "starky/src/stark_setup.rs", "starky/src/fri.rs"],
  [("code generation from PIL", "starky/src/starkinfo.rs"), ("prover", "starky/src/stark_gen.rs stark_gen"), ("verifier", "starky/src/stark_verify.rs stark_verify")],
  ["StarkSetup::new", "StarkProof::stark_gen", "stark_verify"])
p("S02", "A trace that breaks a constraint never yields an accepted proof",
  "If a committed trace violates any constraint of its PIL program (a polynomial identity on any row including the last-to-first wrap, a lookup, a permutation, a connection, or a public-value binding), then proving fails or the verifier rejects the produced proof. Violations confined to a single cell or a single row are detected like any other.",
  ["programs", "inputs"], "all PIL programs and all unsatisfying traces of them",
  "No existing test proves an invalid trace at all; tests only check that honest proofs are accepted.",
  ["starky/src/stark_gen.rs", "starky/src/stark_verify.rs", "starky/src/starkinfo_cp_prover.rs", "starky/src/starkinfo_cp_ver.rs", "starky/src/starkinfo.rs", "starky/src/starkinfo_codegen.rs", "starky/src/fri.rs"],
  [("constraint polynomial and quotient check", "starky/src/stark_verify.rs"), ("H1/H2 and Z construction", "starky/src/stark_gen.rs")],
  ["StarkProof::stark_gen", "stark_verify"])
p("S03", "Any altered proof, public input or constant root is rejected",
  "Changing any single component of an accepted proof (a public value, a committed root, an evaluation at the challenge point, an opened leaf, a Merkle sibling, a coefficient of the last FRI polynomial, a FRI layer root or opening), dropping or swapping components, or verifying against a different constant-polynomial root or a different program, makes the verifier reject. The verifier draws its challenges and query positions only from the proof transcript, never from prover-chosen data.",
  ["inputs", "fault_sequences"], "all accepted proofs and all single-component alterations of them",
  "No existing test feeds the verifier a modified proof, so any check removed from the verifier goes unnoticed.",
  ["starky/src/stark_verify.rs", "starky/src/fri.rs", "starky/src/merklehash.rs", "starky/src/merklehash_bn128.rs", "starky/src/merklehash_bls12381.rs", "starky/src/starkinfo_cp_ver.rs", "starky/src/starkinfo_fri_ver.rs"],
  [("transcript replay, quotient check, FRI verification", "starky/src/stark_verify.rs stark_verify; starky/src/fri.rs verify")],
  ["stark_verify"])
p("S04", "FRI accepts low-degree codewords and rejects everything else",
  "For every polynomial within the degree bound, every folding schedule and every query count, the low-degree proof built from its evaluations on the shifted domain verifies. Evaluations that are far from every polynomial within the bound, and any alteration of an honest low-degree proof (layer root, opening, sibling path, final polynomial), are rejected.",
  ["inputs", "configurations"], "all codewords, folding schedules, query counts and alterations",
  "FRI is only reached through full proofs of the fixed example programs, with fixed schedules and no negative case.",
  ["starky/src/fri.rs", "starky/src/fft.rs", "starky/src/polutils.rs"],
  [("fold and query", "starky/src/fri.rs prove"), ("fold consistency and final degree check", "starky/src/fri.rs verify")],
  ["stark_verify (last FRI layer and folding of generated proofs)"])
p("S05", "Serialised STARK proofs round-trip and verify identically",
  "Writing a proof to JSON and reading it back yields a proof equal to the original, with the same public values, and the verifier gives it the same verdict; a second serialisation is byte-identical to the first. This holds for each commitment hash and for digests and field elements of every value, including ones with zero coordinates.",
  ["inputs", "configurations"], "all proofs, digests and extension-field elements",
  "Tests serialise one fixed proof per hash and compare few fields.",
  ["starky/src/serializer.rs", "starky/src/digest.rs", "starky/src/stark_gen.rs", "starky/src/f3g.rs", "starky/src/f5g.rs"],
  [("Serialize/Deserialize impls", "starky/src/serializer.rs; starky/src/digest.rs")],
  ["serde_json::to_string", "serde_json::from_str"])
p("S06", "Setup and proofs do not depend on thread count or earlier work",
  "For fixed inputs the constant root, the generated program and the complete proof are the same on every run, whatever the number of worker threads, and whatever other setups, proofs or transforms the process performed before.",
  ["schedules", "histories", "configurations"], "all thread counts, all call histories in one process",
  "Tests run one configuration of the machine and never compare two runs.",
  ["starky/src/stark_gen.rs", "starky/src/constant.rs", "starky/src/fft_p.rs", "starky/src/merklehash.rs", "starky/src/merklehash_bn128.rs", "starky/src/merklehash_bls12381.rs", "starky/src/stark_setup.rs"],
  [("work splitting over rayon", "starky/src/stark_gen.rs calculate_exps_parallel, extend_and_merkelize"), ("bit-reversal cache", "starky/src/fft_p.rs BR")],
  ["StarkSetup::new", "StarkProof::stark_gen"],
  [("CACHE of bit reversals", "process-wide table that grows", "starky/src/fft_p.rs")])
p("S07", "Trace files load back exactly as saved",
  "Storing a table of committed or constant polynomials and loading it for the same PIL yields the same value for every named polynomial, array element and row, and the row-major buffer handed to the prover lists exactly these values. Setting and getting a cell by namespace, name, index and row touches that cell only. A file that is shorter than the table is reported as an error.",
  ["inputs", "programs"], "all PIL reference tables (scalars, arrays, several namespaces), all values, all file lengths",
  "Tests load a few committed fixture files and never compare a stored table with a loaded one.",
  ["starky/src/polsarray.rs"],
  [("save/load/write_buff", "starky/src/polsarray.rs")],
  ["PolsArray::{new,load,save,write_buff,get,set_matrix}"])
p("S08", "PIL constants denote the same field element everywhere",
  "A numeric literal of a PIL file, in decimal or 0x-hexadecimal, positive or negative, denotes the integer reduced modulo the Goldilocks prime. A PIL description written to JSON and read back is the same program.",
  ["inputs"], "all literals within the parser's range; all PIL descriptions",
  "Tests only read the committed fixture files.",
  ["starky/src/types.rs"],
  [("parse_pil_number", "starky/src/types.rs"), ("PIL serde", "starky/src/types.rs")],
  ["parse_pil_number", "PIL Serialize/Deserialize"])
p("S09", "Joining two recursive inputs keeps both proofs intact",
  "Joining two zkin inputs for aggregation produces an input that contains every field of the first under the a_ prefix and every field of the second under the b_ prefix, unchanged, plus the constant root of the verifier and the shared public values in order. Nothing from one proof leaks into the other.",
  ["inputs"], "all pairs of zkin objects",
  "One fixed pair of files is joined in the tests, without checking the content.",
  ["starky/src/zkin_join.rs"],
  [("join_zkin", "starky/src/zkin_join.rs")], ["join_zkin"])
p("S10", "The generated circom verifiers accept exactly what the native verifier accepts",
  "For every program, STARK structure and hash back end (Goldilocks circuits, and on-chain circuits over BN128 and BLS12-381), the circom verifier generated by pil2circom is well formed, accepts the input file of every proof the native verifier accepts, and refuses every altered or forged proof the native verifier refuses; so do the main components around it. With the constants' root as an input, another root is refused. With an enable input, a disabled verifier accepts anything of the right shape, and the switch is a bit. The aggregation circuit accepts the joined input of two accepted proofs and refuses it when either one is altered. The on-chain main component outputs the SHA-256 digest of the prover's address and the public inputs, reduced modulo the field.",
  ["programs", "inputs", "configurations"], "all programs, proofs, alterations and generator options",
  "Tests render circom files for fixture programs and never evaluate them.",
  ["starky/src/pil2circom.rs", "starky/src/stark_verifier_circom.rs", "starky/src/stark_verifier_circom_onchain.rs", "starky/src/starkinfo_cp_ver.rs", "starky/src/starkinfo_fri_ver.rs", "starky/src/serializer.rs", "stark-circuits/circuits"],
  [("circuit generation", "starky/src/pil2circom.rs pil2circom"), ("Goldilocks circuits", "starky/src/stark_verifier_circom.rs render"), ("on-chain circuits", "starky/src/stark_verifier_circom_onchain.rs render")], ["pil2circom", "StarkProof Serialize", "join_zkin"])

p("S11", "Circuit templates have one answer, whatever the prover hints",
  "For every input and for every value the prover may put on an unconstrained hint (the right-hand side of <--), a template of the circuit library either refuses the assignment or outputs what it names: sums, products and inverses in Goldilocks and its cubic extension reduced modulo p, transforms, polynomial evaluations, selections and comparisons, the three field elements inside a transcript element, and the Poseidon, linear and Merkle hashes the native code computes. The same holds for what the generated verifiers compute themselves: no hint other than the honest one gives a second set of challenges or of query indices.",
  ["inputs", "adversarial witnesses"], "all inputs and all hint assignments of the library's templates and the generated verifiers over Goldilocks, BN128 and BLS12-381",
  "Nothing in the repository evaluates a template, let alone with a dishonest witness.",
  ["stark-circuits/circuits", "starky/src/stark_verifier_circom_onchain.rs"],
  [("field and extension operations", "stark-circuits/circuits/gl.circom"), ("transcript elements", "stark-circuits/circuits/bn1togl3.circom"), ("query indices", "starky/src/stark_verifier_circom_onchain.rs getPermutations")], ["pil2circom", "stark-circuits/circuits/*.circom"])

# ---------------------------------------------------------------- commitments, hashes, transcript
p("M01", "Every row of a Merkle commitment opens and verifies",
  "For every matrix shape and content, committing and then opening any row returns exactly the committed row with a path that verifies against the root for that row index, for each of the GL, BN128 and BLS12381 trees; reading single cells and reconstructing the whole matrix from the tree give the committed values, and the root is a deterministic function of the matrix. The root equals the one computed by a plain, sequential description of the tree.",
  ["inputs", "configurations"], "all heights, widths and contents (heights that are not powers of the arity included)",
  "Tests open one or a few fixed rows of matrices with one or two fixed shapes.",
  ["starky/src/merklehash.rs", "starky/src/merklehash_bn128.rs", "starky/src/merklehash_bls12381.rs", "starky/src/linearhash.rs", "starky/src/linearhash_bn128.rs", "starky/src/linearhash_bls12381.rs"],
  [("merkelize / get_group_proof / verify_group_proof", "starky/src/merklehash*.rs")],
  ["MerkleTree::{merkelize,get_group_proof,verify_group_proof,get_element,to_extend,root}"])
p("M02", "A Merkle opening binds the row, the index and the root",
  "No opening verifies with a changed row value, a row of a different content, another row index, a changed sibling anywhere on the path, or another root: verification returns false or an error. Different matrices of the same shape have different roots.",
  ["inputs", "fault_sequences"], "all openings and all single-component alterations, for the three trees",
  "Tests only verify honest openings; not one negative case exists.",
  ["starky/src/merklehash.rs", "starky/src/merklehash_bn128.rs", "starky/src/merklehash_bls12381.rs"],
  [("root recomputation from leaf, index and path", "starky/src/merklehash*.rs calculate_root_from_group_proof")],
  ["MerkleTree::verify_group_proof"])
p("H01", "Poseidon hashes match their specification on every input",
  "The Goldilocks permutation is the 12-element Poseidon permutation (8 full and 22 partial rounds, power-7 S-box, the published round constants and MDS matrix), and the BN128 and BLS12381 ones are the circomlib-style Poseidon with their published constants, for every state, width and capacity; every optimised variant equals the plain description. Illegal input sizes are refused.",
  ["inputs", "configurations"], "all states, all supported widths, boundary field values included",
  "Tests compare a handful of fixed vectors such as all-zero and counting inputs.",
  ["starky/src/poseidon_opt.rs", "starky/src/poseidon_bn128_opt.rs", "starky/src/poseidon_bls12381_opt.rs", "starky/src/poseidon_constants_opt.rs"],
  [("hash", "starky/src/poseidon*_opt.rs")], ["Poseidon::hash / hash_ex"])
p("H02", "Linear hashing is a fixed injective-by-construction sponge",
  "Hashing a row absorbs every element in order: rows up to the digest size are placed in the digest unchanged (GL), longer rows are absorbed in rate-sized blocks with the previous digest as capacity, and batch hashing of a buffer equals hashing its rows one by one. For rows of one length, changing any element or the order of unequal elements changes the digest.",
  ["inputs"], "all row lengths and contents, all batch splits",
  "Tests check fixed vectors of a few lengths.",
  ["starky/src/linearhash.rs", "starky/src/linearhash_bn128.rs", "starky/src/linearhash_bls12381.rs"],
  [("sponge", "starky/src/linearhash*.rs")], ["LinearHash::hash", "hash_element_array", "hash_element_matrix"])
p("T01", "Fiat-Shamir challenges depend on everything absorbed, and only on it",
  "For each transcript, the sequence of challenges is a deterministic function of the ordered sequence of absorbed values and earlier squeezes, identical for every way of splitting the absorbed values over calls, and equal to the plain sponge description. Changing, adding, removing or reordering any absorbed value changes all later challenges, apart from zeros that coincide with the padding of the last block. Squeezed field elements are canonical, and query positions are within range and exactly as many as requested.",
  ["histories", "inputs"], "all interleavings of absorbing and squeezing",
  "Tests replay one or two fixed scripts of puts and gets.",
  ["starky/src/transcript.rs", "starky/src/transcript_bn128.rs", "starky/src/transcript_bls12381.rs"],
  [("put / get_field / get_fields1 / get_permutations", "starky/src/transcript*.rs")],
  ["Transcript::{put,get_field,get_fields1,get_permutations}"],
  [("pending/out/state", "sponge state between calls", "starky/src/transcript*.rs")])

# ---------------------------------------------------------------- algebra
p("F01", "Goldilocks arithmetic is exact integer arithmetic modulo p",
  "Every operation of the base field (add, subtract, multiply, negate, double, square, invert, divide, power, comparisons used for ordering, conversions from and to integers, decimal strings, raw representations, bytes and JSON) agrees with integer arithmetic modulo 2^64-2^32+1 for all operands, results are canonical, and inverse of zero is the documented special case. Values that are not below the modulus are refused by the checked constructors.",
  ["inputs"], "all pairs of 64-bit operands",
  "Unit tests check a few constants and identities on a few random values; edge operands near 2^32, 2^64-2^32 and p are untouched.",
  ["fields/src/field_gl.rs"], [("Montgomery arithmetic", "fields/src/field_gl.rs")],
  ["Fr operators, PrimeField/Field/PrimeFieldRepr traits"])
p("F02", "Extension fields obey their defining polynomial",
  "The cubic extension is Goldilocks[x]/(x^3-x-1) and the quintic one Goldilocks[x]/(x^5-3): all operations, mixed base/extension operands included, agree with polynomial arithmetic modulo these, inversion is exact for every non-zero element, batch inversion equals element-wise inversion, and conversion to and from coordinate vectors, strings and JSON is lossless. Negation, subtraction and comparison are consistent for both base and extension values.",
  ["inputs"], "all operands of both dimensions, sparse and boundary coordinates included",
  "Tests use a few fixed operands for F3G and F5G, never base/extension mixes or all coordinates.",
  ["starky/src/f3g.rs", "starky/src/f5g.rs", "starky/src/polutils.rs"],
  [("extension arithmetic", "starky/src/f3g.rs; starky/src/f5g.rs"), ("batch_inverse", "starky/src/polutils.rs")],
  ["F3G, F5G operators", "batch_inverse"])
p("F03", "The AVX2 build computes what the scalar build computes",
  "With AVX2 enabled, the packed Goldilocks operations (including reduction edge cases, interleaving and double-word products), the vectorised Poseidon and linear hash, and the layered NTT, commitment and proving built on them give exactly what the scalar implementation gives, lane by lane: the same results in canonical form, the same digests and Merkle trees, and proofs that are the same and verify.",
  ["inputs", "configurations"], "all lane values, rows, trees and programs",
  "The vector modules are compiled only with the target feature on, so the default test run contains none of their tests.",
  ["fields/src/arch/x86_64/avx2_field_gl.rs", "starky/src/arch/x86_64/avx2_poseidon_gl.rs", "fields/src/packed.rs", "fields/src/packable.rs", "starky/src/linearhash.rs", "starky/src/merklehash.rs"],
  [("SIMD kernels", "fields/src/arch/x86_64/avx2_field_gl.rs; starky/src/arch/x86_64/avx2_poseidon_gl.rs")], ["packed field types", "Poseidon (vector)", "MerkleTreeGL"])
p("F05", "The AVX-512 build computes what the scalar build computes",
  "With AVX-512 enabled, the eight-lane packed Goldilocks operations, the two-permutations-at-once Poseidon and linear hash, and the Merkle commitment and proving built on them give exactly what the scalar implementation gives, for every lane value, row length and number of rows (odd counts included).",
  ["inputs", "configurations"], "all lane values, rows, trees and programs",
  "The vector modules are compiled only with the target feature on (and a newer compiler than the pinned one), so no test run contains them.",
  ["fields/src/arch/x86_64/avx512_field_gl.rs", "starky/src/arch/x86_64/avx512_poseidon_gl.rs", "starky/src/linearhash.rs", "starky/src/merklehash.rs"],
  [("SIMD kernels", "fields/src/arch/x86_64/avx512_field_gl.rs; starky/src/arch/x86_64/avx512_poseidon_gl.rs")], ["packed field types", "Poseidon (vector)", "MerkleTreeGL"])
p("F04", "NTT, inverse NTT and low-degree extension are exact",
  "The forward transform equals evaluation at the powers of the root of unity, the inverse transform undoes it, and the extension onto the shifted larger domain equals evaluation of the interpolating polynomial there, for every power-of-two size, number of columns and blow-up, for the serial and the parallel block implementation alike. Results do not depend on which transforms ran before.",
  ["inputs", "histories", "configurations"], "all sizes, column counts, blow-ups and call sequences",
  "Tests transform a few fixed sizes once; the multi-block path and call histories with mixed sizes are not compared with anything independent.",
  ["starky/src/fft.rs", "starky/src/fft_p.rs", "starky/src/fft_worker.rs", "starky/src/polutils.rs"],
  [("FFT", "starky/src/fft.rs"), ("parallel blocks", "starky/src/fft_p.rs; starky/src/fft_worker.rs")],
  ["FFT::{fft,ifft}", "fft_p::{fft,ifft,interpolate}", "extend_pol"])

# ---------------------------------------------------------------- R1CS front end
p("A01", "Loading an R1CS file yields exactly the circuit it encodes",
  "Every conforming binary R1CS file, whatever the order of its sections, its coefficients, custom gates and wire map, loads as exactly the constraint system it encodes (coefficients, wire indices, counts of inputs, outputs and private wires, custom gates and their uses), and the JSON form of the same system loads identically. A file that is truncated, has a wrong magic or version, the prime of another field, or a coefficient outside the field is refused; no file makes the loader loop or grow without bound.",
  ["inputs"], "all R1CS systems, all section orders, all truncations and header corruptions",
  "Tests parse one hand-written sample and a few damaged headers.",
  ["algebraic-gpu/src/r1cs_file.rs", "algebraic-gpu/src/reader.rs", "algebraic/src/r1cs_file.rs", "algebraic/src/reader.rs"],
  [("from_reader", "algebraic*/src/r1cs_file.rs"), ("load_r1cs*", "algebraic*/src/reader.rs")],
  ["r1cs_file::from_reader", "reader::load_r1cs"])
p("A02", "Witness files load exactly, or are refused",
  "A witness written in the binary format or as JSON loads as exactly the same field elements in the same order and number. A file with wrong magic, version, section type, prime or size, that is truncated, or (binary) that holds a value outside the field is refused; it never loads as a shorter or shifted witness. The file of a computed witness is written so that it loads as that witness.",
  ["inputs", "fault_sequences"], "all witness vectors, all truncation points and corrupt values",
  "Tests load one fixture file.",
  ["algebraic-gpu/src/reader.rs", "algebraic/src/reader.rs", "algebraic-gpu/src/witness/witness_calculator.rs"],
  [("load_witness_*", "algebraic*/src/reader.rs"), ("save_witness_from_bin_writer", "algebraic*/src/witness/witness_calculator.rs")],
  ["reader::load_witness_from_file", "load_witness_from_array"])
p("A03", "The synthesised circuit is satisfied exactly when the R1CS is",
  "For every R1CS and assignment, the constraint system handed to the SNARK back end is satisfied if and only if every R1CS constraint holds, its public inputs are exactly wires 1 up to the number of outputs and inputs in order, and a wire mapping only renames wires. The reported public inputs (as values and as decimal JSON) are the values of those wires.",
  ["programs", "inputs"], "all R1CS systems, assignments and wire mappings, satisfied or not",
  "Tests synthesise one multiplier circuit with its satisfying witness.",
  ["algebraic-gpu/src/circom_circuit.rs", "algebraic/src/circom_circuit.rs"],
  [("CircomCircuit::synthesize", "algebraic*/src/circom_circuit.rs")],
  ["Circuit::synthesize", "get_public_inputs", "get_public_inputs_json"])
p("A04", "Named inputs reach the witness generator intact",
  "Input signals given as JSON (numbers, decimal strings, booleans, arrays nested to any depth) are passed to the compiled circuit under their own name, in row-major order, with exactly their value modulo the circuit prime, and the computed witness is returned entry for entry. Saving the computed witness and loading the file gives the same values. Input that is not a number is refused.",
  ["inputs"], "all input objects and circuits",
  "Tests run two prebuilt circuits on one input each.",
  ["algebraic-gpu/src/witness/witness_calculator.rs", "algebraic-gpu/src/witness/circom.rs", "algebraic-gpu/src/witness/memory.rs", "algebraic-gpu/src/witness/mod.rs", "algebraic/src/witness/witness_calculator.rs"],
  [("load_input_for_witness, flat_array, fnv, calculate_witness", "algebraic*/src/witness")],
  ["WitnessCalculator::calculate_witness", "load_input_for_witness"])

# ---------------------------------------------------------------- recursion
p("R01", "R1CS-to-Plonk conversion preserves satisfiability",
  "For every R1CS over Goldilocks and every assignment of its wires, extending the assignment by the emitted additions makes all emitted Plonk gates hold if and only if the assignment satisfies the R1CS. Every emitted gate and addition refers only to original wires or to earlier additions.",
  ["programs", "inputs"], "all R1CS systems (constants, empty and repeated linear combinations included) and all assignments",
  "The conversion has no test at all.",
  ["recursion/src/r1cs2plonk.rs"],
  [("r1cs2plonk", "recursion/src/r1cs2plonk.rs")], ["r1cs2plonk"])
p("R02", "Compressor gates constrain exactly the operation they name",
  "In the PIL emitted for the recursion compressor, a row with a gate selected is satisfied if and only if its cells are related by that operation: the Plonk equation for each of the four slots, a full or partial Poseidon round of the Goldilocks hash, cubic-extension multiply-add, the radix-4 FFT butterfly over the cubic extension, and degree-4 polynomial evaluation. Public values are bound to the cells that hold them, and copy constraints cover all twelve columns.",
  ["inputs", "configurations"], "all cell values, all gates, all numbers of publics",
  "Tests only print the PIL text; it is never evaluated.",
  ["recursion/src/compressor12/compressor12_pil.rs", "recursion/src/compressor12/constants.rs"],
  [("render", "recursion/src/compressor12/compressor12_pil.rs")], ["compressor12_setup::setup (pil file)"])
p("R03", "Compressed circuits accept exactly the satisfying witnesses",
  "For every R1CS with custom gates, the constants, wiring and execution plan produced by the compressor setup turn each satisfying witness into a trace that satisfies the emitted PIL (gates, copy constraints and publics) and each unsatisfying one into a trace that violates it. The trace's public cells hold the circuit's public wires in order.",
  ["programs", "inputs"], "all R1CS with any mix of plain constraints and custom gates, all witnesses",
  "Existing setup tests depend on large external files and compare nothing semantic.",
  ["recursion/src/compressor12/plonk_setup.rs", "recursion/src/compressor12/compressor12_setup.rs", "recursion/src/compressor12/compressor12_exec.rs", "recursion/src/r1cs2plonk.rs", "recursion/src/compressor12/constants.rs"],
  [("PlonkSetup, plonk_setup_compressor", "recursion/src/compressor12/plonk_setup.rs"), ("exec", "recursion/src/compressor12/compressor12_exec.rs")],
  ["compressor12_setup::setup", "compressor12_exec::exec"])
p("R04", "Compiling PIL text preserves its constraints",
  "Exporting an analysed PIL program to the prover's JSON description keeps every polynomial, identity, lookup, permutation, connection and public with its selector, degree and rotation, so a trace satisfies the description exactly when it satisfies the source text.",
  ["programs", "inputs"], "all programs of the PIL subset used here",
  "The single test compiles one fixed file and compares nothing.",
  ["recursion/src/pilcom.rs", "recursion/src/pilcom/export.rs", "recursion/src/pilcom/expression_counter.rs"],
  [("export", "recursion/src/pilcom/export.rs")], ["compile_pil_from_str", "export"])

p("J01", "The example state machines compute what they claim",
  "For every input and table size, the constants and trace that the executors of starkjs (Fibonacci, Poseidon, permutation, lookup, connection) write satisfy every identity, lookup, permutation and connection of their PIL programs, and the constant and trace files lead to a proof the verifier accepts, also with the STARK structure the script declares. Fibonacci's public values are its two start values and the last element of the recurrence modulo p. Each slot of the Poseidon machine holds the input state, the twelve elements Poseidon maps it to after thirty rows, and the hash in every row; result flags are bits and may be set on the first row of a whole slot only; more hashes than slots are refused. A wrong hash, a changed cell of a bound column, or another public value violates the program.",
  ["inputs", "configurations"], "all inputs and sizes of the five example machines, all changes of one cell or public value",
  "The scripts are run by hand only; nothing in the test suite executes them or reads their programs with other inputs.",
  ["starkjs/fibonacci/fibonacci.js", "starkjs/fibonacci/fibonacci.pil", "starkjs/poseidon/sm_poseidong.js", "starkjs/poseidon/poseidong.pil", "starkjs/poseidon/main_poseidon.js", "starkjs/permutation/permutation.js", "starkjs/permutation/permutation.pil", "starkjs/plookup/plookup.js", "starkjs/plookup/plookup.pil", "starkjs/connection/connection.js", "starkjs/connection/connection.pil", "starkjs/src/pil_verifier.js", "starkjs/src/utils.js"],
  [("executors", "starkjs/*/*.js"), ("programs", "starkjs/*/*.pil"), ("writing of the files", "starkjs/src/pil_verifier.js generate")],
  ["pil_verifier.generate", "PolsArray::load", "stark_verify"])

# ---------------------------------------------------------------- command line
p("C01", "Every zkit command does what its arguments say",
  "Whatever order and form its options take (short or long, value glued or apart, default or given), each zkit command reads the files named as inputs, applies every choice given, and writes its results under the names given and nowhere else; the results are those of the library operation on the same files and choices. compile hands the compiler the source, the library directories in order, the lower-cased prime and the chosen simplification (--O0 over --O1 over --O2 with its rounds), leaves NAME.r1cs, NAME.sym and NAME_js/NAME.wasm in the output directory, and shows what the compiler reports. The exit status is zero exactly when the operation succeeded: a missing option or input, an unknown command, curve or protocol, a number of rounds that is none, a failing step of the compiler, or a Groth16 proof that does not verify ends in a nonzero status.",
  ["inputs", "configurations", "fault_sequences"], "all argument lists, file names, choices and failing steps of the nine commands",
  "Nothing in the test suite runs the command line tool or the compile driver; scripts run it with one fixed set of arguments.",
  ["zkit/src/main.rs", "dsl_compile/src/lib.rs", "dsl_compile/src/input_user.rs", "dsl_compile/src/execution_user.rs", "dsl_compile/src/compilation_user.rs", "dsl_compile/src/parser_user.rs", "dsl_compile/src/type_analysis_user.rs", "groth16/src/api.rs", "starky/src/prove.rs"],
  [("arguments to operations", "zkit/src/main.rs main"), ("compile options", "dsl_compile/src/input_user.rs Input::new, get_simplification_style"), ("output files", "dsl_compile/src/compilation_user.rs compile")],
  ["eigen-zkit compile", "eigen-zkit stark_prove", "eigen-zkit compressor12_setup", "eigen-zkit compressor12_exec", "eigen-zkit join_zkin", "eigen-zkit groth16_*", "eigen-zkit generate_verifier"])

# ---------------------------------------------------------------- zkVM
p("Z01", "Every zkVM chunk is proved with its own inputs and gets its own verifier",
  "Executing a program over a suite compiles that program (with the bootloader and Poseidon) and runs it on exactly that suite; the chunks returned are those of the dry run, and a witness or proof that fails makes the call fail. Proving chunk i proves the compiled program on the same suite with exactly that chunk's bootloader inputs and a jump to the shutdown routine at the given step and no other, in a directory of the chunk's own. Afterwards every machine with a key has its own proof under the chunk's and the machine's number, and a circom verifier made from that machine's program, key and size; the numbers returned are those with a verifier; files of other chunks and machines are untouched.",
  ["inputs", "programs", "histories", "fault_sequences"], "all programs, machine sizes, chunk lists and orders of proving",
  "The tests of the driver are ignored: they need a long run of the virtual machine on one block.",
  ["zkvm/src/lib.rs", "starky/src/pil2circom.rs", "recursion/src/pilcom/export.rs"],
  [("chunks", "zkvm/src/lib.rs zkvm_generate_chunks"), ("inputs of a chunk", "zkvm/src/lib.rs rust_continuation"), ("verifiers", "zkvm/src/lib.rs generate_verifier")],
  ["zkvm_generate_chunks", "zkvm_prove_only", "zkvm_execute_and_prove"])

# ---------------------------------------------------------------- SNARK wrapping
p("G01", "Groth16 JSON artefacts round-trip losslessly",
  "Verification keys, proofs and public inputs on BLS12-381 exchanged with the gnark wrapper as JSON read back as exactly the same curve points, pairing values and scalars, for all points including the point at infinity, and writing them again gives the same text.",
  ["inputs"], "all valid keys, proofs and public inputs",
  "Tests load one fixed key, proof and input file.",
  ["recursion-gnark/ffi/src/traits.rs", "recursion-gnark/ffi/src/json_util.rs", "recursion-gnark/ffi/src/proof.rs"],
  [("serde for points", "recursion-gnark/ffi/src/json_util.rs; recursion-gnark/ffi/src/traits.rs")],
  ["serde_json on VK / proof / public input types"])
p("G02", "Malformed or off-curve points are refused, never accepted",
  "JSON in which a coordinate is not a number, is missing, or in which a point is not on the curve or not in the prime-order subgroup is refused with an error; it never deserialises to some point and never crashes the reader. The binary readers of the same points likewise refuse what is cut off, not on the curve, not in the subgroup or not below the modulus.",
  ["inputs", "fault_sequences"], "all single-field corruptions of valid documents",
  "No test reads invalid JSON.",
  ["recursion-gnark/ffi/src/traits.rs", "recursion-gnark/ffi/src/json_util.rs"],
  [("curve and subgroup checks", "recursion-gnark/ffi/src/json_util.rs; recursion-gnark/ffi/src/traits.rs")],
  ["serde_json::from_str on VK / proof types"])
p("G03", "The wrapped proof verifier accepts exactly valid Groth16 proofs",
  "Verification key, proof and public inputs read through the wrapper's types and given to the Groth16 check: it accepts every honestly generated Groth16 proof for its public inputs and rejects it for any other public inputs, another key, or with any proof element changed; a wrong number of public inputs is an error.",
  ["inputs", "fault_sequences"], "all circuits, proofs, inputs and alterations",
  "Tests verify one fixed proof and no invalid one.",
  ["recursion-gnark/ffi/src/verifier.rs", "recursion-gnark/ffi/src/traits.rs"],
  [("verify", "recursion-gnark/ffi/src/verifier.rs")], ["Groth16 verifier"])
p("G04", "The native Groth16 pipeline is complete, sound and portable",
  "For every circuit and satisfying input, Groth16 setup, proving, JSON export and verification from the exported files succeed; verification fails for other public inputs, another circuit's key or an altered proof, and keys and proofs survive being written to and read from their files. The generated on-chain verifier contains exactly the key's points.",
  ["programs", "inputs"], "all circuits, inputs and alterations",
  "Tests run the multiplier circuit once per curve.",
  ["groth16/src/api.rs", "groth16/src/groth16.rs", "groth16/src/json_utils.rs", "groth16/src/template.rs"],
  [("setup / prove / verify", "groth16/src/api.rs")], ["groth16_setup", "groth16_prove", "groth16_verify", "generate_verifier"])

p("G05", "Wrapping a BN254 proof hands over exactly that proof, key and inputs",
  "Wrapping (recursion-gnark's command line tool or build_groth16) checks the given BN254 proof against the given verification key and public inputs (decimal or 0x hexadecimal numbers, taken modulo the field) inside the outer circuit and, when it holds, writes the outer BLS12-381 proof, its verification key (points, pairing of alpha and beta, one IC point per public input and any more the key has, number of inputs) and its public inputs to the three files of the output directory, where the Rust types read exactly these values, points at infinity included. When the proof does not hold for that key and those inputs, a file or argument is missing or malformed, or any step (solving, compiling, setup, proving, verifying, writing) fails, the process fails and the output files stay as they were (but for a failure of writing itself). One call does not influence the next.",
  ["inputs", "configurations", "histories", "fault_sequences"], "all keys, proofs, inputs, argument lists, failing steps and sequences of calls",
  "No test runs the wrapper: it needs gnark and files of an external prover.",
  ["recursion-gnark/ffi/go/eigen/build.go", "recursion-gnark/ffi/go/eigen/recursion.go", "recursion-gnark/ffi/go/eigen/utils.go", "recursion-gnark/ffi/src/ffi/native.rs", "recursion-gnark/cli/src/main.rs"],
  [("wrapping", "recursion-gnark/ffi/go/eigen/build.go BuildGroth16"), ("conversion", "recursion-gnark/ffi/go/eigen/utils.go Convert"), ("foreign call", "recursion-gnark/ffi/src/ffi/native.rs build_groth16"), ("tool", "recursion-gnark/cli/src/main.rs")],
  ["build_groth16", "recursion-gnark-cli"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P))
