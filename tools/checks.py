PBT = 'property-based testing'
CHECKS = {
 'F01': (PBT + ', differential against u128 integer arithmetic',
   'Random and boundary-biased operands (edges in canonical and in Montgomery form) through every public operation; no proof. Trusts the u128 reference in h/core/src/gl.rs.'),
 'F02': (PBT + ', differential against polynomial arithmetic',
   'Random elements of both dimensions with zero and tied coordinates; trusts the schoolbook reference in h/core/src/gl.rs.'),
 'H01': (PBT + ', differential against an unoptimised Poseidon',
   'Random and edge states of every width against a textbook permutation; round constants of the 254/255-bit instances are regenerated from the Grain LFSR and compared, those of Goldilocks are trusted as copied into h/href. One known answer per instance.'),
 'H02': (PBT + ', differential against a reference sponge, plus alterations',
   'Rows of 0..some hundred elements against the reference linear hash; two known failing rows (see known_findings.txt) are re-run every time.'),
 'M01': (PBT + ', differential against a sequential tree',
   'Heights 1..300 and a few tall (above 2^16 rows) and wide matrices; nodes compared level by level through the openings. Trusts the reference in h/href.'),
 'M02': (PBT + ' with fault injection into openings',
   'Random alterations of random honest openings; a collision of the hash itself would be reported but is not searched for.'),
 'T01': (PBT + ', stateful, against a model sponge',
   'Random histories of absorbing and squeezing up to some dozen steps, a few of hundreds; trusts the model in h/href.'),
 'F03': (PBT + ', differential against u128 arithmetic and the scalar references, in a build with AVX2',
   'Random and boundary-biased lanes through every packed operation; Poseidon, linear hash, Merkle trees and proofs compared with the references of h/href and h/starky. Needs a CPU with AVX2; elsewhere the check says so and explores nothing.'),
 'F05': (PBT + ', differential against u128 arithmetic and the scalar references, in a build with AVX-512',
   'As F03 for the eight-lane code, compiled with the newest installed compiler because the pinned one has no stable AVX-512. Needs a CPU with AVX-512 F/BW/CD/DQ/VL; elsewhere the check says so and explores nothing.'),
 'F04': (PBT + ', differential against direct evaluation, plus round trips',
   'All rows by direct evaluation up to 64 rows; sparse polynomials, round trips and the serial transform up to 2^18 rows. Trusts the Horner reference.'),
 'S01': (PBT + ' over generated constraint programs and traces',
   'Random programs of up to some 30 columns with satisfying traces on 4..256 rows (a few of 2^12 and 2^13), random stark structs; the verifier must accept the code\'s prover and a second prover written from the protocol (h/starky/src/prover.rs).'),
 'S02': (PBT + ' with fault injection into traces, against an independent constraint checker; deviating provers',
   'Random changes of random valid traces decided by the checker in h/starky/src/air.rs; the second prover forges quotients, accumulators and publics. Only these strategies are tried; soundness error of the protocol itself is out of scope.'),
 'S03': (PBT + ' with fault injection into proofs',
   'Random single-component alterations (22 kinds) of random accepted proofs; roots, layers and evaluations announced falsely by a prover that is otherwise consistent; other constants and programs.'),
 'S04': (PBT + ', codewords of chosen degree and noise in chosen layers from a prover that controls every layer',
   'The low-degree test is reached through the verifier. All schedules on 2^3..2^8 points are in the range of the generator; verdicts are predicted from degree and query consistency.'),
 'S05': (PBT + ', round trips of generated and disfigured proofs',
   'Random field elements, digests, proofs (honest and with random parts replaced) and setups of the three back ends through five forms of JSON; the file command end to end. The Goldilocks form carries no prover address.'),
 'S06': (PBT + ', metamorphic: processors, threads, earlier and concurrent work',
   'Random programs proved under random affinity masks, pool sizes, prior work and two at a time; all outputs are compared. Data races that need a rarer interleaving than these runs meet are not found.'),
 'S07': (PBT + ', model table against memory and file',
   'Random tables of up to 2^14 rows, and a few of more than 2^25 cells (buffer refills).'),
 'S08': (PBT + ', differential reading of literals and respelt programs',
   'Random literals below 2^127 in all spellings, and programs whose proof has to stay the same when respelt or read back.'),
 'S09': (PBT + ', differential against the definition of the join',
   'Random pairs of inputs with nested values and colliding names.'),

 'S10': (PBT + ', differential against the native verifier, by interpreting the generated circuits',
   'Random programs with every option set of the generator, honest, altered and forged proofs; the circuit text is parsed and run by an interpreter of the check, with the library of /repo/stark-circuits where it applies and stand-ins for circomlib and the Goldilocks library, which are not in the repository. Programs whose quotient is empty make the generator fail and count as trivial. Hints are computed as written.'),

 'S11': (PBT + ', differential against the native operations, with mutated hints, by interpreting the templates',
   'Random inputs and hint assignments: honest ones, compensating pairs (quotient and remainder), bits of an alias of the value, single values and single bits. A hint is cheated once per run (pairs count as one); combined cheats of several components are not searched. circomlib is a stand-in, as in S10. Range checks of the Goldilocks operations are checked as far as these cheats reach.'),

 'A01': (PBT + ', differential against an independent writer and model; corrupted and truncated files',
   'Random systems over BN254, BLS12-381 and Goldilocks in both crates (algebraic through a subcrate), all section orders, truncation at every byte of small files; allocation is watched through a recording allocator. A few files reach a megabyte.'),
 'A02': (PBT + ', round trips; corrupted and truncated files',
   'Random witnesses through binary and JSON files of both crates; truncation at every byte of small files.'),
 'A03': (PBT + ', differential against direct evaluation of the R1CS',
   'Random systems with satisfying and altered assignments, judged by a recording constraint system and by real setup/prove/verify runs (few).'),
 'A04': (PBT + ', recorder circuits generated as WebAssembly',
   'The witness generator is a module built by the check (h/alg/src/wasm.rs) that records what it was given; real circom output is covered only by the fixtures.'),
 'R01': (PBT + ', differential against direct evaluation of the constraints',
   'Random systems of up to 30 constraints (a few of thousands), each under six assignments; a false gate is noticed only through an assignment that tells it apart.'),
 'R02': (PBT + ', rows of the emitted PIL evaluated against the operations',
   'Single gates on satisfying and singly altered cells through the whole setup; powdr is replaced by a stand-in parser (stubs/powdr), the circom templates of the custom gates are not in the repository and are restated in h/rec/src/sys.rs.'),
 'R03': (PBT + ', differential against direct evaluation of circuits with custom gates; altered witnesses',
   'Random circuits of up to 40 constraints and 4 custom gates; the wiring is decoded completely, assignments are sampled; execution through generated witness generators, few proofs.'),
 'R04': (PBT + ', differential against evaluation of the analysed program',
   'Random analysed programs (stand-in types for powdr) on random tables; the analyser itself is third party and replaced.'),
 'G04': (PBT + ', complete runs of generated circuits; alterations judged by the pairing equation',
   'Random circuits of up to 12 constraints through setup, proof, files and verification over BLS12-381 (bellperson); the BN254 half uses crates that are not available offline. The exported contract is run by a small Solidity interpreter with ideal groups.'),
 'J01': (PBT + ', executors run in node and judged by an evaluator of their PIL text; altered cells and publics',
   'Random inputs and sizes (2..2048 rows) for the five example machines that are valid PIL; the npm packages the scripts import are stand-ins (field, columns, files), the PIL compiler of the original flow is replaced by stubs/powdr and the exporter of the repository. simple_vm and fibonacci_old are not in a syntax the tools accept and are left out.'),
 'G05': (PBT + ' over keys, proofs, inputs, calls and injected failures, the tool run as a process; the files written are read back and compared',
   'Random outer proofs and keys of 0..4 inner public inputs (two through the tool). gnark is not in the module cache: the Go half is compiled as it is over stubs/gnark, which keeps the interface (values, circuits as calls of Define, public witness as 4 limbs of 64 bits per input) and scripts the mathematics; clap is stubs/clap.'),
 'C01': (PBT + ' over argument lists, the tool run as a process; differential against the library, a recording compiler and injected failures',
   'Random argument lists for the tool built from zkit/src/main.rs. clap is not installed: stubs/clap implements what its derive documents (options, flags, defaults, required, subcommands). The circom compiler is not installed: stubs/circom writes into each output what it was asked for, and fails at a chosen step. Groth16 is the variant over bellperson (BLS12-381 only). Defaults of options that are also required are not decided.'),
 'Z01': (PBT + ' over scripted virtual machines; what is run, proved and written is compared with the script, verifiers with the generator on the machine\'s own program and size',
   'Random programs of 1..4 machines of 4..64 rows, 1..3 chunks, injected failures of witness and proof. powdr (compiler, executor, prover) is not available offline: stubs/powdr-vm follows a script and keeps the order of calls; keys are real setups, verifiers real output.'),
 'G01': (PBT + ', differential against an independent writer, round trips',
   'Random points (a pool of 200 per group, infinity included), target elements, scalars and documents; arkworks supplies curve arithmetic and is trusted.'),
 'G02': (PBT + ' with corrupted documents and bytes, predicted by curve arithmetic on big integers',
   'Single corruptions of random documents; points on and off the curve and the subgroup in every position.'),
 'G03': (PBT + ', verdicts predicted from known exponents; real circuits',
   'The pairing check itself is arkworks\', third party; what is tested of this repository is the reading and writing that feeds it.'),
}
NOT_APPLICABLE = {}
