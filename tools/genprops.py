# Writes /verif/properties.jsonl. Kept so that the file stays easy to edit.
import json, os
E = "expander_compiler/src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "Compilation preserves meaning for the honest prover",
  "For every valid circuit program, every compile option and both layered targets: if running the program itself on an input breaks none of its assertions, the witness produced by the compiled witness solver is accepted by the compiled circuit and the compiled circuit's outputs equal the program's outputs. If the honest run breaks an assertion, the solver reports an error or the compiled circuit rejects the solver's witness. A well-formed program is only refused when it can never be satisfied when it divides by a constant zero, or when its compiled form (or that of one of its sub-circuits) would not depend on any witness value; values of custom gates that flow into prover-computed values are documented as unsupported by the witness solver.",
  ["programs", "inputs", "configurations"],
  "every program of the enumerated program space, every input over a tiny prime field (and corner values over the production fields), every hint answer, every compile option",
  "Random-circuit tests sample a few thousand programs over one field with one random input each; the equivalence must hold for every program and every input.",
  [E+"compile/mod.rs", E+"builder/hint_normalize.rs", E+"builder/final_build_opt.rs", E+"layering/compile.rs", E+"layering/ir_split.rs", E+"circuit/layered/opt.rs", E+"circuit/ir/hint_normalized/witness_solver.rs"],
  [("lowering pipeline", E+"compile/mod.rs: compile_with_options"), ("input maps composed through every pass", E+"circuit/input_mapping.rs")],
  observe=["witness solver output", "layered circuit evaluation"])
p("C02", "No forged witness passes the compiled circuit",
  "Whatever values a prover supplies for the compiled circuit's witness, including arbitrary answers in place of every hint, the compiled circuit accepts them only if the inputs they contain, together with some choice of the program's unconstrained values, satisfy every assertion and implicit check of the source program and yield exactly the outputs the circuit reports. Assertions hold for every drawing of the random combination coefficients only if each individual assertion holds.",
  ["programs", "inputs"],
  "every assignment of the compiled circuit's whole input vector over a tiny prime field, for every program of the enumerated space and for each unit vector of combination coefficients",
  "Existing tests only evaluate witnesses made by the honest solver, so a missing constraint is invisible to them.",
  [E+"builder/hint_normalize.rs", E+"builder/basic.rs", E+"builder/final_build_opt.rs", E+"circuit/ir/common/opt.rs", E+"compile/mod.rs"],
  [("every hint is re-checked by constraints", E+"builder/hint_normalize.rs"), ("constraints collected into zero outputs", E+"layering/compile.rs")],
  observe=["layered circuit evaluation on arbitrary inputs"])
p("C03", "Compile options only change cost, and their limits are honoured",
  "For a given program, all optimisation levels, input-reordering choices, multiplication fan-out limits and both layered targets give compiled circuits that accept the same inputs with the same outputs; option values outside the documented range are refused with an error. When input reordering is disallowed the compiled circuit reads the program's inputs in their declared order, and with a multiplication fan-out limit no value of a program without sub-circuit calls feeds more multiplications than the limit allows.",
  ["configurations", "programs", "inputs"],
  "the full product of optimisation level, reordering, fan-out limit and target, for every enumerated program and input",
  "Tests use default options almost exclusively and never compare two option sets on one program.",
  [E+"compile/mod.rs", E+"circuit/ir/dest/mul_fanout_limit.rs", E+"layering/input.rs", E+"layering/layer_layout.rs"],
  [("option validation", E+"compile/mod.rs: CompileOptions::validate"), ("fan-out splitting", E+"circuit/ir/dest/mul_fanout_limit.rs")])
p("C04", "Compiled circuits are well-formed in every exported form",
  "Every circuit the compiler emits satisfies the layered-circuit contract: power-of-two layer and segment sizes, gates and sub-circuit placements inside their segment and aligned to the sub-circuit's size, layers chained by equal sizes, no gate reading a value nothing wrote, and declared outputs inside the last layer. The form exported for the prover, flattened or not, and the cross-layer form compute the same outputs from the same inputs as the compiled circuit itself (the prover's form knows custom gates of one operand only).",
  ["programs", "inputs"],
  "every circuit emitted for the enumerated program space, evaluated on every input of a tiny field",
  "The compiler's own validation is the only check today, and the exported form is never evaluated by a unit test.",
  [E+"layering/compile.rs", E+"layering/layer_layout.rs", E+"circuit/layered/mod.rs", E+"circuit/layered/export.rs", E+"circuit/layered/opt.rs"],
  [("layer layout placement", E+"layering/layer_layout.rs"), ("export", E+"circuit/layered/export.rs")])
p("C05", "Compilation is deterministic",
  "Compiling the same program with the same options always gives byte-identical serialized circuits and witness solvers, whatever was compiled before and whatever order hash containers happen to iterate in.",
  ["programs", "histories"],
  "every enumerated program compiled repeatedly under different hash seeds, in several threads and after different compile histories",
  "A run in one process with one hash seed cannot show that a result does not depend on the seed.",
  [E+"compile/mod.rs", E+"circuit/layered/opt.rs", E+"circuit/ir/common/opt.rs", E+"utils/misc.rs", E+"circuit/ir/common/mod.rs"],
  [("final sort of gates and segments", E+"circuit/layered/opt.rs: sort_everything")])
p("C06", "Malformed programs are refused with an error",
  "A circuit description that refers to a variable or sub-circuit that does not exist, calls one with the wrong number of inputs or outputs, is recursive, has a wrong arity, an out-of-range public input, no assertion and no output, or too few outputs for its required zeroes is refused with an error value by the compiler. It never panics, hangs, or yields a circuit. The same goes for validating a layered circuit whose segments, gates or placements are inconsistent: it is refused with an error, without a panic; every well-formed description is accepted by validation.",
  ["programs"],
  "every single edit (and pairs of edits) of every structural field of the enumerated programs and compiled layered circuits to every small and extreme value",
  "Tests check about a dozen hand-written invalid circuits.",
  [E+"circuit/ir/common/mod.rs", E+"circuit/ir/source/mod.rs", E+"hints/builtin.rs", E+"utils/misc.rs"],
  [("validation before compiling", E+"circuit/ir/common/mod.rs: RootCircuit::validate")])
p("C07", "Serialized artefacts read back to the same artefact",
  "Writing any program, witness solver, layered circuit, witness, kernel or computation graph and reading it back gives an equal value that behaves the same, consumes exactly the bytes that were written, and writes out to the same bytes again.",
  ["programs", "inputs", "configurations"],
  "every artefact produced for the enumerated program space over every production field, plus every variant of every coefficient and gate kind",
  "Round trips are tested on a handful of random circuits and one witness shape.",
  [E+"circuit/ir/common/serde.rs", E+"circuit/ir/source/serde.rs", E+"circuit/ir/hint_normalized/serde.rs", E+"circuit/layered/serde.rs", E+"circuit/layered/witness.rs"],
  [("ExpSerde implementations", E+"circuit/layered/serde.rs")])
p("C08", "Damaged or foreign serialized data is refused",
  "Reading a serialized circuit, witness solver or witness that has been cut short at any byte, carries the wrong format marker, was written for a different field, or contains an unknown tag gives an error; so does a stream that fails while reading or writing. Damaged bytes are never taken for something else: whatever is read is exactly what the bytes say (it writes out to those bytes). Reading never panics, aborts, or returns a value as if the data were complete.",
  ["crash_points", "inputs"],
  "every prefix of every serialized artefact, every value of every tag byte, and every pairing of a writer's field with a different reader's field",
  "Nothing tests truncated or foreign input.",
  [E+"circuit/ir/source/serde.rs", E+"circuit/ir/hint_normalized/serde.rs", E+"circuit/layered/serde.rs", E+"circuit/layered/witness.rs"],
  [("magic and modulus checks", E+"circuit/layered/serde.rs")])
p("C09", "A batch of witnesses behaves like its members one by one",
  "Solving several assignments together, however many there are relative to the SIMD width, gives for each position exactly the witness, the acceptance verdict and the outputs that solving and running it alone gives; iterating or converting the batch in scalar or SIMD form yields the same values in the same order, and padding lanes repeat the last witness. One bad assignment changes no other position's verdict. (An assignment for which no witness can be computed makes solving the batch fail with an error, as it does alone.)",
  ["inputs", "configurations"],
  "every batch size from 1 to past two SIMD blocks, every placement of violating members, with and without public inputs and hints, for several SIMD widths",
  "One test converts a single 29-element batch for one field.",
  [E+"circuit/layered/witness.rs", E+"circuit/ir/hint_normalized/witness_solver.rs", E+"circuit/ir/hint_normalized/mod.rs", E+"circuit/layered/mod.rs"],
  [("block packing and padding", E+"circuit/layered/witness.rs"), ("SIMD evaluation", E+"circuit/layered/mod.rs")])
p("C10", "Every API operation means the same to constants, wires and the debugger",
  "Each circuit-building operation gives the same result, and the same acceptance or failure, whether its operands are compile-time constants, circuit variables or public inputs; evaluating a circuit directly in debug mode, and compiling, solving and running it, agree for every input. Arithmetic, boolean, comparison, bit-decomposition and unconstrained operations compute their documented mathematical function. (Dividing by a constant zero may be refused when compiling; comparisons are for the fields whose size the builder supports.)",
  ["inputs", "configurations"],
  "every operation, every operand kind combination and every operand value of a tiny field, and corner values of the production fields",
  "Tests exercise each operation at a few random values and mostly with variables.",
  [E+"frontend/builder.rs", E+"frontend/debug.rs", E+"frontend/api.rs", E+"hints/builtin.rs"],
  [("constant folding", E+"frontend/builder.rs"), ("debug evaluation", E+"frontend/debug.rs")])
p("C12", "Memorized sub-circuits are transparent",
  "Calling a circuit function through the sub-circuit cache gives the same values and enforces the same assertions as calling the function directly, for any order and nesting of calls, any repetition, and any mixture of functions, argument shapes and constant arguments. Results are returned in the shape the function returned. (A cached function whose results do not depend on its arguments may be refused.)",
  ["histories", "inputs"],
  "every sequence of up to three calls over an alphabet of cached functions with different bodies, parameter shapes, constant arguments and generic arguments",
  "Tests call one cached function at a time.",
  ["expander_compiler/macros/src/lib.rs", E+"frontend/builder.rs", E+"frontend/sub_circuit.rs", E+"frontend/debug.rs", E+"utils/function_id.rs"],
  [("structure hash as cache key", "expander_compiler/macros/src/lib.rs"), ("sub-circuit table", E+"frontend/builder.rs: call_sub_circuit")])
p("C13", "Declared circuit inputs keep their order and count",
  "For any declared circuit structure, the number of secret and public inputs it reports equals the number it writes out and reads back, values are laid out in declaration order with nested arrays in row-major order, and reading back what was written restores every field.",
  ["inputs", "configurations"],
  "every small nesting of scalars, fixed arrays and vectors of secret and public variables with every length up to 3",
  "Only the concrete circuits in the tests are covered.",
  [E+"frontend/circuit.rs", E+"frontend/variables.rs"],
  [("declare_circuit! expansion", E+"frontend/circuit.rs")])
p("C14", "User hints receive and return values verbatim",
  "A registered hint function is called with exactly the values of its arguments in order and its results become the circuit's values in order, in single, batched, debug and kernel execution; an error it returns, or a hint that was never registered, surfaces as an error or refusal and never as a silent witness. Different names never reach each other's functions.",
  ["inputs", "fault_sequences"],
  "every hint arity up to 3 by 3, every argument value of a tiny field, every failing call position in a batch",
  "Tests register one or two hints and never make one fail.",
  [E+"hints/registry.rs", E+"hints/mod.rs", E+"circuit/ir/hint_normalized/mod.rs"],
  [("hint dispatch", E+"hints/mod.rs: safe_impl")])
p("C15", "Kernel execution computes what the kernel says",
  "Running a kernel over device data computes, for every parallel instance and every SIMD lane, exactly the kernel function applied to that instance's slice of each input, with broadcast inputs shared by all instances; host-to-device-to-host copies return the same data. Reshaping and transposing device data acts on it exactly as on a row-major array of the same shape, through any chain of views and kernel calls.",
  ["programs", "histories", "inputs"],
  "every chain of up to three kernel calls, reshapes and transposes over small shapes, parallel counts and broadcast patterns",
  "The tests run a few fixed pipelines.",
  [E+"zkcuda/context.rs", E+"zkcuda/kernel.rs", E+"zkcuda/shape.rs", E+"zkcuda/vec_shaped.rs"],
  [("kernel call", E+"zkcuda/context.rs: call_kernel"), ("view tracking", E+"zkcuda/shape.rs: ShapeHistory")])
p("C16", "Kernel pipelines: honest runs verify, tampered data is refused",
  "For every pipeline of kernel calls that runs without breaking a kernel assertion, compiling the computation graph, solving, committing and proving succeed and the proof verifies; every committed vector has exactly its declared padded length. Altering any committed value that a kernel constrains, or running data that violates a kernel assertion, makes proving or verification fail; a proof that leaves out a kernel call or reports an unsatisfied check does not verify.",
  ["programs", "inputs", "fault_sequences"],
  "every enumerated pipeline, every committed vector and every position altered in turn",
  "The tests only prove honest runs and check that they verify.",
  [E+"zkcuda/context.rs", E+"zkcuda/kernel.rs", E+"zkcuda/proving_system/dummy.rs", E+"zkcuda/proving_system/common.rs"],
  [("kernel compilation keeps every input/output equation", E+"zkcuda/kernel.rs"), ("input assembly for the prover", E+"zkcuda/proving_system/common.rs")])
p("C17", "Array views, padding and bit orders agree with plain array semantics",
  "For every shape and every chain of reshapes and transposes, the reported shape and permuted data equal those of a row-major array put through the same chain. The padded layout places every element at the position its per-dimension padded coordinates give, fills padding by repeating the last element of that dimension, and the bit order reported for a view maps positions of the padded view to positions of the padded original; required split points are exactly enough to make every such view expressible, and inexpressible ones are refused.",
  ["inputs", "histories"],
  "every shape of up to four dimensions with small extents and every chain of up to three view operations",
  "Tests check a handful of concrete shapes.",
  [E+"zkcuda/shape.rs", E+"circuit/input_mapping.rs"],
  [("view history", E+"zkcuda/shape.rs: ShapeHistory"), ("padding", E+"zkcuda/shape.rs: multi_dimension_data_padding")])
p("C18", "A saved computation graph resumes the same pipeline",
  "Loading a previously compiled computation graph into a fresh run of the same pipeline is accepted and leads to the same solved and exported data, and proofs, as compiling it anew. A graph saved from a pipeline whose calls or memory layouts differ is refused. (Two kernels that differ only in their body are not told apart on loading.)",
  ["histories", "configurations"],
  "every pair of enumerated pipelines, one saved and the other resumed",
  "A single fixed pipeline is saved and loaded by the tests.",
  [E+"zkcuda/context.rs", E+"zkcuda/kernel.rs"],
  [("graph comparison on load", E+"zkcuda/context.rs: load_computation_graph")])
p("C19", "Shared-memory transfer of a computation graph is lossless",
  "Writing a computation graph without hints to shared memory and reconstructing it gives an equal graph, touches exactly the number of bytes announced beforehand, and repeated reconstruction from the same memory gives the same graph.",
  ["programs", "histories"],
  "every graph compiled from the enumerated kernels and pipelines, plus every small hand-made layered circuit",
  "The test covers one graph and needs MPI.",
  [E+"zkcuda/mpi_mem_share.rs"],
  [("MPISharedMemory implementations", E+"zkcuda/mpi_mem_share.rs")])
p("C20", "Nested host data keeps its place when flattened, packed and restored",
  "Flattening nested vectors gives their elements in row-major order with the matching shape, restoring gives back the same nesting, and the SIMD-packed forms place the element with outer index i in lane i and come back unchanged. Ragged, empty or wrongly sized data is refused.",
  ["inputs"],
  "every regular nesting of depth up to 4 and extents up to 3, every single-element irregularity of it, every SIMD width used",
  "Tests cover two or three concrete nestings.",
  [E+"zkcuda/vec_shaped.rs"],
  [("VecShaped", E+"zkcuda/vec_shaped.rs")])
p("C21", "Lookup arguments and range proofs accept exactly the table's rows",
  "With the lookup gadgets (key and value tables, and range proofs of any supported width), a circuit whose queries all occur in the table, with matching results, is accepted for every multiplicity pattern and every random challenge, and a circuit with any query outside the table, with a wrong result, or with a value outside the proved range is rejected except for the exceptional random challenges where two distinct rows collide; the library's own hints give the answers that make the honest circuit pass.",
  ["inputs", "programs"],
  "every table, query list and result vector over a small alphabet, every value at the edges of every range width, every prover answer over a small alphabet, every challenge of a grid larger than the degree of the identity",
  "Tests use one valid and one invalid instance each.",
  ["circuit-std-rs/src/logup.rs"],
  [("rational sum equality", "circuit-std-rs/src/logup.rs")])
p("C22", "SHA-256 gadgets compute SHA-256",
  "The SHA-256 circuit gadgets compute, for every message of their supported lengths, exactly the SHA-256 compression result or digest, and their word operations (rotation, shift, choice, majority, sigma functions, modular addition, bit decomposition, comparisons) compute exactly the functions they are named after and reject any other answer of the prover.",
  ["inputs"],
  "every single-bit change of boundary messages, every length at and around the block boundaries, every operand of narrow words and boundary operands of full ones, every single-bit lie in a prover answer",
  "Tests hash a few random messages.",
  ["circuit-std-rs/src/sha256/gf2.rs", "circuit-std-rs/src/sha256/gf2_utils.rs", "circuit-std-rs/src/sha256/m31.rs", "circuit-std-rs/src/sha256/m31_utils.rs"],
  [("bitwise adders", "circuit-std-rs/src/sha256/gf2_utils.rs")])
p("C23", "Multi-limb integer gadgets match integer arithmetic",
  "The 120-bit-limb and 2048-bit gadgets accept exactly the carries, quotients and results of true integer addition, multiplication and modular multiplication for honestly range-checked limbs, and reject a result, carry or quotient that is off in any limb; their comparisons, sums and byte decompositions give the integer answer.",
  ["inputs"],
  "every combination of boundary limb values in every position, and every single-limb corruption of the result, carry or quotient",
  "Tests use a few random numbers and one corruption.",
  ["circuit-std-rs/src/non_native/u120.rs", "circuit-std-rs/src/non_native/u2048.rs"],
  [("carry chains", "circuit-std-rs/src/non_native/u2048.rs")])
p("C25", "The foreign-function interface gives the native result or a clean error",
  "Compiling serialized circuit data through the C interface returns, for each supported field, exactly the witness-solver and layered-circuit bytes that native compilation of the same program serializes to, and for malformed data, an unknown field id or an uncompilable program it returns an error message and no circuit, whatever was asked for before. Answers stay valid until the caller frees them. Proving and verifying through it use exactly the circuit, witness, public inputs and proof they are given: a proof for a satisfying witness verifies with that witness's public inputs, and one that does not satisfy the circuit with the public inputs given, or is cut short, does not.",
  ["programs", "crash_points", "configurations", "histories"],
  "every enumerated program in every supported field, every truncation of its bytes, every field id in and out of range, every short history of calls, every pairing of proofs and public inputs of small witnesses",
  "Nothing tests the C interface.",
  ["expander_compiler/ec_go_lib/src/compile.rs", "expander_compiler/ec_go_lib/src/lib.rs", "expander_compiler/ec_go_lib/src/proving.rs"],
  [("compile_inner", "expander_compiler/ec_go_lib/src/compile.rs")])
p("C26", "Supporting containers behave like their textbook models",
  "The priority queue, interning pool, union-find, static hash map, bucket sort and the graph and power-of-two helpers behave, after every sequence of operations, exactly like their textbook counterparts: smallest element first, one stable index per distinct value, correct equivalence classes, every key found with its own value and no other, sorted stable output, and orders that respect every edge.",
  ["histories", "inputs"],
  "every operation sequence up to a bounded length over small value domains, against a plain reference model",
  "Each container has at most one test with one random history.",
  [E+"utils/heap.rs", E+"utils/pool.rs", E+"utils/union_find.rs", E+"utils/static_hash_map.rs", E+"utils/bucket_sort.rs", E+"utils/misc.rs"],
  [("containers", E+"utils")])
p("C27", "The matrix product gadget accepts exactly true products",
  "The matrix product circuit accepts matrices A, B, C exactly when A times B equals C over the field, for every shape that fits and every random challenge of a true product; a wrong product is rejected except for exceptional random challenges, and matrices whose shapes do not fit are refused.",
  ["inputs"],
  "every triple of tiny matrices over a small alphabet, every one- and two-entry error of larger products, every shape up to a bound, every challenge of a grid larger than the degree of the identity",
  "The one test multiplies one random pair of matrices.",
  ["circuit-std-rs/src/matmul.rs"],
  [("randomised product check", "circuit-std-rs/src/matmul.rs")])
p("C24", "Emulated field gadgets compute modulo the emulated prime",
  "For every sequence of emulated-field operations over M31 limbs (addition, subtraction, negation, multiplication, square, division, inverse, multiplication by constants, reduction, equality, selection, lookup), on reduced and unreduced operands and within the documented overflow bounds, an honest prover is always accepted and the final value is the one modular arithmetic gives; equality assertions and the zero test accept exactly equal values; and a prover who changes any single hinted limb, quotient or carry cannot make a wrong product pass. The helpers around them (bitwise xor, selection tables, message expansion, hash-to-field) equal their published definitions.",
  ["inputs", "histories"],
  "every pair of corner values of two base fields for every operation, every operation sequence up to a depth over a small state, chains until the automatic reduction has happened several times, every limb-width and padding situation the parameters allow, every single change of a hinted value, in the interpreting and the compiled form",
  "The tests run a handful of fixed products; wrong padding or a missed reduction shows only for special overflow histories.",
  ["circuit-std-rs/src/gnark/element.rs", "circuit-std-rs/src/gnark/emparam.rs", "circuit-std-rs/src/gnark/field.rs", "circuit-std-rs/src/gnark/limbs.rs", "circuit-std-rs/src/gnark/utils.rs", "circuit-std-rs/src/gnark/hints.rs", "circuit-std-rs/src/utils.rs", "circuit-std-rs/src/gnark/emulated/field_bls12381/e2.rs"],
  [("field operations", "circuit-std-rs/src/gnark/field.rs"), ("limb arithmetic and hints", "circuit-std-rs/src/gnark/limbs.rs")])
p("C28", "Poseidon gadgets compute the Poseidon permutation and sponge",
  "For every input, the M31 Poseidon gadget returns the published permutation of its state with the published constants, and the sponge over any number of elements absorbs, pads and squeezes as the native hasher does; the helper power and linear layers equal their definitions, and no change to a hinted value yields a different accepted digest.",
  ["inputs"],
  "every state of a corner grid, every input length up to several blocks, every single change of a hinted value, in the interpreting and the compiled form, against an independent implementation and a published vector",
  "The tests compare two fixed inputs; a wrong padding or block boundary shows only at other lengths.",
  ["circuit-std-rs/src/poseidon/poseidon_m31.rs", "circuit-std-rs/src/poseidon/poseidon_u32.rs", "circuit-std-rs/src/poseidon/utils.rs"],
  [("Poseidon permutation and sponge", "circuit-std-rs/src/poseidon")])
p("C29", "BLS12-381 gadgets compute and accept exactly what the curve defines",
  "For every reduced input, the tower-field, group, cofactor-clearing, isogeny, hash-to-curve, decompression and pairing gadgets return the values the textbook definitions give, and their assertions (equality, on curve, on twist, in the subgroup, pairing product one) accept exactly the true statements. No hint answer a dishonest prover may give changes a result or has a false statement accepted. Outside the promise: equal points in the incomplete addition, points of tiny order, 0/0, cyclotomic operations on other elements, malformed compression flags.",
  ["inputs"],
  "every pair of unit vectors of every bilinear operation, every small multiple of the generators, exceptional map inputs, published vectors, and every answer of a menu of dishonest hints (both flags, each root, its negative, zero, each with the modulus added), against independent tower and curve arithmetic",
  "The tests run each gadget on one or two random inputs with an honest prover; exceptional inputs, subgroup membership and dishonest hints are never tried.",
  ["circuit-std-rs/src/gnark/emulated", "circuit-std-rs/src/gnark/hints.rs", "circuit-std-rs/src/gnark/field.rs"],
  [("BLS12-381 tower, curve and pairing gadgets", "circuit-std-rs/src/gnark/emulated")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
