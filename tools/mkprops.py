import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,observe=None):
    a=dict(files=["src/qrisp/"+f for f in files],mechanism=[dict(name=n,where="src/qrisp/"+w) for n,w in mech])
    if state: a["state"]=[dict(name=n,meaning=m,where="src/qrisp/"+w) for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("C01","Simulating a circuit yields the outcome its gates define",
"For every circuit built from the public gate set (including controlled, parametrised, custom-unitary and nested composite gates, mid-circuit measurements, resets and classically conditioned gates), the statevector, the unitary and the measurement distribution returned by Qrisp equal the ones defined by the textbook matrices of the gates applied in program order. Sampling with a finite number of shots only ever returns outcomes of non-zero probability, with counts adding up to the shots.",
["programs","inputs"],"all circuits up to the size the simulator handles, all gate parameters, all positions of measurement/reset",
"Tests simulate a few hand-written circuits; the simulator picks dense/sparse representations, reorders and fuses gates and splits tensor factors depending on the circuit structure, so each structure exercises a different path.",
["simulator/simulator.py","simulator/quantum_state.py","simulator/tensor_factor.py","simulator/bi_arrays.py","simulator/circuit_preprocessing.py","simulator/circuit_reordering.py","simulator/unitary_management.py","circuit/standard_operations.py","circuit/quantum_circuit.py"],
[("gate grouping, reordering and measurement treatment before simulation","simulator/circuit_preprocessing.py"),("sparse/dense tensor arithmetic","simulator/bi_arrays.py"),("entangle / disentangle / multi-measure of tensor factors","simulator/quantum_state.py")],
observe=["QuantumCircuit.statevector_array/get_unitary/run","QuantumVariable.get_measurement","QuantumSession.statevector"])

p("C02","Inverting, controlling, wrapping and binding circuits act as linear algebra",
"For every circuit and gate: the gate functions and circuit methods apply their documented operator to qubits, lists and whole registers, inverting gives the adjoint, controlling (with any number of controls, any control state, any synthesis method) gives the block operator that acts only on the control state, wrapping/appending/extending/copying/transpiling never changes the operator, and substituting parameters gives the operator of the circuit written with the numbers. None of these operations changes the circuit they were called on.",
["programs","inputs"],"all circuits, nestings, control states, parameter assignments",
"Tests check a few gates with one or two controls; control and inversion are defined by case analysis over gate names and nesting, so the correctness of an arbitrary combination is untested.",
["circuit/operation.py","circuit/controlled_operations.py","circuit/quantum_circuit.py","circuit/standard_operations.py","circuit/transpiler.py","circuit/instruction.py"],
[("Operation.inverse/control/bind_parameters","circuit/operation.py"),("multi-controlled synthesis by gate kind","circuit/controlled_operations.py"),("append/extend/compose/to_gate/transpile","circuit/quantum_circuit.py")],
observe=["QuantumCircuit.get_unitary"])

p("C03","Circuit passes preserve what the circuit computes",
"Every circuit pass and every pipeline of passes returns a circuit with the same operator as its input (up to global phase and, for passes documented to permute or re-place qubits, up to exactly that placement), including measurements and resets, and meets the structural promise it documents (target gate set, no barriers, connectivity). The input circuit is left unchanged.",
["programs","configurations"],"all circuits and all sequences of passes",
"Tests run single passes on hand-picked circuits; the interplay of gate patterns with the passes' local rewriting rules is combinatorial.",
["circuit/pass_management/pass_manager.py","circuit/pass_management/passes/fuse_adjacents.py","circuit/pass_management/passes/combine_single_qubit_gates.py","circuit/pass_management/passes/convert_to_cz.py","circuit/pass_management/passes/commute_swaps.py","circuit/pass_management/passes/resolve_swaps.py"],
[("pass functions","circuit/pass_management/passes/"),("pass composition","circuit/pass_management/pass_manager.py")],observe=["QuantumCircuit.get_unitary","QuantumCircuit.run"])

p("C04","Converting circuits to and from other formats preserves the circuit",
"Exporting a circuit to Qiskit, Cirq, pytket, PennyLane, Stim or OpenQASM 2/3 gives an object that, evaluated by that framework, has the same operator (up to global phase), the same measurement records on the same classical bits and the same parameters; importing a Qiskit/Cirq/QASM circuit gives a Qrisp circuit equal to what that framework computes.",
["programs"],"all circuits over the gate set supported by each format, with measurements, parameters, nesting",
"Tests convert a handful of circuits; qubit ordering, register handling, inverse/controlled variants and nested composites multiply the cases.",
["interface/converter/qiskit_converter.py","interface/converter/cirq_converter.py","interface/converter/pytket_converter.py","interface/converter/pennylane_converter.py","interface/converter/stim_converter.py"],
[("gate-by-gate conversion tables","interface/converter/")],observe=["qiskit.quantum_info.Operator","cirq.unitary","pytket get_unitary","stim Tableau / sampler"])

p("C05","Quantum environments act as their quantum control-flow meaning, in any nesting",
"A block of quantum code inside control, inversion, conjugation, conditional (comparison) or gate-wrap environments - nested in any way, with variables allocated and deallocated inside - acts exactly as the corresponding operator: applied only on the branch where the condition holds, as its adjoint, conjugated, or unchanged. Temporary condition qubits return to their initial state.",
["programs"],"all environment nestings, all control states, all block contents",
"Tests contain some nestings; the environments compile by merging, deferring and re-dumping each other's recorded instructions, so the correctness depends on combinations.",
["environments/quantum_environments.py","environments/control_environment.py","environments/quantum_inversion.py","environments/conjugation_environment.py","environments/quantum_conditionals.py","environments/gate_wrap_environment.py","environments/custom_control_environment.py","environments/custom_inversion_environment.py","environments/iteration_environment.py"],
[("environment start/dump/compile","environments/quantum_environments.py"),("control insertion incl. conjugation shortcut","environments/control_environment.py")],observe=["QuantumSession.compile().get_unitary","statevector"])

p("C06","Uncomputation frees a variable without changing the remaining state",
"If uncomputing a variable (explicitly, via auto_uncompute, or do_it/recompute options) succeeds, the released qubits are in |0> and disentangled and the reduced state of all other variables is unchanged in amplitude and phase; if the circuit does not allow it, an error is raised instead of a silently wrong state.",
["programs","histories"],"all programs of reversible computations on several variables with interleaved gates, all targets and orders of uncomputation",
"Tests uncompute a few circuits; the algorithm works on a permeability graph whose shape is determined by arbitrary interleavings.",
["permeability/uncomputation.py","permeability/permeability_dag.py","permeability/qc_transformations/unqomp.py","permeability/type_checker.py"],
[("Unqomp-style DAG algorithm","permeability/qc_transformations/unqomp.py"),("permeability inference","permeability/type_checker.py")],observe=["QuantumSession.statevector","QuantumVariable.is_deleted"])

p("C07","Compiling a session keeps its semantics under every option",
"Compiling a quantum session - with any workspace size, qubit-recycling, gate-speed, mcx-replacement or measurement-intent options - gives a circuit that acts identically on the qubits of the live variables (in amplitude and phase), returns recycled and workspace qubits to |0> and never uses a qubit for two live purposes at once.",
["programs","configurations","histories"],"all programs with allocation/deallocation histories, all option values",
"Tests compile a few programs with default options; reallocation, instruction reordering and ancilla-adaptive mcx replacement depend on global program structure.",
["core/compilation.py","permeability/qc_transformations/memory_management.py","permeability/qc_transformations/qc_parallelization.py","permeability/qc_transformations/light_cone_reduction.py","permeability/permeability_dag.py"],
[("qompiler","core/compilation.py"),("allocation topology optimisation","permeability/qc_transformations/memory_management.py")],observe=["QuantumSession.compile","QuantumCircuit.get_unitary"])

p("C08","Quantum number arithmetic and comparisons equal exact fixed-point arithmetic",
"For all operands representable in the given quantum numbers (any width, exponent and signedness, in superposition), addition, subtraction, multiplication, division, powers, polynomial evaluation, negation, shifts, bit operations, rounding and all comparisons - in-place and out-of-place, quantum-quantum and quantum-classical - return the exact mathematical result within the documented result format (modular wrap-around for in-place operations) and leave the operands unchanged.",
["inputs","configurations"],"all operand formats and values",
"Tests check a few formats; sign extension, exponent alignment and carry handling differ for every combination of sizes, exponents and signs, and the exhaustive arithmetic tests are not part of the fast suite.",
["qtypes/quantum_float.py","alg_primitives/arithmetic/SBP_arithmetic.py","alg_primitives/arithmetic/comparisons.py","alg_primitives/arithmetic/ripple_mult.py","alg_primitives/arithmetic/ripple_division.py","alg_primitives/arithmetic/poly_tools.py","alg_primitives/arithmetic/uint_clifford_t_comparisons.py"],
[("semi-boolean polynomial evaluation","alg_primitives/arithmetic/SBP_arithmetic.py"),("operator overloads","qtypes/quantum_float.py")],observe=["multi_measurement / statevector of operands and result"])

p("C09","Every adder adds modulo two to the width and restores its inputs and ancillas",
"Each available in-place adder (Fourier, Cuccaro, Gidney, venting, carry-lookahead, Remaud, incrementation, adaptive and Jasp variants), for quantum and classical addends of any value and width, with and without control, carry-in or carry-out, and in inverted form, maps (a, b) to (a, a+b mod 2^n) for all basis states and superpositions with no relative phases and all ancillas returned clean.",
["inputs","configurations"],"all adders, widths, operand values, control states",
"The exhaustive tests for several adders are not in the fast suite; measurement-based uncomputation and width corner cases (1 bit, unequal sizes) are not enumerated.",
["alg_primitives/arithmetic/adders/","alg_primitives/arithmetic/qcla_adder.py","alg_primitives/arithmetic/jasp_arithmetic/"],
[("adder implementations","alg_primitives/arithmetic/adders/")],observe=["statevector / boolean simulation of both registers"])

p("C10","Modular arithmetic on quantum moduli equals arithmetic in Z_N",
"For every modulus and every pair of residues, addition, subtraction, multiplication, in-place multiplication by invertible constants, exponentiation, inverse and comparison on quantum moduli (standard and Montgomery form, classical or quantum second operand, static or Jasp) return the result modulo N, keep the other operand and release all ancillas clean.",
["inputs","configurations"],"all moduli, residues, Montgomery shifts",
"The modular arithmetic tests are too slow for the regular suite and use few moduli; even/odd moduli, Montgomery shifts and inverse paths are separate code.",
["qtypes/quantum_modulus.py","alg_primitives/arithmetic/modular_arithmetic/","alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py","alg_primitives/arithmetic/jasp_arithmetic/jasp_montgomery.py"],
[("Montgomery reduction / Beauregard adder","alg_primitives/arithmetic/modular_arithmetic/")],observe=["multi_measurement"])

p("C11","Multi-controlled gates flip exactly on their control state with any method",
"For every synthesis method, number of controls, control state, target and number of free qubits, a multi-controlled X/phase/rotation acts as the ideal multi-controlled gate (phase-tolerant methods: up to a diagonal phase that their inverse undoes), restores every ancilla to |0> and works on superpositions, statically and in Jasp.",
["inputs","configurations"],"all methods x control counts x control states",
"Tests cover a few sizes per method; recursion and ancilla splitting depend on the number of controls.",
["alg_primitives/mcx_algs/","core/gate_application_functions.py","jasp/program_control/prefix_control.py"],
[("mcx algorithms","alg_primitives/mcx_algs/")],observe=["unitary of the compiled circuit on |0> ancillas"])

p("C12","Values survive encoding, measurement and decoding for every quantum type",
"For every quantum type and every value of its domain, writing a value (or a superposition of values) and measuring returns exactly those values with their probabilities, decode and encode are mutually inverse bijections between outcome labels and integers, and joint measurements report labels in the order of the requested variables; values outside the representable range are rejected, not silently changed.",
["inputs","configurations","histories"],"all types, sizes, value sets, orders of variables",
"Tests use a few values; endianness, sign, exponent and label ordering interact with sizes and with merged sessions.",
["core/quantum_variable.py","qtypes/","misc/utility.py","core/quantum_session.py"],
[("encoder/decoder per type","qtypes/"),("measurement result post processing","core/quantum_variable.py")],observe=["get_measurement","multi_measurement","encode/decode"])

p("C13","Quantum arrays behave like arrays of their elements",
"For every shape and element type, indexing, slicing, assignment, reshaping, transposing, concatenation, iteration, element-wise arithmetic and comparison, in-place updates, matrix products, quantum-indexed access and deletion on a quantum array return what the same operation on a classical array of the values returns, for superpositions as well, and views address the same qubits as the original.",
["inputs","configurations","histories"],"all shapes, index expressions, element types and values",
"Tests check a few shapes; index expressions and view semantics are combinatorial.",
["core/quantum_array.py","alg_primitives/arithmetic/matrix_multiplication.py"],
[("index/view bookkeeping","core/quantum_array.py")],observe=["QuantumArray.get_measurement","statevector"])

p("C14","Synthesised functions and dictionaries implement exactly the given mapping",
"Loading a quantum dictionary, synthesising a truth table (any method), or applying a phase function/phase polynomial gives, for every key or input in superposition, exactly the mapped value respectively phase and nothing else: keys are preserved, ancillas are clean and unrelated amplitudes unchanged.",
["inputs"],"all truth tables, dictionaries, phase functions on small registers",
"The number of functions is doubly exponential; tests contain a few.",
["core/quantum_dictionary.py","alg_primitives/logic_synthesis/","misc/utility.py"],
[("gray/pprm synthesis","alg_primitives/logic_synthesis/")],observe=["statevector"])

p("C15","State preparation produces the requested amplitudes",
"Preparing a state from an arbitrary vector or value-amplitude map (any method, static or Jasp, single variables, arrays of any type) gives these amplitudes up to global phase after normalisation, on the right labels, and its inverse and controlled versions behave as such; structured preparations (Dicke, W, uniform, fourier-loaded) produce their defining state.",
["inputs"],"all complex vectors incl. zeros, negative, sparse, 1-qubit to several qubits",
"State preparation tests are not in the fast suite and use random dense vectors; zero sub-branches and phases are corner cases.",
["alg_primitives/state_preparation/","alg_primitives/dicke_state_prep.py","alg_primitives/unbalanced_w_state.py","core/quantum_variable.py"],
[("multiplexed rotations","alg_primitives/state_preparation/")],observe=["statevector"])

p("C16","Operator algebra agrees with matrix algebra",
"For all qubit and fermionic operators, sums, differences, products, scalar multiples, adjoints, hermitian parts, commutators, reductions, expectation of terms, conversions to and from matrices/Paulis and fermion-to-qubit mappings agree with the corresponding matrix operations, and operations never modify their operands unless they are the documented in-place forms.",
["inputs","programs"],"all operator expressions",
"Tests check identities on a few operators; factor-by-factor multiplication tables and coefficient bookkeeping have many cases.",
["operators/qubit/qubit_operator.py","operators/qubit/qubit_term.py","operators/qubit/operator_factors.py","operators/fermionic/","operators/hamiltonian_tools.py"],
[("term multiplication tables","operators/qubit/operator_factors.py"),("anticommutation reordering","operators/fermionic/fermionic_term.py")],observe=["to_sparse_matrix/to_array"])

p("C17","Expectation values and Hamiltonian evolution agree with linear algebra",
"For every hermitian operator and state, the measured expectation value (any grouping/diagonalisation method, static and Jasp) equals the inner product up to the stated precision, the measurement settings partition the terms into jointly measurable groups, and Trotterised evolution circuits converge to the exact exponential, being exact for commuting terms, any order, step number and sign of time.",
["inputs","programs"],"all hermitian operators incl. ladder and projector factors, states, times, methods",
"The expectation value and simulation tests are not in the fast suite and use random instances of few operator kinds.",
["operators/qubit/measurement.py","operators/qubit/jasp_measurement.py","operators/qubit/commutativity_tools.py","operators/qubit/qubit_operator.py","operators/qubit/qubit_term.py","operators/fermionic/trotterization.py"],
[("conjugation circuits for measurement","operators/qubit/commutativity_tools.py"),("term simulation","operators/qubit/qubit_term.py")],observe=["expectation_value","trotterization unitary"])

p("C18","Jasp programs compute what the same program computes in Python mode",
"A hybrid program - with classical values, loops, conditionals, measurements feeding back into control flow, subroutines, caching, inversion and control - gives, when traced and executed through Jasp, the same results and the same quantum state as when interpreted directly, and inverting, controlling, inlining, copying or re-evaluating the traced program gives the corresponding operator.",
["programs","inputs"],"all programs built from the supported constructs, all classical arguments",
"Tests trace individual programs; tracing transformations (environment flattening, inversion of loops and conditionals, caching) interact.",
["jasp/jasp_expression/","jasp/tracing_logic/","jasp/program_control/","jasp/interpreter_tools/interpreters/","environments/"],
[("environment flattening and inversion of jaxprs","jasp/jasp_expression/"),("caching of traced functions","jasp/tracing_logic/qaching.py")],observe=["jaspify result","Jaspr.to_qc"])

p("C19","Resource estimates equal the resources of the executed circuit",
"The gate counts, depth and peak qubit numbers reported by the static resource profilers for a traced program and given arguments equal the numbers obtained by counting on the circuit the program actually executes with these arguments, for the documented measurement behaviours; circuit-level metrics (depth, two-qubit count and depth, T depth, op counts, qubit count) equal their definition on the gate list.",
["programs","inputs"],"all programs with loops/conditionals/subroutines and arguments; all circuits",
"Tests compare a few programs; the profilers re-implement the semantics symbolically per primitive.",
["jasp/evaluation_tools/profiler.py","jasp/interpreter_tools/interpreters/count_ops_metric.py","jasp/interpreter_tools/interpreters/depth_metric.py","jasp/interpreter_tools/interpreters/num_qubits_metric.py","jasp/interpreter_tools/interpreters/profiling_interpreter.py","circuit/quantum_circuit.py"],
[("metric interpreters","jasp/interpreter_tools/interpreters/")],observe=["count_ops","depth","num_qubits","QuantumCircuit.depth/cnot_count/t_depth"])

p("C20","All ways of executing a traced program agree on its outcome",
"For the same traced program and arguments, direct simulation, circuit extraction with classical post-processing, terminal sampling, shot sampling, expectation-value estimation, boolean simulation and Stim extraction give the same results respectively the same distribution over results.",
["programs","inputs","configurations"],"all programs admissible for several execution modes, all arguments",
"Each mode is a separate interpreter and tests check them on separate examples; agreement on arbitrary programs is not covered (boolean simulation tests are not in the fast suite).",
["jasp/evaluation_tools/","jasp/program_control/sampling.py","jasp/program_control/ev.py","jasp/interpreter_tools/interpreters/post_processing_interpreter.py","jasp/interpreter_tools/interpreters/qc_extraction_interpreter.py","jasp/interpreter_tools/interpreters/cl_func_interpreter.py","jasp/interpreter_tools/interpreters/terminal_sampling_interpreter.py"],
[("separate interpreters of the same expression","jasp/interpreter_tools/interpreters/")],observe=["jaspify","boolean_simulation","terminal_sampling","sample","expectation_value","Jaspr.to_qc + post-processing"])

p("C21","Block encodings encode the matrix their construction and algebra define",
"A block encoding built from an operator, array, projector or LCU - and any combination by addition, subtraction, multiplication, scaling, tensor product, transformation - has, in its ancilla-zero block times its normalisation, exactly the matrix given by the same combination of matrices; its advertised normalisation bounds the block and its unitary is unitary.",
["inputs","programs"],"all small matrices/operators and algebraic expressions",
"The arithmetic tests are not in the fast suite; compositions multiply the ways ancillas and normalisations are combined.",
["block_encodings/block_encoding_base.py","block_encodings/block_encoding.py","block_encodings/constructors/","block_encodings/transformations/"],
[("ancilla handling in arithmetic","block_encodings/block_encoding_base.py")],observe=["BlockEncoding.apply / unitary"])

p("C22","Backends return each caller exactly the results of their own circuits",
"Whatever the backend (virtual, simulator, batched, user-provided), number and order of submitted circuits and shots, each call gets the result of its own circuit with counts summing to its shots and keys in the documented bit order; jobs move only forward through their states, results can be read repeatedly, and failures and cancellations surface as errors to the affected caller only.",
["histories","schedules","configurations"],"all interleavings of submissions, batches, dispatches, failures",
"Tests cover single submissions and one or two batches; ordering across batches and job life cycles are histories.",
["interface/backend.py","interface/job.py","interface/batched_backend.py","interface/measurement_result.py","interface/virtual_backend.py","interface/simulators/","core/quantum_variable.py"],
[("batch dispatch","interface/batched_backend.py"),("job state machine","interface/job.py")],observe=["Backend.run","Job.result/status","get_measurement(backend=...)"])

p("C23","Algorithmic primitives implement their defining transformation",
"For all parameters, the quantum Fourier transform (any options), phase estimation (incl. iterative), amplitude estimation and amplification, Grover diffusers and oracles, reflections, linear combination of unitaries, quantum switch/case, demultiplexing/q_max/iterable permutation helpers and Shor's order finding act as their defining operator or return results satisfying their defining relation.",
["inputs","configurations","programs"],"all sizes, options, case functions, control states",
"Tests use one or two sizes per primitive; options such as inversion, swap placement, approximations, control and branch number are combined only by users.",
["alg_primitives/qft.py","alg_primitives/qpe.py","alg_primitives/qae.py","alg_primitives/amplitude_amplification.py","alg_primitives/lcu.py","alg_primitives/reflection.py","alg_primitives/program_control/","alg_primitives/iterable_processing.py","algorithms/grover/","algorithms/shor/"],
[("primitive implementations","alg_primitives/")],observe=["unitary / statevector"])

p("C24","Variables own their qubits: sessions and qubit allocation stay consistent",
"Under any history of creating, duplicating, extending, reducing, deleting, merging (by entangling or environments) and measuring variables, each live qubit belongs to exactly one variable, operations on one variable never affect the state of unrelated ones, names stay unique, and use of deleted variables, duplicated qubits or foreign qubits raises an error.",
["histories","programs"],"all histories of variable life-cycle operations interleaved with gates",
"Tests do short fixed histories; merging of sessions at different points interacts with names, allocation and pending environments.",
["core/quantum_session.py","core/quantum_variable.py","core/session_merging_tools.py","circuit/quantum_circuit.py"],
[("session merging","core/session_merging_tools.py"),("register/delete/extend/reduce","core/quantum_session.py")],
state=[("session registry","live and deleted variables of a session","core/quantum_session.py")],observe=["statevector","get_measurement","error raised"])

p("C25","Quantum signal processing applies the requested polynomial",
"For every admissible polynomial (complex, real, definite or indefinite parity, Laurent/Fourier, Chebyshev), the computed angles and the resulting circuits apply this polynomial to the encoded operator or singular values up to the documented normalisation and numerical precision, and derived routines (simulation, filtering, inversion, eigenvalue and singular value transformation) approximate their target function within the stated precision.",
["inputs"],"all admissible coefficient vectors and small encoded operators",
"Most of these tests are not in the fast suite, and they use a few polynomials; degenerate coefficients (zeros, leading/trailing zeros, unit norm) are corner cases.",
["algorithms/gqsp/"],
[("angle finding","algorithms/gqsp/gqsp_angles.py"),("circuit application","algorithms/gqsp/gqsp.py")],observe=["statevector of the ancilla-zero branch"])

p("C26","Stim conversion keeps measurement and detector semantics of stabiliser programs",
"For every Clifford program with measurements, parity and noise declarations, the extracted Stim circuit produces the same joint distribution of measurement records, its detectors and observables are exactly the declared parities, detector search returns only deterministic parities, and indices/permutations returned alongside map Qrisp objects to the right Stim records.",
["programs"],"all Clifford circuits with measurement, reset, parity, noise instructions",
"Tests use a few codes; record indexing depends on the order of measurements and parities.",
["interface/converter/stim_converter.py","jasp/evaluation_tools/stim_extraction.py","misc/stim_tools/","interface/simulators/stim_backend.py"],
[("record index bookkeeping","interface/converter/stim_converter.py")],observe=["stim.Circuit sampling / tableau"])

p("C27","Optimisation problem encodings match their classical definition",
"For every problem instance (QUBO, MaxCut, MaxClique, MaxIndepSet, MaxSat, E3Lin2, colouring, set cover, set packing, and the COLD/LCD problem Hamiltonians), the cost operator/phase separator, the classical cost function and the QIRO replacement rules agree with the problem's textbook definition on every bit string, the mixers preserve their documented feasible space, and reductions/preprocessing preserve optimal solutions.",
["inputs"],"all small problem instances and all bit strings",
"Tests run stochastic end-to-end optimisation on single instances (mostly excluded from the fast suite) whose success hardly depends on exact coefficients.",
["algorithms/qaoa/","algorithms/qiro/","algorithms/cold/","algorithms/vqe/problems/"],
[("cost operators and mixers","algorithms/qaoa/problems/")],observe=["diagonal of the cost operator","statevector after mixer"])

p("C28","Quantum backtracking explores exactly the tree the predicates define",
"For every tree depth, branching and pair of accept/reject predicates, node states decode to the path they were initialised with, the quantum step operators act only on the sub-tree of the current node, and the detection and search procedures report a solution exactly for trees that contain one (within documented error) and return an accepted path.",
["inputs","programs"],"all small trees and predicates",
"Tests run two fixed trees.",
["algorithms/quantum_backtracking/backtracking_tree.py"],
[("step operators and node encoding","algorithms/quantum_backtracking/backtracking_tree.py")],observe=["statevector of tree registers","find_solution result"])

p("C29","Classical big-integer arithmetic used in traced programs is exact modulo 2^n",
"For all sizes and values, creation, conversion, addition, subtraction, multiplication, division, remainder, shifts, comparisons, bit access and modular inverse/exponentiation on traced big integers equal the same operations on arbitrary-precision integers modulo the stated width.",
["inputs"],"all values, all limb numbers",
"Tests check random samples without limb-boundary corner cases (carries, borrow chains, normalisation in division).",
["alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py","alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py"],
[("limb arithmetic","alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py")],observe=["BigInteger.__call__/int conversion"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
