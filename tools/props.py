NOT_APPLICABLE = {}
FEW = "The existing tests run a few hand-picked examples; "

prop("C01", "Circuit inverse, control, composition and wrapping obey linear algebra",
 "For every circuit of unitary gates, the unitary the circuit reports is the ordered product of its gates; its inverse, its controlled version for any number of controls and any control bit pattern, its composition with another circuit on any qubit assignment, its copy, and its packaging into a single gate (also when unpacked again) all report exactly the matrix linear algebra prescribes, global phase included. Transforming a circuit or gate leaves the original unchanged.",
 ["programs", "inputs"], "all gate sequences over the full gate alphabet up to a depth on up to 3 qubits, times every transformation, every control count up to 3 with every control pattern, every qubit assignment for composition",
 FEW + "they invert or control single gates and a handful of circuits, never the product of gate kind x control count x control pattern x nesting.",
 [S+"circuit/operation.py", S+"circuit/quantum_circuit.py", S+"circuit/standard_operations.py", S+"circuit/controlled_operations.py"],
 [("gate definitions and their inverse/control rules", S+"circuit/operation.py"), ("circuit inversion and append", S+"circuit/quantum_circuit.py")],
 ["QuantumCircuit.get_unitary", "Operation.get_unitary", "statevector_array"])

prop("C02", "Binding parameters gives the same circuit as building it with the values",
 "Building a circuit with symbolic parameters and then binding a value to every one of them, in any order relative to inverting, controlling, wrapping, composing and copying, yields the same unitary as building it with the numeric values from the start. The set of free parameters a circuit reports is exactly the set of symbols that still influence it, and the unbound circuit is not modified by binding.",
 ["programs", "inputs"], "all parametrized gate sequences up to a depth, all orders of transform/bind",
 FEW + "they bind one circuit directly after building it.",
 [S+"circuit/quantum_circuit.py", S+"circuit/operation.py"],
 [("symbol tracking and substitution", S+"circuit/operation.py")], ["QuantumCircuit.bind_parameters", "QuantumCircuit.abstract_params"])

prop("C03", "Every transpilation pass preserves what the circuit computes",
 "Running any of the provided circuit passes, or any sequence of them through a pass manager, gives a circuit with the same unitary (up to global phase where the pass is documented to ignore it) and, for circuits with measurements, resets and classically controlled gates, the same distribution over classical outcomes. Passes that promise a target gate set produce only gates of that set, and no pass modifies its input circuit.",
 ["programs", "configurations"], "all circuits over a gate alphabet (including controlled gates with inverted controls, measurements, resets, classical control) up to a depth, times every pass and every ordered pair of passes",
 FEW + "each pass is run on a few showcase circuits, almost never with mid-circuit measurement, classical control or inverted controls.",
 [S+"circuit/passes/", S+"circuit/pass_management/", S+"circuit/transpiler.py"],
 [("pass implementations", S+"circuit/passes"), ("pass manager", S+"circuit/pass_management/pass_manager.py")], ["pass(qc)", "PassManager.run", "QuantumCircuit.transpile"])

prop("C04", "The simulator returns the exact outcome distribution of any circuit",
 "For every circuit, including mid-circuit measurements, re-measured bits, resets, classically controlled gates and qubit allocation markers, the simulator's outcome distribution equals the one quantum mechanics assigns to the classical bits, and the statevector it reports equals the exact state including relative phases. With a finite shot count the reported counts are non-negative integers that sum to the number of shots and only contain outcomes of non-zero probability.",
 ["programs", "inputs"], "all circuits over an alphabet of gates, measurements, resets and conditioned gates up to a depth on up to 3 qubits and 2 classical bits, plus a family of wider and denser circuits that cross the simulator's internal size thresholds",
 FEW + "mid-circuit behaviour is tested on few circuits and mostly with terminal measurements.",
 [S+"simulator/"], [("circuit preprocessing and reordering", S+"simulator/circuit_preprocessing.py"), ("sparse tensor-factor state", S+"simulator/tensor_factor.py")],
 ["QuantumCircuit.run", "QuantumCircuit.statevector_array"])

prop("C05", "Circuit metrics match their definition on every circuit",
 "Depth (also with custom per-gate durations), gate counts by name, two-qubit gate counts, T-depth and qubit counts reported for a circuit equal the values obtained by laying out the circuit's elementary gates one by one on a per-qubit and per-classical-bit timeline. Wrapping gates into a composite gate does not change metrics that are defined on the unwrapped circuit.",
 ["programs"], "all circuits over an alphabet of gates, composite gates, measurements and conditioned gates up to a depth",
 FEW + "depth and counts are compared with constants for a few circuits.",
 [S+"circuit/quantum_circuit.py", S+"misc/utility.py"], [("depth and counting routines", S+"circuit/quantum_circuit.py")],
 ["QuantumCircuit.depth", "QuantumCircuit.count_ops", "QuantumCircuit.cnot_count", "QuantumCircuit.t_depth"])

prop("C06", "Exporting a circuit to another framework and importing it back is faithful",
 "A circuit exported to any supported framework or text format (Qiskit, Cirq, Pytket, Pennylane, Stim, OpenQASM 2) performs the same unitary up to a global phase, and for circuits with measurements, resets and classical control the same outcome distribution on the same bits, as the original. Importing a circuit from a framework gives an equivalent circuit, and circuits that a format cannot express are refused rather than changed.",
 ["programs"], "all circuits over each format's gate alphabet up to a depth on up to 3 qubits, export then evaluate with the foreign framework's own simulator or matrices, and re-import",
 FEW + "each converter is exercised with one or two circuits.",
 [S+"interface/converter/", S+"circuit/quantum_circuit.py"], [("converters", S+"interface/converter")], ["QuantumCircuit.to_qiskit", "QuantumCircuit.from_qiskit", "QuantumCircuit.to_cirq", "QuantumCircuit.to_pytket", "QuantumCircuit.to_pennylane", "QuantumCircuit.to_stim", "QuantumCircuit.qasm", "QuantumCircuit.from_qasm_str"])

prop("S01", "Compiling a program never changes its outcome",
 "Whatever the program and whatever the compile options (workspace size, gate-speed-aware scheduling, Fourier-transform cancellation, measurement-based uncomputation, intended measurements), the compiled circuit acts on the program's live variables exactly like the recorded program, and every qubit outside live variables ends in the zero state. Qubits of deleted variables may be recycled but never in a way that a live variable observes.",
 ["programs", "configurations"], "all programs over an alphabet of allocations, gates, multi-controlled gates, arithmetic calls and deletions up to a depth, times all compile option combinations",
 FEW + "compile is run with the default options on a few programs and its qubit count is compared.",
 [S+"core/compilation.py", S+"permeability/"], [("memory management", S+"permeability/memory_management.py"), ("QFT cancellation and mcx recompilation", S+"core/compilation.py")],
 ["QuantumSession.compile", "QuantumVariable.get_measurement"])

prop("S02", "Merging sessions keeps every recorded operation in order",
 "However variables of separate sessions are brought together (multi-variable gates, environments, arrays, explicit merges), each program behaves as if all its operations had been recorded in one session in program order: all variables agree on their session, no operation is lost, duplicated or reordered across a shared qubit, and names stay unique. Environments that are open while sessions merge keep their effect exactly on their own block.",
 ["histories", "programs"], "all interleavings of variable creation, single-variable gates, merging gates, environment entry/exit and deletion up to a depth over 3 initially separate sessions",
 FEW + "merging is tested for two sessions outside environments.",
 [S+"core/session_merging_tools.py", S+"core/quantum_session.py"], [("session merging", S+"core/session_merging_tools.py")],
 ["merge", "QuantumVariable.qs", "QuantumVariable.get_measurement"])

prop("S03", "Variable life-cycle operations follow a simple register model",
 "Under every history of creating, encoding, initialising, duplicating, extending, reducing, inserting, slicing, copying, deleting and renaming variables, each variable reads out the value an ordered-bit-register model predicts, qubits are never shared between live variables, and the session lists exactly the live variables. Operations the model forbids (using deleted variables, encoding into dirty qubits, deleting a variable that is not in the zero state when verification is on) raise an error and leave everything unchanged.",
 ["histories"], "all histories over the life-cycle alphabet up to a depth with up to 3 variables of up to 3 qubits",
 FEW + "each life-cycle call is tested in isolation.",
 [S+"core/quantum_variable.py", S+"core/quantum_session.py"], [("variable bookkeeping", S+"core/quantum_variable.py")],
 ["QuantumVariable.get_measurement", "QuantumSession.qv_list", "QuantumSession.qubits"])

prop("S04", "All ways of reading out a program agree with the exact state",
 "Reading variables by single measurement, joint measurement, batched measurement, statevector export (dictionary, function, array, symbolic) and state inspection all give the distribution and amplitudes of the exact program state, with labels decoded by the variables' own encodings, joint results being genuinely joint, probabilities summing to one and results ordered by decreasing probability. Reading out never changes the program, and parameter substitution at readout equals substitution before.",
 ["programs", "inputs"], "all short programs on up to 3 variables of mixed types, times every readout route, every subset and order of variables, and every post-processing option",
 FEW + "readout routes are tested separately on a few states.",
 [S+"core/quantum_variable.py", S+"misc/multi_measurement.py", S+"simulator/"], [("readout paths", S+"core/quantum_variable.py")],
 ["QuantumVariable.get_measurement", "multi_measurement", "batched_measurement", "QuantumSession.statevector"])

prop("E01", "Nested quantum environments act exactly as their definitions compose",
 "For any nesting of control (any control pattern, by qubits, quantum booleans or conditions), inversion, conjugation, custom-control functions, gate-wrapping and condition environments, the block acts on the quantum state as the composition of the individual definitions: controlled blocks act as identity when the condition fails and with exact phase when it holds, inverted blocks as the inverse, conjugated blocks as compute-act-uncompute. Temporary qubits used by an environment are returned clean.",
 ["programs", "configurations"], "all nestings up to depth 3 of all environment kinds and control patterns around all bodies from a body alphabet",
 FEW + "single environments and a few two-level nestings are covered.",
 [S+"environments/"], [("environment compilation", S+"environments/quantum_environments.py"), ("control environment", S+"environments/control_environment.py")],
 ["statevector of the session"])

prop("E02", "Automatic uncomputation is exact or refused",
 "Uncomputing a variable that holds a value computed reversibly from other variables returns it to the zero state and leaves the joint state of all other variables exactly as if that variable had been computed, used and reversed; if the program makes this impossible the request raises an error. It never silently leaves residual entanglement, phases or a changed value, also with recomputation, inside environments, and via the automatic decorator.",
 ["programs"], "all programs over an alphabet of reversible and non-reversible steps up to a depth touching a target variable, followed by uncomputation in each mode",
 FEW + "uncomputation is exercised on programs known to work.",
 [S+"permeability/", S+"core/quantum_variable.py"], [("permeability graph and unqomp algorithm", S+"permeability/unqomp.py")],
 ["QuantumVariable.uncompute", "auto_uncompute", "lifted"])

prop("T01", "Quantum number arithmetic equals number arithmetic on every input",
 "For every shape of quantum numbers (size, exponent, sign) every arithmetic operation (encoding and decoding, addition, subtraction, multiplication, in-place updates with quantum or classical operands, negation, shifts, powers, division, increments, copying, polynomial evaluation) gives on every basis input the value of ordinary arithmetic, wrapped into the documented result range, and leaves the other operands unchanged; on superpositions it acts linearly without leaving entangled garbage.",
 ["inputs", "configurations"], "all operand values for all shapes up to a size, sign and exponent bound, for every operation and operand kind",
 FEW + "typically one or two operand pairs per operation; signed/fractional mixes are rare.",
 [S+"qtypes/quantum_float.py", S+"alg_primitives/arithmetic/"], [("arithmetic primitives", S+"alg_primitives/arithmetic")], ["QuantumFloat operators", "get_measurement"])

prop("T02", "Comparisons of quantum numbers equal comparisons of numbers",
 "Each of the six comparisons between two quantum numbers of any shape, or a quantum number and any classical number (representable or not, in or out of range, on either side), produces a quantum boolean equal to the classical truth value for every basis input, leaves the operands unchanged, and can be used as a block condition with the same meaning. This holds in recorded and in traced execution for the shapes each supports.",
 ["inputs", "configurations"], "all values of all shapes up to a size/sign/exponent bound against all shapes and all classical thresholds on a grid finer than the encoding",
 FEW + "a few thresholds and same-shaped operands.",
 [S+"alg_primitives/arithmetic/comparisons.py", S+"alg_primitives/arithmetic/uint_clifford_t_comparisons.py", S+"qtypes/quantum_float.py"], [("comparators", S+"alg_primitives/arithmetic/comparisons.py")], ["<, >, <=, >=, ==, != on QuantumFloat", "uint_lt/uint_gt/uint_le/uint_ge"])

prop("T03", "Modular arithmetic is exact for every modulus and operand",
 "For every modulus, every pair of residues and every classical operand (also negative or larger than the modulus), modular addition, subtraction, multiplication (in and out of place, quantum and classical operands, invertible where required) and comparisons give the residue that integer arithmetic prescribes, leave operands and helper qubits clean, and act as identity when controlled off. Encoding and decoding are mutually inverse and values outside the residue range are rejected.",
 ["inputs", "configurations"], "all moduli up to a bound, all residues, all classical operands in a range, each operation with each adder",
 FEW + "two or three moduli.",
 [S+"qtypes/quantum_modulus.py", S+"alg_primitives/arithmetic/modular_arithmetic/", S+"alg_primitives/arithmetic/jasp_arithmetic/"], [("modular adder and Montgomery multiplication", S+"alg_primitives/arithmetic/modular_arithmetic")], ["QuantumModulus operators"])

prop("T04", "Quantum arrays index, reshape and compute like numpy arrays",
 "Under any sequence of indexing, slicing, reshaping, transposing, flattening, splitting, concatenating, swapping axes, item assignment, elementwise arithmetic, comparison and matrix multiplication, a quantum array holds at each position the value the same sequence gives on a numpy array, views share qubits with their base, and indexing with a quantum index selects the addressed element for every index value.",
 ["histories", "inputs"], "all sequences of array operations up to a depth on small shapes, and all operand values for the arithmetic",
 FEW + "single operations on one shape.",
 [S+"core/quantum_array.py", S+"alg_primitives/arithmetic/matrix_multiplication.py"], [("index array manipulation", S+"core/quantum_array.py")], ["QuantumArray API"])

prop("T05", "Lookup tables, logic synthesis and boolean logic compute their table",
 "For every truth table and every synthesis method, and for every quantum dictionary over every key type, the quantum lookup writes exactly the tabulated value for each key, keys stay unchanged, and keys absent from the table write zero. Boolean operators on quantum booleans, and the character and string types, agree with their classical counterparts on all values.",
 ["inputs", "configurations"], "all truth tables up to 3 inputs (and a complete set of two-output tables), all synthesis methods, all small dictionaries",
 FEW + "a few tables.",
 [S+"alg_primitives/logic_synthesis/", S+"core/quantum_dictionary.py", S+"qtypes/quantum_bool.py", S+"qtypes/quantum_char.py", S+"qtypes/quantum_string.py"], [("gray/pprm synthesis", S+"alg_primitives/logic_synthesis")], ["QuantumDictionary[...]", "TruthTable.q_synth"])

prop("A01", "Every in-place adder adds modulo the register size",
 "Every provided in-place adder, for every pair of register sizes it accepts, with quantum or classical first operand, optional carry-in/carry-out and optional control, maps each basis input to (a+b mod 2^n) with the first operand and all helper qubits unchanged, with no spurious relative phase on superpositions, both in recorded and in traced execution, and its inverse subtracts.",
 ["inputs", "configurations"], "all adders x all size pairs up to a bound x all basis inputs x all classical operands x control/carry options",
 FEW + "adders are tested for random inputs and mostly equal sizes.",
 [S+"alg_primitives/arithmetic/adders/", S+"alg_primitives/arithmetic/qcla_adder.py"], [("adder circuits", S+"alg_primitives/arithmetic/adders")], ["fourier_adder", "cuccaro_adder", "gidney_adder", "qcla", "remaud_adder", "cdkpm_adder"])

prop("A02", "Every multi-controlled X variant is an exact multi-controlled X",
 "Every synthesis method for multi-controlled X and related multi-controlled gates, for every number of controls and every control bit pattern, flips the target exactly on the matching control pattern, introduces no relative phase (except for the method documented as phase tolerant, which may only introduce diagonal phases undone by its inverse), restores any helper qubits, and does so in recorded and traced execution, controlled and inverted.",
 ["inputs", "configurations"], "all methods x control counts up to a bound x all control patterns, complete unitaries",
 FEW + "few control counts with the all-ones pattern.",
 [S+"alg_primitives/mcx_algs/"], [("mcx synthesis library", S+"alg_primitives/mcx_algs")], ["mcx(method=..., ctrl_state=...)"])

prop("A03", "Fourier transform and phase estimation are exact",
 "The quantum Fourier transform with every option (inverse, without swaps, reversed qubit order, in-place multiplication, adder-supported) equals the discrete Fourier matrix; phase estimation and amplitude estimation, in recorded and traced execution, and iterative phase estimation return exactly representable phases with certainty and for other phases the textbook outcome distribution.",
 ["inputs", "configurations"], "all register sizes up to a bound and all options; all phases on a grid for every precision",
 FEW + "one precision and one or two phases.",
 [S+"alg_primitives/qft.py", S+"alg_primitives/qpe.py", S+"alg_primitives/iterative_qpe.py", S+"alg_primitives/qae.py"], [("QFT/QPE", S+"alg_primitives")], ["QFT", "QPE", "IQPE", "QAE"])

prop("A04", "State preparation yields the requested amplitudes",
 "Every state preparation route (array initialisation with every method and bit order, dictionary initialisation on every type, Dicke and generalised W states), in recorded and traced execution, prepares the requested normalised amplitudes including relative signs and complex phases on every register, also inside control and inversion, and rejects inconsistent requests.",
 ["inputs", "configurations"], "all amplitude vectors over a small alphabet of complex values up to 3 qubits, all Hamming weights, all methods",
 FEW + "random vectors for one method.",
 [S+"alg_primitives/state_preparation/", S+"alg_primitives/dicke_state_prep.py", S+"alg_primitives/unbalanced_w_state.py"], [("multiplexed rotations", S+"alg_primitives/state_preparation")], ["prepare", "QuantumVariable.init_state", "dicke_state"])

prop("A05", "Quantum switch and iterable operations act per branch as specified",
 "A quantum switch applies exactly the addressed case for each basis value of its index (identity when no case exists), with every method, in recorded and traced execution, controlled and inverted; cyclic shifts, permutations, demultiplexing, bit shifts and quantum-index swaps move register contents as the corresponding classical operation for every index value.",
 ["inputs", "configurations"], "all case counts and index sizes up to a bound, all methods, all index values; all permutations up to length 4",
 FEW + "one or two case counts.",
 [S+"alg_primitives/program_control/", S+"alg_primitives/iterable_processing.py"], [("switch", S+"alg_primitives/program_control")], ["q_switch", "cyclic_shift", "permute_iterable", "demux"])

prop("O01", "Operator algebra is a faithful representation of matrices",
 "Sums, products, scalar multiples, powers, adjoints, commutators, ground-state energies and conversions (matrix, Pauli form, sparse form, from matrix) of spin operators give exactly the operator obtained by the same expression on their matrices, for every combination of Pauli, ladder and projector factors.",
 ["programs", "inputs"], "all operator expressions over the full factor alphabet up to a depth on up to 3 sites",
 FEW + "a few expressions.",
 [S+"operators/qubit/"], [("operator term multiplication", S+"operators/qubit/qubit_term.py")], ["QubitOperator arithmetic and conversions"])

prop("O02", "Measured expectation values and simulated evolution match the operator",
 "For every spin operator and state, the expectation value computed from measurements under every diagonalisation/grouping option equals the exact value in the unlimited-shot limit; simulated time evolution equals the product formula of the operator's exponentials and is exact when all terms commute, including for negative and zero time, controlled and inverted.",
 ["inputs", "programs", "configurations"], "all operators over the factor alphabet with up to 2 terms on up to 3 sites, all basis and superposition states from a set, all grouping options",
 FEW + "a few Hamiltonians, one state.",
 [S+"operators/qubit/"], [("commuting group diagonalisation", S+"operators/qubit/measurement.py"), ("trotterisation", S+"operators/qubit/qubit_operator.py")], ["QubitOperator.expectation_value", "QubitOperator.get_measurement", "QubitOperator.trotterization"])

prop("O03", "Fermionic operators obey the anticommutation relations in every mapping",
 "Every expression of fermionic creation and annihilation operators, reduced, ordered or not, maps to the spin operator whose matrix is the one prescribed by the canonical anticommutation relations under the chosen encoding, and fermionic time evolution and expectation values agree with that matrix.",
 ["programs", "inputs"], "all ladder-operator words up to a length over 3 modes and all two-term sums, every mapping",
 FEW + "a few words.",
 [S+"operators/fermionic/"], [("Jordan-Wigner mapping and term reordering", S+"operators/fermionic")], ["FermionicOperator arithmetic", "to_qubit_operator"])

prop("B01", "Block encodings encode the operator they claim",
 "For every block encoding, however constructed (from operators, arrays, linear combinations of unitaries, projectors, identities) and however combined (sum, difference, product, tensor product, scaling, negation, powers and polynomial transformations), post-selecting its helper qubits on zero applies the claimed matrix divided by the claimed normalisation, and the helper qubits count reported is the one used.",
 ["programs", "inputs"], "all small operators and all expressions over block-encoding combinators up to a depth",
 FEW + "a few Hamiltonians, in modules too slow for routine runs.",
 [S+"block_encodings/"], [("block encoding combinators", S+"block_encodings")], ["BlockEncoding API"])

prop("J01", "Traced execution computes what recorded execution computes",
 "A program executed through tracing (as a circuit extracted from the trace, as a simulated run, or as a sampled run) yields on every input the same result distribution as the same program executed directly, including classical control flow, dynamic loops, classical values derived from measurements, and dynamically sized registers.",
 ["programs", "inputs"], "all programs over an alphabet of gates, loops, branches and measurements up to a depth, for all small integer arguments",
 FEW + "single showcase functions.",
 [S+"jasp/"], [("primitive interpreters", S+"jasp/jaspr.py"), ("circuit extraction", S+"jasp/interpreter_tools")], ["make_jaspr", "jaspify", "Jaspr.to_qc", "terminal_sampling"])

prop("J02", "Inverting and controlling traced programs is exact",
 "The inverse of a traced program undoes it and its controlled version acts only when the controls match, for every nesting of inversion and control in any order (also inside loops, branches, cached subroutines and custom-control functions), with exact phases and clean helper qubits, equal to the same nesting in recorded execution.",
 ["programs", "configurations"], "all nestings of invert/control/conjugate/loop/subroutine up to depth 3 around all bodies from a body alphabet",
 FEW + "single transformations of simple functions.",
 [S+"jasp/"], [("inverse transform", S+"jasp/program_control"), ("control transform", S+"environments")], ["invert", "control", "conjugate", "Jaspr.inverse", "Jaspr.control"])

prop("J03", "Resource estimates equal the resources of the executed circuit",
 "For every traced program the estimated gate counts, depth and peak qubit number equal the counts, depth and peak number of simultaneously allocated qubits obtained by executing the program with the same arguments and the same measurement outcomes, without executing it, for every measurement-outcome policy and every argument value.",
 ["programs", "inputs", "configurations"], "all programs over an alphabet of gates, loops, branches on measurement outcomes, allocation and deletion up to a depth, for all small arguments and outcome policies",
 FEW + "a few functions compared with constants.",
 [S+"jasp/interpreter_tools/interpreters/"], [("profiling interpreters", S+"jasp/interpreter_tools")], ["count_ops", "depth", "num_qubits"])

prop("J04", "Sampling, expectation and boolean execution modes agree",
 "For every sampled program the sampled mode, the exact terminal-distribution mode, the expectation-value mode and, for purely reversible-classical programs, the fast boolean mode report the same distribution (exactly where they are exact, with correct totals and only possible outcomes where they sample), including post-processing functions under which different outcomes coincide.",
 ["programs", "inputs"], "all programs over an alphabet of state preparation, readout and post-processing variants up to a depth",
 FEW + "one state per mode.",
 [S+"jasp/evaluation_tools/"], [("terminal sampling interpreter", S+"jasp/evaluation_tools"), ("boolean simulation", S+"jasp/program_control")], ["terminal_sampling", "sample", "expectation_value", "boolean_simulation"])

prop("J05", "Wide-integer and traced classical arithmetic is exact",
 "Fixed-width multi-word integers support addition, subtraction, multiplication, division, remainder, shifts, bit access and comparison exactly as integers modulo the word width, also inside compiled code, and number-theoretic helpers (modular inverse, Montgomery reduction, greatest common divisor, order) agree with integer arithmetic on every input.",
 ["inputs"], "all operand pairs from a complete small range and from the set of all word-boundary patterns, for all widths up to 3 words",
 FEW + "random operands that rarely hit carries across words.",
 [S+"alg_primitives/arithmetic/jasp_arithmetic/"], [("BigInteger", S+"alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py")], ["BigInteger operators"])

prop("J06", "Error-correction exports describe the circuit's parity structure",
 "Parities declared in a program evaluate to the exclusive-or of the declared measurement outcomes (with the declared expectation), exported stabilizer circuits contain exactly the declared detectors and observables on the right measurement records, and automatically found detectors are exactly deterministic parities.",
 ["programs"], "all Clifford programs with measurements, resets and parity declarations over an alphabet up to a depth",
 FEW + "a repetition-code example.",
 [S+"jasp/interpreter_tools/", S+"interface/converter/"], [("stim extraction", S+"jasp")], ["parity", "extract_stim", "to_stim"])

prop("I01", "Jobs move through their life-cycle consistently",
 "For every backend and every history of submit, status, result, cancel and waiting calls against every sequence of answers from the remote side, a job's status only moves forward, terminal states are final, the result returned is the one produced for that job whichever call observed completion first, failures and cancellations always surface as errors instead of results, and a time limit, where the backend supports one, ends the wait with a timeout error.",
 ["histories", "fault_sequences"], "all call histories up to a depth against all remote-status sequences up to a length, for each backend adapter with a fake remote side",
 FEW + "each call is tested with one remote behaviour.",
 [S+"interface/job.py", S+"interface/backend.py", S+"interface/provider_backends/"], [("job state machine", S+"interface/job.py")], ["Job.status", "Job.result", "Job.cancel", "Job.done"])

prop("I02", "Batched execution delivers each result to its own circuit, once",
 "For every history of queueing, dispatching, clearing and reading through a batched backend, with every batch-size limit, shot-count mix and failure point, every queued circuit is executed exactly once with its own shot count and its counts are delivered to exactly the placeholder handed out for it; undispatched or cleared placeholders refuse to be read, and after a failure each placeholder either holds its own correct result or raises the failure.",
 ["histories", "fault_sequences", "configurations"], "all histories up to a depth, all batch limits, all positions of a failing job",
 FEW + "one dispatch per test, failure of the first job only.",
 [S+"interface/batched_backend.py", S+"interface/measurement_result.py", S+"interface/backend.py"], [("queue and chunking", S+"interface/batched_backend.py")], ["BatchedBackend.run", "BatchedBackend.dispatch"])

prop("I03", "Measurement results behave like the distribution of decoded outcomes",
 "A measurement result, lazy or immediate, single or joint, behaves as a mapping from decoded labels to probabilities: labels that decode equally accumulate, probabilities sum to one for every count dictionary, bits are assigned to the right variable regardless of register layout, and equality, iteration, ordering, length and lookup agree with a plain dictionary.",
 ["inputs", "histories"], "all count dictionaries over all bitstrings up to 3 bits from a count alphabet, times all variable layouts and decoders, times all access sequences",
 FEW + "few counts dictionaries.",
 [S+"interface/measurement_result.py", S+"misc/utility.py"], [("lazy decoding", S+"interface/measurement_result.py")], ["MeasurementResult mapping protocol"])

prop("G01", "Search and amplification algorithms follow their exact success law",
 "Amplitude amplification and Grover search, with exact and standard variants, produce for every set of marked items and every iteration count the outcome distribution given by the closed-form rotation law; oracles mark exactly the requested states; counting and backtracking helpers are consistent with it.",
 ["inputs", "configurations"], "all marked sets on up to 3 qubits, all iteration counts up to a bound, all oracle variants",
 FEW + "one marked set.",
 [S+"algorithms/grover/", S+"alg_primitives/amplitude_amplification.py", S+"alg_primitives/reflection.py"], [("diffuser and oracles", S+"algorithms/grover")], ["grovers_alg", "amplitude_amplification", "tag_state"])

prop("G02", "Optimization problem builders encode the classical objective",
 "For every small problem instance the cost operators, phase separators and mixers of the optimization templates act diagonally with the classical objective value (up to the documented offset and scale) or permute only feasible states, the classical cost function returned to the optimizer scores each bitstring by the true objective, iterative reductions drop exactly the options contradicting the correlation they act on, and problem-to-Hamiltonian converters agree with brute force.",
 ["inputs", "programs"], "all graphs up to 4 vertices, all small weighted instances of each problem, all bitstrings",
 FEW + "one random instance per problem, in modules too slow for routine runs.",
 [S+"algorithms/qaoa/", S+"algorithms/qiro/", S+"algorithms/vqe/"], [("problem templates", S+"algorithms/qaoa/problems")], ["QAOAProblem components"])
