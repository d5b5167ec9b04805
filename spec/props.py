NOTE = ("Seeded search, not proof: every run executes the library's real code under a controlled scheduler and compares it with an "
        "independent double-precision reference; small registers (mostly up to 6 qubits), CPU build, sequentially consistent "
        "interleavings plus a happens-before race detector. ")
ENG = ["src/qengine/state.cpp", "src/qengine/qengine.cpp", "src/qengine/arithmetic.cpp", "src/qengine/utility.cpp",
       "src/common/parallel_for.cpp", "src/common/dispatchqueue.cpp", "include/qengine_cpu.hpp", "include/statevector.hpp"]
WHY = ("The unit tests run each operation on one or two fixed inputs under whatever schedule the machine happens to pick, with the "
       "default chunk size, so the parallel code paths are mostly taken by one thread; ")
prop("C01", "Dense simulation of gates equals the linear algebra they denote",
     "On the dense state-vector simulator, applying any sequence of the documented unitary gates (single-qubit, controlled and "
     "anti-controlled, swap family, mask, parity, uniformly controlled, register, Fourier transform and Hamiltonian evolution gates) "
     "to any state yields, up to global phase and floating-point rounding, the state given by multiplying with the documented matrices. "
     "The result does not depend on the number of worker threads, the work chunk size or the interleaving of threads.",
     ["inputs", "programs", "schedules", "configurations"],
     "every sequence of gates and qubit choices, every initial state, every core count and chunk size, every thread interleaving",
     WHY + "a property over all programs and interleavings is out of their reach.",
     ENG + ["src/qinterface/gates.cpp", "src/qinterface/rotational.cpp", "src/qinterface/logic.cpp", "src/qinterface/qinterface.cpp", "include/qinterface.hpp"],
     [("two-by-two kernel over amplitude pairs", "src/qengine/state.cpp Apply2x2"), ("work splitting over threads", "src/common/parallel_for.cpp par_for_inc, par_for_mask"),
      ("default implementations of the derived gates", "src/qinterface/gates.cpp, src/qinterface/rotational.cpp")],
     NOTE + "Gate programs with a state comparison after every or every other operation.")
prop("C02", "Queued operations behave as if executed at once, in program order",
     "On the dense state-vector simulator, which may run operations asynchronously, every sequence of calls has the same observable results "
     "as if each call had completed before the next began: no operation is lost, duplicated, reordered or applied to a later state. "
     "Overwriting, copying, comparing, reading or destroying a register while earlier operations are still queued is always safe.",
     ["histories", "schedules"], "every interleaving of the caller with the queue worker, for every history of gates, overwrites, copies, reads and destruction",
     "Tests cannot steer when the worker runs relative to the caller, so the windows between queueing and execution are hit by luck only.",
     ["src/common/dispatchqueue.cpp", "include/common/dispatchqueue.hpp", "include/qengine_cpu.hpp", "src/qengine/state.cpp", "src/qengine/utility.cpp"],
     [("queue of pending operations with one worker", "src/common/dispatchqueue.cpp"), ("synchronisation before reads and overwrites", "include/qengine_cpu.hpp Dispatch, Finish, Dump")],
     NOTE + "Short histories sized so that everything that can be queued is queued.")
prop("C03", "A clone and its original never influence each other",
     "A clone of a dense state-vector register holds exactly the state of the original at the moment of the call. Afterwards no operation on either one, including gates, measurement, "
     "overwriting, resizing and destruction, changes what the other one reports, whatever operations were still pending at the time of the call.",
     ["histories", "schedules"], "every history of operations before and after cloning, every interleaving of pending operations",
     "The tests clone a handful of settled states and never mutate both sides while work is pending.",
     ["src/qengine/utility.cpp", "include/qengine_cpu.hpp", "src/qengine/state.cpp", "include/statevector.hpp"],
     [("deep copy after draining the queue", "src/qengine/utility.cpp Clone"), ("shallow copies used internally", "src/qengine/utility.cpp Copy")],
     NOTE + "Several registers, cloned often, all compared with their own references.")
prop("C04", "No data race, deadlock, lost wake-up or invalid memory access",
     "Under every thread interleaving, core count and chunk size, no operation history on dense state-vector registers makes the library perform two unordered conflicting memory accesses, "
     "read or write outside live memory, read a value that depends on thread timing, deadlock, hang, or terminate the process.",
     ["schedules", "histories", "configurations"], "every interleaving of the library's worker threads and of its callers, every operation history",
     "Race detectors and sanitizers on the existing tests see only the interleavings that occur; tests cannot enumerate or even repeat them.",
     ["src/common/parallel_for.cpp", "src/common/dispatchqueue.cpp", "include/common/parallel_for.hpp", "include/statevector.hpp", "src/qengine/state.cpp", "src/qengine/arithmetic.cpp"],
     [("per-thread accumulators and chunk counter", "src/common/parallel_for.cpp"), ("condition variable protocol", "src/common/dispatchqueue.cpp")],
     NOTE + "Vector-clock race detection on every instrumented access, heap shadow memory, deadlock and step-budget detection.")
prop("C05", "Register arithmetic is exact reversible arithmetic",
     "On the dense state-vector simulator, each arithmetic, comparison, table look-up and boolean logic operation maps every computational basis state to the one given by "
     "the documented integer function (with the documented modulus, carry, overflow, sign, control and output registers) and extends linearly to superpositions. Qubits outside the named registers, and states whose controls are not satisfied, are left alone.",
     ["inputs", "programs", "schedules", "configurations"], "all operand values, register placements, control patterns and superpositions, under every interleaving and chunk size",
     WHY + "superposed inputs with non-adjacent registers and controls are hardly tested.",
     ["src/qengine/arithmetic.cpp", "src/qinterface/arithmetic.cpp", "src/qalu.cpp", "src/qinterface/logic.cpp", "include/qalu.hpp"],
     [("basis-state permutation kernels", "src/qengine/arithmetic.cpp"), ("gate-level adders", "src/qinterface/arithmetic.cpp"), ("signed and carry variants", "src/qalu.cpp")],
     NOTE + "Random states through random arithmetic operations, full state comparison after each.")
prop("C06", "Measurement obeys the Born rule, collapses consistently and is repeatable",
     "On the dense state-vector simulator, every measurement (of one qubit, several, a register, all, or a parity; forced or not; by repeated sampling) returns only outcomes of non-zero probability, with frequencies given by the squared amplitudes, whatever values the random source delivers. "
     "Afterwards the state is the normalised projection on the reported outcome, so that repeating the measurement repeats the outcome; sampling leaves the state untouched and returns exactly the requested number of samples.",
     ["inputs", "histories", "schedules"], "all states, measured subsets, random draws including the extreme ones, and interleavings",
     "Tests measure prepared basis or Bell states with an ordinary random generator; extreme draws and arbitrary superpositions never occur.",
     ["src/qinterface/qinterface.cpp", "src/qengine/qengine.cpp", "src/qengine/state.cpp", "src/common/rdrandwrapper.cpp", "include/common/rdrandwrapper.hpp", "include/qinterface.hpp"],
     [("drawing an outcome", "src/qengine/qengine.cpp ForceM, MReg, MultiShotMeasureMask"), ("collapse and renormalisation", "src/qengine/qengine.cpp ApplyM, src/qengine/state.cpp NormalizeState"), ("random source", "include/qinterface.hpp Rand")],
     NOTE + "Random histories with ordinary and extreme random draws, and repeated measurements compared with exact probabilities at 1e-12 significance.")
prop("C07", "State queries report the state and do not change it",
     "On the dense state-vector simulator, every probability, amplitude, expectation value, variance and comparison query returns the value the current state vector implies, within floating-point rounding. "
     "No query changes the state or any later result, and hints about separability, normalisation or concurrency change nothing observable.",
     ["inputs", "histories", "schedules", "configurations"], "all states, all masks, bit lists, weights, bases and offsets, all interleavings and chunk sizes",
     WHY + "arbitrary superpositions are not compared with an independent calculation.",
     ["src/qengine/state.cpp", "src/qengine/qengine.cpp", "src/qengine/utility.cpp", "src/qinterface/qinterface.cpp", "include/qinterface.hpp"],
     [("parallel probability reductions", "src/qengine/state.cpp Prob*, src/qengine/utility.cpp GetExpectation"), ("expectation and variance algorithms", "src/qinterface/qinterface.cpp")],
     NOTE + "Random states, every query family against the reference, state compared afterwards.")
prop("C08", "Composing and splitting registers follows the tensor product",
     "On the dense state-vector simulator, composing registers yields their tensor product at the requested position, allocation inserts fresh zero qubits, and splitting off or discarding a separable range leaves the exact factor states, for any position and length. "
     "Qubit counts always match, and the registers involved remain independent afterwards.",
     ["histories", "inputs", "schedules"], "all histories mixing composition, splitting, disposal, allocation, gates and measurement on several registers",
     "Tests compose and split once or twice from basis states; histories with phases, several registers and pending operations are not covered.",
     ["src/qengine/state.cpp", "src/qengine/utility.cpp", "include/qengine_cpu.hpp", "src/qinterface/qinterface.cpp"],
     [("tensor product kernels", "src/qengine/state.cpp Compose"), ("factor extraction", "src/qengine/state.cpp DecomposeDispose, Dispose")],
     NOTE + "Two to four registers resized repeatedly and compared with the reference.")
prop("C09", "Running out of a resource fails cleanly",
     "When a memory allocation, a thread creation or the hardware random source fails during an operation on a dense state-vector register, the failure is reported as an exception derived from std::exception by that call or, for queued operations, by a later call on the same register. "
     "The process does not terminate, hang, corrupt memory or leak a lock; registers not involved keep their exact state; and the affected register can be overwritten, used again correctly, or destroyed.",
     ["fault_sequences", "histories", "schedules"], "every point of every history at which an allocation, a thread creation or a hardware random read can fail, singly or in bursts, under every interleaving",
     "No test makes an allocation or a thread creation fail.",
     ["include/statevector.hpp", "src/qengine/state.cpp", "src/qengine/utility.cpp", "src/common/dispatchqueue.cpp", "src/common/parallel_for.cpp", "src/common/rdrandwrapper.cpp"],
     [("state vector allocation", "include/statevector.hpp"), ("allocate before changing the register", "src/qengine/state.cpp Compose, DecomposeDispose"), ("exceptions carried from the queue worker to the caller", "src/common/dispatchqueue.cpp")],
     NOTE + "Faults hit one to three chosen points per run, single or in bursts of up to twenty.")
LAYERWHY = "Layers decide from the history which representation to use; the tests run a few fixed circuits per layer, which reach few of the combinations of buffered, separated and entangled qubits. "
prop("L01", "Schmidt-factoring over the dense simulator is observationally the plain simulator",
     "For every program of gates, arithmetic, measurement, state queries, clones, state overwrites, composition and splitting, a register simulated by the layer that keeps separable qubits in separate units with buffered gates (QUnit over the dense CPU engine) reports, up to floating-point rounding and one global phase, "
     "exactly what an unfactored state vector would: the same state, the same probabilities and expectation values, only possible measurement outcomes with the matching collapse, and no error for any valid program.",
     ["programs", "histories", "schedules", "configurations"], "all valid programs on registers of a few qubits, all thread interleavings and chunk sizes, ordinary and extreme random draws",
     LAYERWHY,
     ["src/qunit.cpp", "include/qunit.hpp", "include/qengineshard.hpp", "src/qengineshard.cpp", "src/qinterface/qinterface.cpp", "src/qinterface/gates.cpp"],
     [("per-qubit shards with basis changes and two-qubit buffers", "include/qengineshard.hpp, src/qunit.cpp RevertBasis*"), ("entangling and separating units", "src/qunit.cpp Entangle*, SeparateBit, Detach"), ("arithmetic on classical and superposed registers", "src/qunit.cpp INT, INTS, CMULModx")],
     "Explored with seeded random programs of up to 50 operations on up to 5 qubits (more while composed), one or two registers, compared with the reference model after operations and at the end.")
prop("L02", "The stabilizer simulators are exact on Clifford programs",
     "For every program of Clifford gates, measurement, sampling, queries, clones, composition and splitting, the stabilizer tableau simulator and the factored stabilizer simulator report the same state (including relative phases), probabilities, expectation values and possible outcomes as a state vector, "
     "collapse consistently, and recognise and split every separable range; non-Clifford requests are refused or leave the state exact.",
     ["programs", "histories", "schedules"], "all Clifford programs on registers of a few qubits, ordinary and extreme random draws",
     LAYERWHY + "Tableau phases and row order depend on the whole history.",
     ["src/qstabilizer.cpp", "include/qstabilizer.hpp", "src/qunitclifford.cpp", "include/qunitclifford.hpp"],
     [("tableau updates and phase tracking", "src/qstabilizer.cpp"), ("splitting by isolating generators", "src/qstabilizer.cpp DecomposeDispose"), ("units of factored stabilizers", "src/qunitclifford.cpp")],
     "Explored with seeded random Clifford programs of up to 50 operations on up to 5 qubits.")
prop("L03", "The stabilizer hybrid is exact whichever representation it is using",
     "For every program, a register that starts as a stabilizer tableau, buffers single-qubit gates, holds magic gates in ancilla gadgets and falls back to a state vector reports, with approximate rounding off, the same state, probabilities, expectation values and possible outcomes as a plain state vector, alone or below the factoring layer: "
     "where and when it switches representation is not observable.",
     ["programs", "histories", "schedules", "configurations"], "all valid programs, with an emphasis on near-Clifford ones, on registers of a few qubits",
     LAYERWHY + "The tests hardly ever combine several buffered qubits and ancillae before a query.",
     ["src/qstabilizerhybrid.cpp", "include/qstabilizerhybrid.hpp", "include/mpsshard.hpp", "src/qunitclifford.cpp", "src/qunit.cpp"],
     [("buffered single-qubit gates", "src/qstabilizerhybrid.cpp Mtrx, FlushIfBlocked"), ("magic-gate gadgets and post-selection", "src/qstabilizerhybrid.cpp InjectPhaseGadget, GetAmplitudeOrProb, RdmCloneFlush"), ("switch to the state vector", "src/qstabilizerhybrid.cpp SwitchToEngine")],
     "Explored with seeded random programs (Clifford, near-Clifford and general) on up to 5 qubits; queries on reduced density matrices are approximate by design and excluded. Runs whose cost grows with the number of ancillae beyond the step budget end early and are counted.")
prop("L06", "Splitting a state vector into pages is not observable",
     "For every program, a register whose amplitudes are divided over several page engines (the paging layer over dense CPU pages, alone or below the factoring layer), whatever page size is configured, reports the same state, probabilities, expectation values, comparison results, possible outcomes and errors as the undivided state vector; "
     "the number of pages follows the number of qubits through composition, splitting, cloning and overwriting.",
     ["programs", "histories", "schedules", "configurations"], "all valid programs on registers of a few qubits with any page capacity, all thread interleavings and chunk sizes",
     LAYERWHY + "With the default page size the tests never create more than one page.",
     ["src/qpager.cpp", "include/qpager.hpp", "src/qengine/qengine.cpp", "src/qengine/state.cpp"],
     [("gates across and within pages", "src/qpager.cpp SingleBitGate, MetaControlled, MetaSwap"), ("combining and separating pages", "src/qpager.cpp CombineEngines, SeparateEngines"), ("page-wise queries and measurement", "src/qpager.cpp ProbMask, ForceM, NormalizeState")],
     "Explored with seeded random programs on up to 6 qubits with page capacities of one to three qubits (or the default one), so up to 32 pages.")
prop("T01", "Independent simulators can be used from different threads",
     "When several threads each create, use, clone and destroy simulators of their own, of any type, every thread observes exactly what it would observe alone, and no schedule produces a data race, a deadlock or a crash in the state the simulators share "
     "(the configuration, the random source, memory pools, the thread pool).",
     ["schedules", "histories", "configurations"], "every interleaving of threads with simulators of any combination of layers",
     "No test uses two simulators at once.",
     ["include/common/oclengine.hpp", "include/common/rdrandwrapper.hpp", "src/common/rdrandwrapper.cpp", "src/common/parallel_for.cpp", "src/common/functions.cpp", "include/qinterface.hpp", "include/common/qrack_types.hpp"],
     [("process-wide singletons and function-level statics", "src/common/rdrandwrapper.cpp, include/qinterface.hpp"), ("static layer defaults from the environment", "src/qunit.cpp, src/qstabilizerhybrid.cpp, src/qpager.cpp constructors")],
     "Two or three client threads per run, each with one or two registers of the same stack of layers.")
