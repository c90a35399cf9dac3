#!/usr/bin/env python3
# Single source of properties.jsonl (run by hand after editing).
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state, observe, hook):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=observe, hook_needed=("compile-time small block sizes (MATMUL_SIM_SMALL_BLOCKS), so that several blocks and levels exist at sizes a simulation can run often" if hook else None))))

V = "src/variants/"
p("C01", "Distributed multiplication returns the exact product on any cluster",
  "For every matrix size N >= 1 and every setting of the work-distribution and blocking options (0 disables a blocking), the distributed (pseudodynamic) algorithm returns the mathematical product of A and B, with B given plain or transposed as announced. "
  "The result does not depend on the number of localities, on the number of worker threads of each, on the order in which requests and replies are delivered, or on how tasks are interleaved.",
  ["schedules", "configurations", "inputs"],
  "all locality counts, worker counts, message latencies/reorderings, task interleavings, N >= 1, block sizes >= 0, work-size and imbalance limits, plain/transposed B, integer-valued A and B (so that the product is exact)",
  "The unit tests need a running HPX, use one locality and one schedule, and a few power-of-two sizes; arrival order of the submatrices, locality placement and odd sizes are never varied.",
  [V+"static_improved.cpp", V+"pseudodynamic.cpp", V+"components/multiplier.cpp", V+"components/recursive.cpp", "src/reference_kernels/kernel.hpp"],
  [("create_schedule / matrix_multiply", V+"static_improved.cpp"), ("distribute_recursively", V+"components/recursive.cpp"), ("calculate_submatrix", V+"components/multiplier.cpp"), ("kernel, kernel_transposed, kernel_transposed_blocked", "src/reference_kernels/kernel.hpp")],
  [("C", "result matrix assembled from submatrices as they arrive", V+"static_improved.hpp")],
  ["return value of the distributed algorithm's matrix_multiply()"], False)
p("C02", "Single-node recursive multiplication returns the exact product",
  "For every N >= 1 and every result and input block size (0 disables that blocking), the single-node component algorithm returns the mathematical product of A and B, with B plain or transposed as announced, for every number of worker threads and every interleaving of its recursive tasks.",
  ["schedules", "configurations", "inputs"],
  "all worker counts >= 1, task interleavings and completion orders, N >= 1, block sizes >= 0, plain/transposed B, integer-valued matrices",
  "Unit tests need HPX and run one schedule on power-of-two sizes with block sizes that divide them.",
  [V+"single.cpp", V+"components/recursive.cpp", V+"components/multiplier.cpp", "src/reference_kernels/kernel.hpp"],
  [("matrix_multiply", V+"single.cpp"), ("distribute_recursively / extract_submatrix", V+"components/recursive.cpp")],
  [("C (local)", "block assembled concurrently by four continuations", V+"components/recursive.cpp")],
  ["return value of single::matrix_multiply()"], False)
p("C03", "Parallel-loop multiplications return the exact product under any chunking",
  "For every N >= 1 and all positive block sizes, the algorithms, looped, semi (B transposed) and combined (B plain) algorithms return the mathematical product of A and B, however the runtime splits their parallel loops into chunks and interleaves the chunks over worker threads.",
  ["schedules", "configurations", "inputs"],
  "all loop chunkings, worker counts, interleavings, N >= 1, positive block sizes (dividing N or not, larger than N or not), integer-valued matrices",
  "Tests run a single real schedule on sizes that the blocks divide; chunk boundaries and interleavings are never controlled.",
  [V+"algorithms.hpp", V+"looped.hpp", V+"semi.cpp", V+"combined.cpp", V+"index_iterator.hpp"],
  [("for_each_n over block indices", V+"algorithms.hpp"), ("iterate_indices", V+"looped.hpp"), ("iterate_indices (parallel dimensions)", V+"index_iterator.hpp"), ("packed blocked kernel", V+"combined.cpp")],
  [("C / C_padded", "result written concurrently by all chunks", V+"combined.cpp")],
  ["return values of matrix_multiply() of the four variants"], True)
p("C04", "OpenMP reference multiplications return the exact product for any team",
  "The naive reference multiplications (plain and transposed B) for every N >= 1, and the kernel_test and kernel_tiled implementations for every N >= 1, return the mathematical product of A and B for every thread-team size the OpenMP runtime grants and every interleaving of the team, including clock jumps during the run, and also when several threads multiply at the same time.",
  ["schedules", "configurations", "inputs"],
  "all team sizes granted (including fewer threads than requested), interleavings of the team's memory accesses, wall-clock jumps, N >= 1, integer-valued matrices",
  "The OpenMP kernels are not exercised by any unit test except naive, and team size and interleaving are never controlled.",
  ["src/reference_kernels/naive.hpp", "src/reference_kernels/kernel_test.cpp", "src/reference_kernels/kernel_tiled.cpp"],
  [("naive_matrix_multiply(_transposed)", "src/reference_kernels/naive.hpp"), ("kernel_test::matrix_multiply", "src/reference_kernels/kernel_test.cpp"), ("kernel_tiled::matrix_multiply", "src/reference_kernels/kernel_tiled.cpp")],
  [("C_padded", "blocked result shared by the team", "src/reference_kernels/kernel_tiled.cpp")],
  ["returned matrix"], True)
p("C05", "Optimization-study kernels return the exact product for any team",
  "Each kernel of the optimization study (naive, transposed, counter, exchanged, register, intrinLoop, blocked2, blocked4, gpu, gpuasm, asm), called as its benchmark calls it (64-byte aligned matrices, C zeroed, B plain or transposed as that kernel expects, n a multiple of the block size the kernel works in), leaves the mathematical product of A and B in C for every OpenMP team size and interleaving, and also when several threads call kernels at the same time on results of their own.",
  ["schedules", "configurations", "inputs"],
  "all team sizes granted, interleavings, n over multiples of each kernel's block size, integer-valued matrices",
  "The benchmark only prints a norm for A = 2, B = identity at n = 4096; there is no test, and the README itself says two variants seem buggy.",
  ["otherExperiments/multNaive.cpp", "otherExperiments/multTransposed.cpp", "otherExperiments/multCounter.cpp", "otherExperiments/multExchanged.cpp", "otherExperiments/multRegister.cpp", "otherExperiments/multIntrinLoop.cpp", "otherExperiments/multBlocked.cpp", "otherExperiments/multGPU.cpp", "otherExperiments/multGPUASM.cpp", "otherExperiments/multASM.cpp"],
  [("omp parallel for over row blocks", "otherExperiments/mult*.cpp")],
  [("C", "result written concurrently by the team", "otherExperiments/mult*.cpp")],
  ["matrix C after the call returns"], True)
p("C06", "Repetitions and earlier multiplications do not influence a result",
  "For every repetition count >= 1 the algorithms that take one return the same product as with one repetition. "
  "Any sequence of multiplications run in one session (same or different algorithms, sizes and operands) yields for each the product of its own operands, independent of what ran before.",
  ["histories", "schedules", "configurations"],
  "all sequences of multiplications in one runtime session, repetition counts, algorithms, sizes, schedules of each",
  "Each unit test starts a fresh runtime and runs one multiplication with one repetition; residue of earlier work (component names, accumulators, late continuations) cannot show.",
  [V+"single.cpp", V+"static_improved.cpp", V+"combined.cpp", "src/reference_kernels/kernel_tiled.cpp", "src/reference_kernels/kernel_test.cpp"],
  [("register_as / connect_to by name", V+"single.cpp, "+V+"static_improved.cpp, "+V+"components/recursive.cpp"), ("repetition loops", V+"combined.cpp, src/reference_kernels/kernel_t*.cpp")],
  [("names of components in the global name service", "which component recursive tasks reach", V+"components/recursive.cpp")],
  ["results of every multiplication of a session"], True)
p("C07", "A fault is never silent: exact product or an exception, and nothing lingers",
  "When allocations fail, messages are lost, a locality dies, or workers stall and messages are delayed while a multiplication runs, the call either returns the exact product or reports the failure by an exception; it never returns a wrong matrix, hangs, or crashes. "
  "After the call has reported a failure, no task of it touches memory that belonged to the call, and with faults gone a following multiplication in the same session returns its exact product.",
  ["fault_sequences", "schedules", "histories"],
  "all points at which an allocation or message can fail, locality deaths, stalls and delays, in all HPX-based variants and tiling helpers, combined with schedules",
  "No test injects any fault; the error paths of futures, continuations and component creation are never executed.",
  [V+"static_improved.cpp", V+"components/recursive.cpp", V+"single.cpp", V+"combined.cpp", V+"index_iterator.hpp"],
  [("future continuations and wait", V+"static_improved.cpp, "+V+"components/recursive.cpp")],
  [("futures", "outstanding work packages", V+"static_improved.cpp")],
  ["return value or exception of matrix_multiply(); memory accesses after it"], False)
p("C08", "Work distribution conserves the work and respects the balance limits",
  "For every N, locality count and limits, every component of the result is computed exactly once per repetition, by a locality that is not the root whenever others exist, and in a package that does not exceed the matrix. "
  "The loads assigned to the computing localities differ by less than one of the two configured limits, unless no package of a most-loaded locality may still be split (a package may be split if its size is even and larger than the minimum work size, and moving half of it does not widen the gap).",
  ["configurations", "schedules", "inputs"],
  "all N >= 1, locality counts, minimum work sizes, absolute and relative limits, repetition counts, message schedules",
  "Tests run on one locality, where there is nothing to distribute.",
  [V+"static_improved.cpp", V+"components/recursive.cpp", V+"matrix_multiply_work.hpp"],
  [("create_schedule / fulfills_constraints", V+"static_improved.cpp"), ("distribute_recursively", V+"components/recursive.cpp")],
  [("all_work / total_work", "packages and load per locality", V+"static_improved.cpp")],
  ["block requests arriving at the localities (network history)", "schedule returned by create_schedule()"], False)
p("C09", "Blocked parallel index iteration visits every index exactly once",
  "For every index box, every stack of block sizes and every choice of parallel dimensions, the blocked iteration calls the function exactly once for each index of the box that lies on the final step grid of its innermost block and never outside the box, under any chunking and interleaving. "
  "Blocks along dimensions that are not parallel at a level are visited in increasing order within their parallel block, and all calls have finished when the iteration returns.",
  ["schedules", "configurations", "inputs"],
  "1 to 3 dimensions, all boxes (empty ones too), up to 3 blocking levels (dividing or not), all sets of parallel dimensions with at least one per level, final steps, chunkings and interleavings",
  "Only used indirectly by tests, with block sizes that divide the box; order, chunk boundaries and interleavings are never checked.",
  [V+"index_iterator.hpp", "src/memory_layout/index_iterator.hpp"],
  [("iterate_indices / dim_index_iterator / loop_nest", V+"index_iterator.hpp")],
  [("policy", "remaining blocking levels, shared by the chunks", V+"index_iterator.hpp")],
  ["calls of the user's function with task and event order"], False)
p("C10", "No data races, and localities share nothing but messages",
  "In every execution of every algorithm, two conflicting accesses of concurrent tasks or threads to the same memory (at least one a write, not both atomic) are ordered by synchronisation. "
  "Code running on one locality never reads or writes memory that belongs to another locality.",
  ["schedules", "configurations", "inputs"],
  "all schedules, team and worker counts, locality counts, parameters of all algorithms (component, parallel-loop, OpenMP, study kernels)",
  "A race depends on the interleaving and on the team; unit tests run one schedule and in one address space cannot notice a pointer sent to another locality.",
  [V+"combined.cpp", V+"static_improved.cpp", V+"components/recursive.cpp", V+"components/multiplier.cpp", V+"semi.cpp", V+"algorithms.hpp", V+"looped.hpp", "src/reference_kernels/kernel_test.cpp", "src/reference_kernels/kernel_tiled.cpp", "src/reference_kernels/naive.hpp", "otherExperiments/*.cpp"],
  [("concurrent writers of C", V+"static_improved.cpp insert_submatrix, "+V+"combined.cpp, OpenMP loops")],
  [("C, C_padded, function-local scratch", "shared or private per task", "all variants")],
  ["every memory access of repository code, with happens-before from tasks, futures, messages, barriers, locks, atomics"], True)
p("C11", "Every multiplication finishes: no deadlock with any number of workers",
  "Every multiplication terminates in a number of steps bounded by a fixed multiple of its arithmetic work, for every number of worker threads per locality including one, every team size, every scheduling order and with slow messages and stalled workers. "
  "Choosing the work distribution terminates for every size and limits as well.",
  ["schedules", "configurations", "fault_sequences"],
  "worker counts >= 1 per locality, locality counts, scheduling strategies including starvation and LIFO/FIFO task order, delays and stalls, all algorithms and parameters",
  "Tests use the machine's default worker count and FIFO-like scheduling; blocking on a future with one worker or an adverse task order is not tried.",
  [V+"components/recursive.cpp", V+"static_improved.cpp", V+"single.cpp", V+"combined.cpp", V+"index_iterator.hpp", "src/reference_kernels/kernel_tiled.cpp"],
  [("get()/wait_all inside tasks", V+"components/recursive.cpp"), ("while loop of create_schedule", V+"static_improved.cpp"), ("barriers", "src/reference_kernels/kernel_tiled.cpp")],
  [("outstanding futures", "", V+"components/recursive.cpp")],
  ["simulated steps until matrix_multiply() returns"], True)
p("C12", "The application's --check verdict and exit status are truthful",
  "With --check=true the application reports success exactly when the product it computed equals the reference product, so a corrupted result is always reported as failed; this holds for every algorithm, size, locality count and schedule. "
  "An unknown algorithm ends with exit status 1, an algorithm that cannot handle the requested transposition ends with an exception whose message names the algorithm, and clock jumps do not change the verdict.",
  ["fault_sequences", "schedules", "configurations"],
  "all algorithms of the command line, sizes, block options, locality counts, schedules, a bit flip of any result payload in transit, wall-clock jumps",
  "The application main is not covered by any test.",
  ["src/matrix_multiply_application/matrix_multiply.cpp", "src/util/matrix_multiplication_exception.hpp", "src/reference_kernels/naive.hpp"],
  [("hpx_main / main", "src/matrix_multiply_application/matrix_multiply.cpp")],
  [("C, is_root_node, non_hpx_algorithm", "globals carrying the result from the runtime phase to the check", "src/matrix_multiply_application/matrix_multiply.cpp")],
  ["standard output and exit status of the application"], True)
p("C13", "Tiled storage is a faithful rearrangement under concurrent use and failures",
  "Tiling a two-dimensional row-major matrix (any extents, any tile sizes that divide them), untiling it and visiting its tiles lose, duplicate and move nothing: untiling returns the original, each tile is visited exactly once in row-major order, and tile element (i,j) is matrix element (tile origin + (i,j)), also when several threads tile and visit at the same time. "
  "If an allocation fails or the tiling description has the wrong number of dimensions, the call reports an exception with an intact message and leaves its input unchanged.",
  ["schedules", "fault_sequences", "inputs"],
  "extents, non-square tiles, concurrent callers on shared input and on disjoint tiles, allocation failures at any point",
  "Tests use one square 256x256 matrix with 4x4 tiles, check four tiles, never untile, and never run concurrently or out of memory.",
  ["src/memory_layout/tile_array.hpp", "src/memory_layout/tile_iterator.hpp", "src/memory_layout/tile_view.hpp", "src/memory_layout/util.hpp", "src/memory_layout/loop_nest.hpp", "src/memory_layout/memory_layout_exception.hpp"],
  [("make_tiled / undo_tiling", "src/memory_layout/tile_array.hpp"), ("iterate_tiles", "src/memory_layout/tile_iterator.hpp"), ("tile_view", "src/memory_layout/tile_view.hpp")],
  [("tiled vector", "tiles stored contiguously", "src/memory_layout/tile_array.hpp")],
  ["returned vectors, views, exceptions"], False)
p("C14", "Operands stay unmodified and all memory accesses stay in bounds",
  "No algorithm modifies A or B as seen by its caller. "
  "For every size and parameter in its domain, wherever the allocator places memory and whatever stale contents it returns, every algorithm accesses only memory that is allocated and in scope at that moment, frees each block once, and its result does not depend on the previous contents of fresh memory.",
  ["inputs", "configurations", "schedules"],
  "N >= 1, block sizes as in C01 to C05 and C13, allocator placements and alignments, stale heap contents, schedules",
  "Out-of-bounds reads of a few elements and reads of uninitialised memory usually go unnoticed in a test that only compares results on friendly sizes.",
  ["src/reference_kernels/kernel.hpp", V+"combined.cpp", V+"semi.cpp", V+"algorithms.hpp", V+"looped.hpp", "src/reference_kernels/kernel_tiled.cpp", "src/reference_kernels/kernel_test.cpp", "otherExperiments/*.cpp", "src/memory_layout/tile_array.hpp"],
  [("padded buffers and blocked kernels", "all kernels")],
  [("A, B", "operands shared by all tasks", "all variants")],
  ["operands after the call; every memory access of repository code"], True)
p("C15", "Timing figures and performance",
  "The fastest variants reach the performance documented in the README (up to about 70% of peak).",
  ["configurations"], "machines and sizes", "Performance is not a correctness property of an execution.",
  ["README.md", "evaluate.py"], [("performance output", "src/matrix_multiply_application/matrix_multiply.cpp")],
  [("duration", "measured time", "src/matrix_multiply_application/matrix_multiply.cpp")], ["printed Gflops"], False)
p("C16", "Matrix generators, transposition and index helpers are correct functions",
  "The identity, random and pattern matrix generators, the matrix transposition and the flat-index and loop-nest helpers compute what their names say for every size.",
  ["inputs"], "all sizes", "Not covered directly by tests, but pure functions of their arguments.",
  ["src/util/create_identity_matrix.hpp", "src/util/create_random_matrix.hpp", "src/util/pattern_matrices.hpp", "src/util/transpose_matrix.hpp", "src/memory_layout/util.hpp", "src/memory_layout/loop_nest.hpp"],
  [("helper functions", "src/util/*.hpp")], [("none", "stateless", "src/util")], ["returned matrix"], False)
with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
