#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Run after editing; output is committed."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

OPS = ["hwy/ops/x86_128-inl.h", "hwy/ops/x86_256-inl.h", "hwy/ops/x86_512-inl.h", "hwy/ops/x86_avx3-inl.h",
       "hwy/ops/emu128-inl.h", "hwy/ops/scalar-inl.h", "hwy/ops/generic_ops-inl.h", "hwy/ops/shared-inl.h"]
TESTS_OPS = ("The ops tests feed each operation a handful of iota/random vectors on the targets the runner has; "
             "the per-target implementations are hand-written bit tricks whose failures need particular bit patterns, "
             "lane positions, vector sizes or instruction sets.")

p("P01", "Lane arithmetic equals its scalar meaning on every target and vector size",
  "On every supported instruction set, lane type and vector size (including partial vectors), each lane-wise arithmetic operation "
  "- add, subtract, multiply (low, high, even/odd, fixed point), divide, modulo, negate, abs, difference, average, min/max/magnitude, clamp, saturating, fused multiply-add family, complex multiply, square root, rounding, approximate reciprocals, scaling by powers of two - "
  "returns in every lane the value its documentation defines from the same lanes of its inputs, modulo 2^bits for integers and IEEE-754 for floats. "
  "The masked forms return that value where the mask is true and the documented fallback (the given vector, or zero) where it is false, without being disturbed by the inputs of inactive lanes. Approximate reciprocals are accurate to their documented precision; the sign of a zero result of rounding operations is unspecified.",
  ["inputs", "configurations"], "all lane values (incl. signed zeros, subnormals, infinities, NaN, type extremes) x all lane types x all vector sizes x all targets",
  TESTS_OPS, OPS, [("per-target intrinsics and emulations", "hwy/ops/x86_128-inl.h, x86_256-inl.h, x86_512-inl.h"), ("generic fallbacks", "hwy/ops/generic_ops-inl.h")],
  observe=["result lanes stored to memory"])
p("P02", "Bit operations, comparisons and masks equal their scalar meaning",
  "On every supported instruction set, lane type and vector size, bitwise logic, shifts and rotates (constant, uniform and per-lane counts within range), population/leading/trailing zero counts, bit and byte reversal, sign selection, comparisons (including 128-bit pairs), floating-point classification and bit shuffles return in every lane exactly the value defined by the scalar operation. "
  "Masks behave as one boolean per lane: creating, storing, loading, combining, converting, sliding, counting, searching and selecting by them agrees with the same operation on a boolean array, and no bit beyond the last lane is ever reported.",
  ["inputs", "configurations"], "all lane values and all mask patterns x lane types x vector sizes x targets",
  TESTS_OPS, OPS, [("mask representation", "hwy/ops/x86_128-inl.h, x86_512-inl.h"), ("shift/rotate emulation", "hwy/ops/x86_128-inl.h, generic_ops-inl.h")],
  observe=["result lanes / masks stored to memory", "scalar results"])
p("P03", "Permutations, combines, compress and expand move exactly the documented lanes",
  "On every supported instruction set, lane type and vector size, each operation that rearranges lanes (reverse, interleave, zip, combine, concatenate, broadcast, duplicate, shuffle, slide, shift within blocks, table lookup in one or two vectors, block permutation, insert/extract, compress, expand) returns in each documented result lane exactly the input lane (or zero) its definition selects, for every immediate, index vector and mask. "
  "No input lane is lost, duplicated or taken from another block unless the definition says so.",
  ["inputs", "configurations"], "all index vectors, masks and immediates x lane types x vector sizes x targets",
  TESTS_OPS + " Compress/expand tables have up to 2^N entries per lane type.", OPS,
  [("shuffle tables and immediates", "hwy/ops/x86_*-inl.h"), ("generic table lookups, slides", "hwy/ops/generic_ops-inl.h")],
  observe=["result lanes stored to memory"])
p("P04", "Type conversions between lanes are exact, saturating or truncating as documented",
  "On every supported instruction set and vector size, converting lanes between integer and floating-point types of any width (promote, demote, truncate, convert, round to integer, half and bfloat16 conversions, two-vector demotions, even/odd promotion, bit casts and resizes) gives in every lane the documented value: exact when representable, otherwise saturated, truncated or rounded to nearest-even as specified, with out-of-range floating-point inputs mapped to the nearest representable integer (NaN inputs to integers are unspecified). "
  "Result lanes appear in the documented order.",
  ["inputs", "configurations"], "all input values near and beyond every destination range x type pairs x vector sizes x targets",
  TESTS_OPS, OPS + ["hwy/base.h"], [("conversion intrinsics with range fix-ups", "hwy/ops/x86_*-inl.h"), ("generic conversions", "hwy/ops/generic_ops-inl.h")],
  observe=["result lanes stored to memory"])
p("P05", "Memory operations touch exactly the documented bytes and elements",
  "On every supported instruction set, lane type and vector size, loads and stores (aligned, unaligned, partial counts, masked, blended, interleaved with 2 to 4 channels, gather/scatter, expand/compress, safe fill and copy, truncating, streaming) transfer exactly the documented elements between memory and lanes. "
  "Operations with a lane count or documented as not faulting never access memory outside the permitted elements (a partial load may read up to the whole requested count), even next to an unmapped page, and stores leave every other byte unchanged.",
  ["inputs", "configurations"], "all pointers/alignments, counts, masks and index vectors x lane types x vector sizes x targets",
  "Tests place buffers inside larger allocations, so over-reads go unseen and over-writes are only seen when they hit the checked neighbour; counts, masks and alignments are sampled.",
  OPS, [("partial load/store", "hwy/ops/x86_128-inl.h LoadN/StoreN"), ("interleaved access", "hwy/ops/generic_ops-inl.h"), ("gather/scatter", "hwy/ops/x86_*-inl.h")],
  observe=["guard pages", "canary bytes", "result lanes"])
p("P06", "Reductions, widening dot products and crypto steps equal their exact meaning",
  "On every supported instruction set, lane type and vector size, reductions over lanes (sum, min, max, plain and masked), pairwise and grouped sums, sums of absolute differences, and widening multiply-accumulate operations return exactly the mathematically defined result for integers (modulo 2^bits or saturated as documented) and a correctly bounded one for floats (the sign of a zero result is unspecified). "
  "AES round, inverse, key-generation and carry-less multiply operations equal their standard definitions for every input.",
  ["inputs", "configurations"], "all lane values x lane types x vector sizes x targets", TESTS_OPS, OPS,
  [("reductions", "hwy/ops/generic_ops-inl.h, x86_*-inl.h"), ("AES/CLMul native and emulated", "hwy/ops/generic_ops-inl.h, x86_128-inl.h")],
  observe=["result lanes", "scalar results"])
p("P07", "Runtime dispatch always runs an enabled, supported version",
  "Every dynamically dispatched call, from any thread and including the very first one, runs exactly one compiled version of the function: the best one the CPU supports among those compiled and not disabled by the user. "
  "Disabling targets, overriding the set of supported targets for tests and resetting them take effect on later calls, never select a version that is disabled or not compiled in, and always leave at least the baseline available. The targets reported as supported are exactly those whose documented CPU features and operating-system register support are present.",
  ["histories", "schedules", "configurations"], "all x86 machines (feature combinations, OS register state); all sequences of disable/override/reset/query/dispatch calls, dispatch from any number of threads (disable/override are ordered with respect to other calls)",
  "The tests walk one or two sequences on one thread; the caching of the chosen target makes the outcome depend on call order and on races at first use.",
  ["hwy/highway.h", "hwy/targets.h", "hwy/targets.cc", "hwy/per_target.h", "hwy/per_target.cc"],
  [("CPUID/XGETBV feature clusters", "hwy/targets.cc DetectTargets"), ("chosen-target cache", "hwy/targets.h ChosenTarget"), ("detection and masks", "hwy/targets.cc SupportedTargets"), ("dispatch tables", "hwy/highway.h FunctionCache")],
  observe=["target id reported by the called version"])
p("P08", "Full sort yields an ordered permutation of the input",
  "Sorting an array of any supported key type and any length, ascending or descending, on any instruction set, leaves the array in the requested order and containing exactly the same keys (bit for bit, key with its value; equal keys in any order) as before, without touching memory outside the array. "
  "This holds for every input distribution, including many duplicates, presorted and adversarial inputs, infinities, and keys equal to the extreme values of the type; NaN keys are moved to the end (and may be replaced by another NaN).",
  ["inputs", "configurations"], "all arrays (lengths, key types, distributions) x order x targets",
  "Tests sample a few lengths and random distributions; base cases, pivot selection and the degenerate-distribution fallback depend on length and value patterns.",
  ["hwy/contrib/sort/vqsort.h", "hwy/contrib/sort/vqsort-inl.h", "hwy/contrib/sort/sorting_networks-inl.h", "hwy/contrib/sort/traits-inl.h", "hwy/contrib/sort/traits128-inl.h", "hwy/contrib/sort/vqsort.cc"],
  [("partitioning and recursion", "vqsort-inl.h"), ("sorting networks", "sorting_networks-inl.h"), ("key orderings", "traits-inl.h, traits128-inl.h")],
  observe=["array contents, canaries and guard pages"])
p("P09", "Partial sort and selection place the right elements",
  "For any supported key type, length and position, partial sort leaves the requested number of first elements of the sorted order at the front in order, and selection leaves the element that a full sort would put at the requested position there, with no later element ordered before it and no earlier one after it. "
  "In both cases the array remains a permutation of the input and nothing outside it is touched.",
  ["inputs", "configurations"], "all arrays and all positions x key types x order x targets",
  "Tests try a few positions on random inputs; correctness depends on where the position falls relative to pivots and base-case sizes.",
  ["hwy/contrib/sort/vqsort.h", "hwy/contrib/sort/vqsort-inl.h"], [("recursion limited to the side containing k", "hwy/contrib/sort/vqsort-inl.h")],
  observe=["array contents"])
p("P10", "Thread pool runs each task exactly once on a valid worker, then returns",
  "A parallel run over a range calls the function exactly once for each index in the range and no other, with a worker index below the pool's worker count that no other thread uses at the same time, and returns only after all calls have finished. "
  "This holds for any range and number of threads, for consecutive and repeated runs, in every waiting mode and barrier configuration, across mode switches and while self-tuning, and pools can be constructed and destroyed at any time without hanging.",
  ["schedules", "inputs", "histories"], "all thread counts, range sizes, sequences of runs and mode switches, and all interleavings",
  "The existing test observes a few runs under the schedules that occur on an idle machine; lost wakeups, double claims and early returns need particular interleavings.",
  ["hwy/contrib/thread_pool/thread_pool.h", "hwy/contrib/thread_pool/futex.h", "hwy/contrib/thread_pool/spin.h", "hwy/auto_tune.h"],
  [("task claiming and work stealing", "thread_pool.h Worker/Tasks"), ("barriers", "thread_pool.h Barrier*"), ("wait modes", "thread_pool.h, futex.h, spin.h")],
  state=[("per-worker ranges", "begin/end of tasks still to claim", "thread_pool.h Worker"), ("epoch", "run counter the wakeups are keyed to", "thread_pool.h Worker")],
  observe=["callback invocations (index, worker, thread, time)"])
p("P11", "Thread pool synchronizes memory: no data race, effects visible both ways",
  "Writes made before starting a parallel run are visible to every task of that run, writes made by its tasks are visible to the caller after the run returns and to the tasks of later runs, and calls that share a worker index are ordered, all without further synchronization. "
  "The pool's own state is free of data races and of out-of-bounds or use-after-free accesses, including during construction, mode switching, self-tuning and destruction.",
  ["schedules"], "all interleavings of runs, mode switches, construction and destruction",
  "x86 hides missing acquire/release ordering and the existing tests run without a race detector.",
  ["hwy/contrib/thread_pool/thread_pool.h", "hwy/contrib/thread_pool/futex.h", "hwy/contrib/thread_pool/spin.h"],
  [("acquire/release on epoch and barrier counters", "thread_pool.h"), ("futex wait/wake", "futex.h")],
  observe=["ThreadSanitizer happens-before graph of plain accesses in callbacks"])
p("P12", "Aligned allocator returns disjoint, aligned, usable memory and frees it once",
  "Every successful aligned allocation of any nonzero size, through any of the provided interfaces and any custom allocator, is aligned to the documented boundary, has at least the requested bytes writable, does not overlap another live allocation and is returned exactly once, to the deallocator paired with its allocator and with the pointer that allocator gave out. "
  "Constructors and destructors of elements each run exactly once per element with the arguments given, and requests that cannot be satisfied (exhausted allocator, size overflow) yield null instead of short memory.",
  ["inputs", "histories", "fault_sequences"], "all sizes and sequences of allocate/free, allocator failures, element counts that overflow",
  "Tests try some sizes; alignment offsets cycle over many allocations and overflow depends on element size.",
  ["hwy/aligned_allocator.h", "hwy/aligned_allocator.cc"], [("header before payload and alias offsets", "aligned_allocator.cc"), ("overflow checks", "aligned_allocator.h")],
  observe=["returned pointers", "calls into custom allocator"])
p("P13", "Images and multi-dimensional arrays address disjoint, aligned, padded rows",
  "For every image size and element type, rows are vector-aligned, spaced at least the row width plus the guaranteed padding apart, pairwise disjoint and inside the allocation, so whole-vector accesses that start in a row stay inside memory owned by the image. "
  "Multi-dimensional aligned arrays have the same property per row, moving or swapping transfers contents unchanged, and shrinking an image keeps its pixels.",
  ["inputs"], "all widths, heights, element types, ranks and shapes",
  "Tests check a few sizes; aliasing-avoidance and padding depend on size in ways only particular widths expose.",
  ["hwy/contrib/image/image.h", "hwy/contrib/image/image.cc", "hwy/aligned_allocator.h"], [("BytesPerRow", "hwy/contrib/image/image.cc"), ("AlignedNDArray strides", "hwy/aligned_allocator.h")],
  observe=["row addresses", "ASan on whole-vector row accesses"])
p("P14", "Array algorithms process every element once and stay in bounds",
  "The fill, copy, copy-if, find, find-if, generate, foreach and transform/replace algorithms give, for every array length and alignment, exactly the result of the scalar loop they describe, in order. "
  "They neither read nor write outside the arrays they are given, except for the vector of slack that conditional copy documents for its output.",
  ["inputs", "configurations"], "all lengths, alignments, contents and lane types x targets",
  "Tests sample lengths with padding behind the buffers, so remainder-handling errors at particular lengths or over-reads are not seen.",
  ["hwy/contrib/algo/copy-inl.h", "hwy/contrib/algo/find-inl.h", "hwy/contrib/algo/transform-inl.h"],
  [("main loop plus partial remainder", "hwy/contrib/algo/*-inl.h")], observe=["array contents, guard pages"])
p("P15", "Vector math functions stay within their documented error",
  "Each vectorized math function (exponential, logarithmic, trigonometric, inverse trigonometric, hyperbolic, hypotenuse, combined sine and cosine) returns, for every argument in its documented range, a value within the documented number of ULP of the exact result, on every instruction set and vector size. "
  "Each lane's result depends only on that lane's input, and special arguments give the results the documentation promises (for atan2, the documented result for every combination of signs, zeros and infinities).",
  ["inputs", "configurations"], "all float32 arguments (feasible exhaustively) and all float64 arguments x targets",
  "Tests sample each range sparsely; range-reduction errors appear only near particular arguments.",
  ["hwy/contrib/math/math-inl.h"], [("polynomials and range reduction", "hwy/contrib/math/math-inl.h")], observe=["result lanes"])
p("P16", "Dot products and matrix-vector products equal the exact sum within rounding",
  "For every length and pointer alignment satisfying the stated assumptions, the dot product and matrix-vector kernels, for all supported element type combinations, return the mathematical result up to floating-point rounding of the terms involved, including every element exactly once. "
  "They read and write only the elements passed to them.",
  ["inputs", "configurations"], "all lengths, assumption flags, values and matrix shapes x targets",
  "Tests sample lengths and compare with a loose tolerance; a dropped or duplicated remainder element needs particular lengths and flags.",
  ["hwy/contrib/dot/dot-inl.h", "hwy/contrib/matvec/matvec-inl.h"], [("unrolled loops with remainder handling", "dot-inl.h"), ("row partition over pool", "matvec-inl.h")],
  observe=["results, guard pages"])
p("P17", "Bit packing round-trips every value at every bit width",
  "For every bit width and every block of raw values that fit in it (after subtracting the frame of reference, where one is given), packing and then unpacking returns the same values, packing writes exactly the documented number of bytes, and the packed data contains each value exactly once (distinct inputs give distinct packed data). "
  "This holds on every instruction set.",
  ["inputs", "configurations"], "all bit widths x all raw values x targets",
  "Tests round-trip random data per width; an error may affect only a lane/bit-position combination or show only against other bits.",
  ["hwy/contrib/bit_pack/bit_pack-inl.h"], [("Pack8/16/32/64 specializations", "hwy/contrib/bit_pack/bit_pack-inl.h")], observe=["packed bytes, unpacked values"])
p("P18", "Vector random generator lanes equal the reference generator streams",
  "Each lane of the vectorized random generator produces exactly the sequence of the reference scalar generator jumped to that lane's (and thread's) stream, independent of vector size and instruction set for the same lane, and uniform floating-point outputs lie in the half-open unit interval and are derived from the documented bits. "
  "The buffered and batch interfaces return the same values in the same order as stepwise generation.",
  ["inputs", "configurations", "histories"], "all seeds, thread numbers, counts and sequences of calls x targets",
  "Tests compare a few seeds and lengths.",
  ["hwy/contrib/random/random-inl.h"], [("xoshiro256++ with jump polynomials", "hwy/contrib/random/random-inl.h")], observe=["generated values"])
p("P19", "Half and bfloat16 scalar types convert and compare like IEEE-754",
  "Converting any 32-bit or 64-bit float to the half-precision or bfloat16 scalar type rounds to nearest with ties to even (infinities, NaN-ness, signed zeros and subnormals preserved), and converting any of their 65536 values back is exact. "
  "Comparison operators on these types, and arithmetic operators where the compiler provides them, agree with computing in single precision and rounding.",
  ["inputs"], "all 2^32 float32 bit patterns, all 2^16 16-bit patterns",
  "Tests use a table of values.", ["hwy/base.h"], [("F32FromF16/F16FromF32/BF16FromF32", "hwy/base.h")], observe=["result bits"])
p("P20", "Scalar integer helpers are exact for every input",
  "Division and remainder by a precomputed 32- or 64-bit divisor equal the built-in operators for every numerator and every nonzero divisor, and 64x64-bit multiplication returns the exact 128-bit product. "
  "Zero-bit and population counts, base-2 logarithms, rounding-up/down and rounded-up division (where the intermediate sum is representable), shifts, sign and classification helpers for integers and floats, comparisons of 128-bit values and key-value pairs, byte copies and type limits agree with their mathematical definitions over their whole domain.",
  ["inputs"], "all integer operands", "Tests sample a few operands; reciprocal-multiplication errors hit isolated numerator/divisor pairs.",
  ["hwy/base.h"], [("Divisor, Divisor64", "hwy/base.h"), ("Mul128, MulHigh, PopCount, Num0Bits*", "hwy/base.h")], observe=["return values"])
p("P21", "Bit sets behave like a set of integers",
  "For every sequence of set, conditional set, clear and bulk set (non-zero bits from a word) operations, the bit set of any capacity reports exactly the members a mathematical set would have: membership, any, count, first, words of members and iteration in ascending order, each member once. "
  "No operation on valid indices touches memory outside the bit set, also for capacities that are not a multiple of the word size.",
  ["histories", "inputs"], "all operation sequences and capacities", "Tests cover chosen patterns and word-multiple capacities.",
  ["hwy/bit_set.h"], [("two-level bit array", "hwy/bit_set.h BitSet4096")], observe=["query results, ASan"])
p("P22", "Auto-tuner always converges to a valid candidate and reports it stably",
  "For every set of candidates and every sequence of reported costs, including noisy, equal and extreme ones, the tuner only ever proposes candidates from the given set, finishes after finitely many reports, and from then on keeps proposing one fixed best candidate. "
  "When one candidate's cost is consistently and clearly lowest, that candidate is the one chosen.",
  ["histories", "inputs"], "all candidate counts and cost sequences", "Tests drive one or two synthetic cost models.",
  ["hwy/auto_tune.h"], [("successive elimination", "hwy/auto_tune.h AutoTune/CostDistribution/NextWithSkip")], observe=["proposed candidates, best"])
p("P23", "Statistics accumulators match the exact sample statistics",
  "For every sequence of samples, the running count, minimum, maximum, mean, geometric mean, variance, skewness and kurtosis equal those of the whole sample up to rounding, and merging accumulators equals accumulating the concatenated sample. "
  "Median, absolute-deviation and half-sample mode estimators on unsigned integers return the exact statistic of their input (averages of two middle values round up, ties go to the first), and histograms count every sample in exactly one bin.",
  ["inputs", "histories"], "all sample sequences and merge trees", "Tests cover few or none of these helpers.",
  ["hwy/stats.h", "hwy/stats.cc", "hwy/robust_statistics.h"], [("online moments and merge", "hwy/stats.h"), ("half-sample mode, median", "hwy/robust_statistics.h")], observe=["returned statistics"])
p("P24", "Fatal and warning reports reach the installed handler, then abort",
  "A failed runtime assertion or abort call formats its message, delivers it with file and line once to the currently installed handler, and never returns to the caller even if the handler does; warnings reach the warning handler once and return. "
  "Installing a handler returns the previous one, removing it restores the default behaviour, arbitrarily long messages never overrun a buffer (they may be cut, but not within the first 400 characters), and concurrent installation and reporting is race-free.",
  ["histories", "schedules", "inputs"], "all messages, handler sequences and thread interleavings",
  "Tests install one handler on one thread with a short message.",
  ["hwy/abort.cc", "hwy/abort.h", "hwy/base.h"], [("handler atomics and fallback abort", "hwy/abort.cc")], observe=["handler calls, child exit status"])
p("P25", "Topology and affinity queries describe the machine consistently",
  "The reported topology lists each logical processor exactly once with package, cluster and core indices that match what the operating system exposes, and each cluster's processor set is exactly the processors assigned to it. "
  "Setting the calling thread's affinity to any allowed non-empty set and reading it back gives exactly that set, regardless of the previous content of the output, and pinning to one processor makes the thread run there. The data cache description gives each level the size, line size, associativity and sharing the operating system reports.",
  ["configurations", "inputs"], "all machines/cpusets the check can observe and all affinity subsets",
  "The test only prints the topology and checks loose sanity.",
  ["hwy/contrib/thread_pool/topology.h", "hwy/contrib/thread_pool/topology.cc"], [("sysfs parsing", "topology.cc"), ("sched_setaffinity", "topology.cc")], observe=["topology structure, sched_getaffinity"])
p("P26", "Unrolled array kernels equal the scalar loop for every length",
  "Running a user-defined vector kernel through the unroller over arrays of any length gives exactly the result of applying it element by element (for maps) or combining all elements once (for reductions and searches), whatever the unroll factor, alignment and remainder. "
  "Input and output arrays are never accessed outside their bounds.",
  ["inputs", "configurations"], "all lengths (from one element), unroll factors, types and kernels x targets",
  "Tests use a few lengths and kernels.", ["hwy/contrib/unroller/unroller-inl.h"], [("main/tail loops with partial vectors", "hwy/contrib/unroller/unroller-inl.h")], observe=["arrays, guard pages"])
p("P27", "Spin and futex waits wake for every published value and return what was stored",
  "A thread waiting through any of the spin or futex primitives for a value to change or to reach a target returns only once that condition was true, with a value actually stored, and always returns after a matching store and wake. "
  "Everything written before the store is visible to the waiter afterwards.",
  ["schedules"], "all interleavings of one or more waiters with a publishing thread", "Tests run each primitive once per schedule.",
  ["hwy/contrib/thread_pool/spin.h", "hwy/contrib/thread_pool/futex.h"], [("monitor/mwait or pause spin", "spin.h"), ("futex syscall", "futex.h")], observe=["returned values, TSan"])
p("P28", "Lane types, tags and dispatch metadata agree with the vectors they describe",
  "For every tag, the reported lane count, byte size, block count and derived tags (half, twice, rebind, repartition) are consistent with each other, within the documented bounds, and with the number of elements a vector of that tag actually stores. "
  "Printing a vector or value yields text that denotes the stored values (integers exactly, floats of any magnitude to the printed number of digits) in lane order, including the requested lane.",
  ["configurations", "inputs"], "all tags, lane types, targets", "Tests check selected tags.",
  ["hwy/ops/shared-inl.h", "hwy/print.cc", "hwy/print-inl.h", "hwy/base.h"], [("Simd<T,N,kPow2>", "hwy/ops/shared-inl.h"), ("ToString/TypeName/PrintArray", "hwy/print.cc")], observe=["stored bytes, printed text"])
p("P29", "Profiler reports exact call counts and self times of every zone",
  "After any number of threads entered and left any nesting of zones within the documented limits, the report lists each zone name exactly once, with the exact number of calls summed over threads and functions of the same name, and with the time spent in it excluding nested zones (up to the deducted observer overhead), in descending order of total time. "
  "This holds however often the storage for events fills up meanwhile, and a report without any zone is empty.",
  ["histories", "schedules"], "all zone trees, thread counts and numbers of events",
  "There is no test, only an example that prints a report.", ["hwy/profiler.h"], [("packet buffer and storage", "hwy/profiler.h"), ("self-organizing list of zones, merging duplicates", "hwy/profiler.h")], observe=["report text"])
p("P30", "Benchmark results and timers equal the time that passed",
  "Measuring a function calls it only with the given inputs, in their given proportions, and returns either no result or one per distinct input; for a function whose duration depends only on the input, the result is that duration up to the requested tolerance, also if a minority of the runs are interrupted. "
  "Timer readings never decrease on a thread, seconds follow the ticks at the reported rate, the resolution is the duration of back to back readings, and the CPU description and timer support reported are those of the CPU.",
  ["inputs", "schedules"], "all cost functions, input multisets, clock resolutions and interruption patterns; all CPUs",
  "The test prints the measured durations of two functions.", ["hwy/nanobenchmark.h", "hwy/nanobenchmark.cc", "hwy/timer.h", "hwy/timer.cc"], [("subset of inputs, overhead deduction", "hwy/nanobenchmark.cc"), ("RDTSCP/brand string detection", "hwy/timer.cc")], observe=["calls of the measured function, results"])
p("P31", "Performance counters report what the operating system counted",
  "For every set of events the system supports, initialization opens each available counter once and succeeds exactly if at least one is available; each counter is reported valid exactly if it was opened and read, with the value the system counted for that event since the last reset, scaled by enabled over running time of its group. "
  "Starting, stopping and resetting affects all counters, interrupted system calls are retried, and read errors make all counters invalid instead of wrong.",
  ["configurations", "histories", "faults"], "all kernels (supported events, group sizes, multiplexing, interruptions) and call sequences",
  "The test skips itself if counters are unavailable, as in this sandbox.", ["hwy/perf_counters.h", "hwy/perf_counters.cc"], [("grouping of events, packed indices, extrapolation", "hwy/perf_counters.cc")], observe=["system calls, reported values"])
p("P32", "Vector code has no undefined behaviour and never depends on uninitialised data",
  "For all valid arguments, whatever the lanes contain, every vector operation and every array kernel built from them (algorithms, unroller, dot products, bit packing, random numbers, math functions) runs without undefined behaviour of the language: no signed overflow, shift by the width or more, out-of-range conversion from floating point to integer, invalid boolean or enumeration, index outside an array, or null access. "
  "Each documented result lane depends only on the given lanes and memory, never on uninitialised data or on undefined lanes of vectors.",
  ["inputs", "configurations"], "all lane values and valid arguments, types, vector sizes, targets",
  "Tests compare a few results, which often look right although the code relied on overflow or leftover data, until a compiler or its optimisation level changes.", ["hwy/ops", "hwy/base.h", "hwy/contrib"], [("portable vector operations", "hwy/ops/emu128-inl.h"), ("generic operations", "hwy/ops/generic_ops-inl.h")], observe=["sanitizer reports, shadow of result lanes"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
