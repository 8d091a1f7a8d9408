#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["return of sgemm/dgemm/cgemm/zgemm"]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

ALLK = ["src/gemm.rs", "src/packing.rs", "src/cgemm_common.rs", "src/sgemm_kernel.rs", "src/dgemm_kernel.rs",
        "src/cgemm_kernel.rs", "src/zgemm_kernel.rs"]

prop("C01", "The result is the matrix product, for every size, type and CPU kernel",
 "After sgemm, dgemm, cgemm or zgemm returns, every element of C equals alpha*A*B + beta*C_old: exactly, when all intermediate quantities are exactly representable, and otherwise within the standard forward error bound of that many floating point operations. "
 "This holds for all dimensions m, k, n >= 1 (below, at and above every internal block size) and for every kernel the crate can select on the machine. "
 "A valid call always returns: no panic, no crash, no endless loop.",
 ["inputs", "configurations"],
 "all m,k,n (including multi-block and extremely thin shapes), all element values, all four element types, every x86 kernel variant, std and no_std, debug and release",
 "The tests use fixed small sizes plus a few fixed large ones with one data pattern; block boundaries combine (m x k x n x kernel x masking) and an error at one boundary combination is invisible to a handful of sizes.",
 ALLK + ["src/loopmacros.rs", "src/util.rs"],
 [("five-loop blocking with remainder chunks", "src/gemm.rs:gemm_loop, src/util.rs:range_chunk"),
  ("micro kernels and masked edge tiles", "src/*_kernel.rs, src/gemm.rs:masked_kernel"),
  ("packing with zero padding", "src/packing.rs:pack_impl, src/cgemm_common.rs:pack_complex")])

prop("C02", "Any row/column stride is honoured for A, B and C",
 "Element (i,j) of each matrix is exactly the one at pointer + i*row_stride + j*col_stride: A and B may use any strides, including zero, negative, overlapping or identical storage, and C any strides that do not alias its elements. "
 "The product is the same as if the same values had been given in a plain contiguous layout, whatever the strides' sign, size or order, and however (element-)aligned the pointers are.",
 ["inputs"],
 "all stride pairs for A and B (any sign, zero, overlapping, A and B sharing memory, strides beyond 2^31 elements), all non-aliasing stride pairs of C, all element alignments",
 "Tests cover row major, column major and a few fixed positive strides; the fast paths taken for stride 1 and the arithmetic on signed strides cannot be settled on a few stride values.",
 ALLK,
 [("stride-1 fast path vs general packing", "src/packing.rs:pack_impl"),
  ("store specialisations on rsc == 1 / csc == 1", "src/sgemm_kernel.rs:kernel_x86_avx, src/dgemm_kernel.rs:kernel_x86_avx"),
  ("block offsets via signed stride arithmetic", "src/gemm.rs:gemm_loop stride_offset")])

prop("C03", "With beta = 0 the previous contents of C do not matter",
 "When beta is zero (of either sign, and as a complex number) the result is alpha*A*B regardless of what C held before: NaN, infinities, garbage, or uninitialised memory, and no element of C is read before it is written. "
 "Every element of C is initialised when the call returns, whatever its strides.",
 ["inputs", "configurations"],
 "all shapes and C layouts (including edge tiles, k = 0 and several k-blocks), all prior contents of C including uninitialised memory, beta = +0 and -0, all kernels",
 "Tests fill C with NaN for a few shapes; every kernel and store path has its own beta == 0 branch, and reads of uninitialised memory have no visible effect in a test.",
 ALLK,
 [("beta zero branch in edge tiles", "src/gemm.rs:c_to_masked_ab_beta_c"),
  ("beta zero branch in each unmasked kernel", "src/sgemm_kernel.rs, src/dgemm_kernel.rs"),
  ("beta used for the first k block only", "src/gemm.rs:gemm_loop betap"),
  ("empty product", "src/gemm.rs:c_to_beta_c")])

prop("C04", "Empty dimensions: k = 0 scales C by beta; m = 0 or n = 0 touches nothing",
 "If k = 0, C becomes beta*C (zero if beta is zero, even over NaN or uninitialised contents) and neither A nor B is accessed. "
 "If m = 0 or n = 0 no memory of A, B or C is accessed at all, so null or dangling pointers are fine. "
 "Neither case panics, whatever the strides, scalars and the other dimensions are.",
 ["inputs"],
 "all (m,k,n) with at least one zero, all alpha/beta including zero, NaN and infinities, all C layouts, dangling pointers for what may not be accessed",
 "Tests check one or two zero-size calls with valid pointers; they cannot see that dangling pointers are never dereferenced nor try strides and scalars in combination.",
 ["src/gemm.rs"],
 [("early exit", "src/gemm.rs:gemm_loop"), ("C <- beta C", "src/gemm.rs:c_to_beta_c")])

prop("C05", "Only the m x n elements of C are ever written",
 "A call writes no caller-visible memory other than the elements C(i,j), 0<=i<m, 0<=j<n: not the gaps between them, not memory before or after them, not A or B. "
 "This holds at every moment during the call, not only on return, so a neighbour in a gap may be used by another thread meanwhile.",
 ["inputs", "schedules"],
 "all shapes (especially sizes that do not fill a kernel tile), all non-aliasing C layouts including interleaved ones, all kernels and thread counts, every instant of the call",
 "Tests look at results (and some gaps) afterwards, for few shapes; a transient write that is restored, or one past the end of the allocation, is not visible to them.",
 ["src/gemm.rs", "src/sgemm_kernel.rs", "src/dgemm_kernel.rs", "src/cgemm_common.rs"],
 [("edge tiles go through a scratch tile", "src/gemm.rs:masked_kernel, c_to_masked_ab_beta_c"),
  ("vector stores only for full tiles", "src/sgemm_kernel.rs:kernel_x86_avx, src/dgemm_kernel.rs:kernel_x86_avx")],
 observe=["memory of A, B, C and their surroundings, during and after each call"])

prop("C06", "Only addressed elements of A, B (and C if beta != 0) are ever read",
 "A call reads no element of A, B or C storage that is not addressed by the given dimensions and strides: not gaps, not memory before the first or after the last element, even if the value would be discarded. "
 "Hence a matrix may end right at an unmapped page, or its gaps may be uninitialised or concurrently written by others.",
 ["inputs", "configurations"],
 "all shapes and layouts of A, B, C (tile remainders in m, n and k, unrolled loops' tails), matrices ending or beginning at a page boundary, all kernels",
 "An over-read is silent in a test: its value is normally discarded and the memory behind a vector is mapped.",
 ["src/packing.rs", "src/cgemm_common.rs", "src/gemm.rs", "src/sgemm_kernel.rs", "src/dgemm_kernel.rs"],
 [("packing copies exactly the addressed elements and pads with zeros", "src/packing.rs:pack_impl, src/cgemm_common.rs:pack_complex"),
  ("kernels read packed buffers only", "src/*_kernel.rs")],
 observe=["loads performed during a call (page protection, memcheck shadow state, interpreter)"])

prop("C07", "No undefined behaviour inside a valid call",
 "For valid arguments, the internal working memory is used soundly: nothing is read from it before being written, nothing outside of it is accessed, no misaligned aligned-access is made, memory is freed exactly once with the layout it was requested with, and no aliasing or data-race rule of the language is broken. "
 "This does not depend on the allocator returning memory that is more aligned, larger, or cleaner than requested, nor on the stack or thread-local alignment.",
 ["inputs", "configurations", "schedules"],
 "all shapes, types, kernels, feature sets and thread counts; any allocator that satisfies the allocator contract",
 "Undefined behaviour normally has no visible effect under the default allocator; tests run with generous alignment and slack.",
 ["src/aligned_alloc.rs", "src/gemm.rs", "src/packing.rs", "src/cgemm_common.rs", "src/ptr.rs", "src/threading.rs"] ,
 [("aligned allocation", "src/aligned_alloc.rs:Alloc"), ("packing buffer sizing", "src/gemm.rs:make_packing_buffer"),
  ("mask buffer alignment", "src/gemm.rs:align_ptr, MASK_BUF"), ("per thread packing buffer", "src/gemm.rs:gemm_loop thread_local")],
 observe=["interpreter (Miri), AddressSanitizer, hostile allocator, memcheck"])

prop("C08", "Every build configuration computes the same function",
 "Given the same arguments, all builds of the crate (std or not, threading or not, any CPU kernel, debug or release) accept the same calls and agree: bit for bit when the arithmetic is exact, and within rounding error otherwise. "
 "In particular enabling a feature, debug assertions or compile-time CPU features never turns a valid call into a panic or another result.",
 ["configurations", "inputs"],
 "the product of crate features, kernels, build profiles and compile-time target features, over all inputs",
 "Each test run sees one configuration only and never compares two of them; several configurations (no_std with compiled-in features, debug with unusual strides) are never run.",
 ["src/lib.rs", "src/gemm.rs", "src/loopmacros.rs", "src/x86/macros.rs", "src/cgemm_common.rs", "src/sgemm_kernel.rs", "src/dgemm_kernel.rs", "Cargo.toml"],
 [("kernel dispatch", "src/*_kernel.rs:detect"), ("debug/release loop macros", "src/loopmacros.rs"),
  ("fused multiply add only with std", "src/cgemm_common.rs:fmuladd"), ("feature gated thread support", "src/threading.rs")])

prop("C09", "The number of threads never changes the result, not even in the last bit",
 "With multithreading enabled, the computed C is bit-for-bit the same for every permitted thread count and every schedule, and the same as without the threading feature. "
 "No part of C is skipped or accumulated twice when the work is divided unevenly.",
 ["schedules", "configurations", "inputs"],
 "thread counts 1-4, all shapes around the thresholds at which work is divided, non-associative (rounding) data, arbitrary scheduling delays of the worker threads",
 "Tests run with one thread count and compare with a tolerance on a few shapes; they do not vary schedules.",
 ["src/threading.rs", "src/gemm.rs", "src/util.rs"],
 [("loop 3 / loop 2 work split", "src/threading.rs:LoopThreadConfig, RangeChunkParallel::for_each"),
  ("chunk partition", "src/util.rs:RangeChunk::part")])

prop("C10", "Concurrent calls are safe and independent",
 "Any number of threads may call concurrently as long as their destination elements are distinct (even if interleaved in the same memory) and they only share inputs: every call completes and produces exactly what it would produce alone. "
 "There is no data race, deadlock or cross-talk, including on the very first calls of a process and between calls of different element types and sizes.",
 ["schedules", "histories"],
 "all numbers of callers, interleavings, mixes of types and sizes, thread counts 1-4 and threading off, first-use initialisation races, callers that come and go",
 "The existing tests at most call from the test harness' threads with private data; no test shares inputs or interleaves outputs, and none controls or varies the schedule.",
 ["src/threading.rs", "src/gemm.rs", "src/ptr.rs"],
 [("lazily created global thread pool", "src/threading.rs:REGISTRY"), ("thread local mask buffer", "src/gemm.rs:MASK_BUF"),
  ("per call packing buffer", "src/gemm.rs:make_packing_buffer")],
 state=[("thread pool", "global, shared by all callers", "src/threading.rs:REGISTRY"), ("mask buffer", "one per thread", "src/gemm.rs:MASK_BUF")])

prop("C11", "MATMUL_NUM_THREADS limits the threads used; 1-4, never more",
 "With the threading feature, at most MATMUL_NUM_THREADS threads (including the caller) take part in a call: 1 means single-threaded, 2 to 4 allow that many, larger values and the default (number of physical CPUs) mean at most 4, and a sufficiently large product really is computed by several threads when 2 or more are allowed. "
 "Zero, empty, non-numeric or otherwise unusable values never make a call fail: zero and text that is not a number mean one thread, unset or empty the default (and never more than four threads). "
 "Without the feature no thread is ever created.",
 ["configurations", "inputs"],
 "all values of the environment variable (valid, boundary, huge, malformed, non-unicode, unset), all machine sizes offered, all problem sizes",
 "The variable is read once per process, so one test process can observe only one value, and no test observes which threads work.",
 ["src/threading.rs"],
 [("environment parsing and clamping, pool levels", "src/threading.rs:REGISTRY"), ("threads per loop", "src/threading.rs:LoopThreadConfig::new_impl")],
 observe=["threads of the process and the CPU time each consumes during a call"])

prop("C12", "Auxiliary memory is bounded and everything is given back",
 "Beyond its arguments a call uses an amount of working memory bounded by a constant that does not depend on the matrix dimensions (and proportionally less for small problems), and all of it is released when the call returns. "
 "Repeated calls accumulate nothing: no memory, threads or file descriptors; and the call leaves the process state it found (floating point control state, signal mask, environment, standard output) unchanged.",
 ["inputs", "histories"],
 "all dimensions up to very large ones, all types, long sequences of calls, all thread counts",
 "Tests never look at memory use or residue of a call and cannot run long enough to exhaust anything.",
 ["src/aligned_alloc.rs", "src/gemm.rs", "src/threading.rs"],
 [("packing buffer size capped by block sizes", "src/gemm.rs:make_packing_buffer"), ("release on drop", "src/aligned_alloc.rs:Drop")],
 observe=["global allocator, /proc/self, control registers"])

prop("C13", "Failure to get working memory stops the process, it never corrupts",
 "If the allocator cannot provide the working memory, the call ends through the standard allocation-error mechanism: it never goes on with a null or missing buffer and never returns with an incomplete or wrong C. "
 "When no working memory at all is available, the destination still holds its previous contents at that point.",
 ["fault_sequences"],
 "failure of each single allocation made in a call and of all allocations from any point on, for all types, kernels, sizes and thread counts",
 "Allocation never fails in the tests.",
 ["src/aligned_alloc.rs", "src/gemm.rs"],
 [("null check and handle_alloc_error", "src/aligned_alloc.rs:Alloc::new"), ("allocation precedes the first write to C", "src/gemm.rs:gemm_loop")],
 observe=["exit status, stderr and shared-memory copy of C of a process whose allocator fails on demand"])

prop("C14", "NaN and infinity reach exactly the elements of C that depend on them",
 "A NaN or infinity in row i of A, column j of B or element (i,j) of C (with beta != 0) affects only row i, column j or element (i,j) of the result; all other elements are exactly what they would be without it. "
 "Conversely it is never lost: every element that mathematically depends on it through IEEE arithmetic comes out NaN or infinite accordingly, also next to tile and block edges.",
 ["inputs"],
 "all positions of non-finite values (including beside the zero padding of edge tiles and in any k block), all shapes, types, kernels, and non-finite alpha and beta",
 "The tests only use finite inputs, so that contamination via zero padding or shared tiles (0 * inf) or loss by skipping cannot be seen.",
 ALLK,
 [("edge tile masking", "src/gemm.rs:c_to_masked_ab_beta_c"), ("zero padding in packed buffers", "src/packing.rs, src/cgemm_common.rs")])

prop("C15", "Compile-time block-size settings: honoured if valid, refused if not",
 "With the constconf feature, every setting of a type's NC, KC and MC that satisfies the documented constraints gives correct results, and that type's working memory shrinks or grows accordingly, independently of the other types' settings. "
 "A setting that cannot be supported is refused: a value that is not a number (or does not fit the machine word) fails the build, and an inconsistent combination panics before C is modified. "
 "It never leads to a wrong result or to memory corruption.",
 ["configurations", "inputs"],
 "all values of the 12 settings (odd, tiny, unequal, minimal, maximal, inconsistent, malformed, out of range), all types and kernels of each supported architecture",
 "Settings are fixed at compile time; the test suite is compiled with the defaults only.",
 ["src/archparam.rs", "src/constparse.rs", "src/archparam_defaults.rs", "src/gemm.rs", "src/sgemm_kernel.rs", "src/dgemm_kernel.rs"],
 [("compile-time parsing", "src/constparse.rs"), ("setting selection", "src/archparam.rs, GemmKernel::{nc,kc,mc}"),
  ("validation", "src/gemm.rs:ensure_kernel_params")],
 observe=["build result; results, panics and allocator of binaries built with many settings"])

prop("C16", "Results depend on the arguments only, not on history or placement",
 "Repeating a call with the same arguments gives the same bits: whatever calls of any type and size came before, on whatever thread (new, old, main), in whatever process, and wherever the matrices and the working memory happen to be placed. "
 "The layout of A and B in memory has no influence on the bits of the result either.",
 ["histories", "inputs", "schedules"],
 "all sequences of preceding calls, threads of any age, memory placements and alignments, allocators that return dirty memory, layouts of A and B",
 "Tests start from a fresh process and compare with tolerance; stale contents of reused buffers matter only after particular earlier calls.",
 ["src/gemm.rs", "src/packing.rs", "src/aligned_alloc.rs", "src/cgemm_common.rs"],
 [("packing buffers completely written before use", "src/packing.rs"), ("mask buffer overwritten by each tile", "src/gemm.rs:masked_kernel")],
 state=[("mask buffer", "survives between calls on a thread", "src/gemm.rs:MASK_BUF")])

prop("C17", "Only CPU instructions the machine offers are executed, and they are used",
 "With std, a call executes an extended x86 instruction set (AVX, FMA, AVX2, ...) only if the running CPU and operating system report it, and falls back to a correct baseline computation otherwise; without std, only what was enabled at compile time. "
 "Where the CPU offers AVX or FMA, real products do use them.",
 ["configurations", "inputs"],
 "all CPU feature combinations (each kernel's requirements present or absent independently, including OS support for wide registers), all types and shapes",
 "Tests run on one CPU which has everything; executing an unsupported instruction cannot fail there.",
 ["src/x86/macros.rs", "src/x86/mod.rs", "src/sgemm_kernel.rs", "src/dgemm_kernel.rs", "src/cgemm_kernel.rs", "src/zgemm_kernel.rs", "src/packing.rs"],
 [("runtime / compile time feature detection", "src/x86/macros.rs, src/*_kernel.rs:detect"),
  ("target_feature functions only behind detection", "src/*_kernel.rs, src/packing.rs:pack_avx2")],
 observe=["every instruction executed during a call (single stepping), with an emulated CPUID"])

prop("C18", "Other architectures compute the same: AArch64 NEON, 32-bit, big-endian",
 "On AArch64 (with its own vector kernels), on 32-bit x86 and on big-endian machines the same calls give the same results, obey the same memory footprint, and have no undefined behaviour. "
 "Nothing in the crate depends on pointer width or byte order.",
 ["configurations", "inputs"],
 "all supported target architectures, all shapes and layouts",
 "The tests run on the x86-64 build machine; the AArch64 kernels are not even compiled there.",
 ["src/sgemm_kernel.rs", "src/dgemm_kernel.rs", "src/cgemm_kernel.rs", "src/zgemm_kernel.rs", "src/aarch64/macros.rs", "src/gemm.rs"],
 [("NEON kernels", "src/sgemm_kernel.rs:kernel_target_neon, src/dgemm_kernel.rs:kernel_target_neon"), ("portable fallback", "src/*_kernel.rs:kernel_fallback_impl")],
 observe=["execution of the foreign-target build in the interpreter"])

prop("C19", "alpha scales every product term and beta every old element exactly once",
 "However many internal blocks or threads a product is divided into, alpha multiplies each term of A*B exactly once and beta multiplies each previous element of C exactly once. "
 "No value of alpha or beta is special beyond beta = 0 not reading C: 0, -0, 1, -1, subnormal, huge, and (for complex types) purely real or imaginary scalars follow the same formula.",
 ["inputs"],
 "all scalars alpha, beta (including special values), with k spanning one or many blocks and m, n one or many tiles and threads, all types and kernels",
 "Tests use a few scalar values, mostly on products that fit in one block, where an error of applying a scalar per block is invisible.",
 ["src/gemm.rs", "src/sgemm_kernel.rs", "src/dgemm_kernel.rs", "src/cgemm_common.rs", "src/kernel.rs"],
 [("beta for the first k block, then one", "src/gemm.rs:gemm_loop betap"), ("alpha in each kernel", "src/*_kernel.rs"),
  ("complex multiply", "src/kernel.rs, src/cgemm_kernel.rs, src/zgemm_kernel.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
import re
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P), "properties")
