#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)
import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("P01","Element-wise operations compute the documented function of their operands",
 "Every element-wise operation (arithmetic, wide and high multiplication, fused multiply-add, minimum/maximum in both NaN flavours, rounding, comparisons, bit manipulation, shifts, selection, masked and/or) returns, in every lane, the value of the corresponding scalar operation on that lane's operands, for every numeric type it supports. "
 "The result is the same whether an operand is a compile-time literal, a size-1 value that is broadcast, an unevaluated expression or evaluated memory, and whether two operands are the same variable. "
 "Results are exact, except that reciprocal square roots and division by a floating point literal may differ from the correctly rounded value by a few units in the last place, and the sign of a zero and NaN payloads are unspecified.",
 ["inputs","programs"],"all operand bit patterns in the defined domain of each operation, all types, all operand forms, all array sizes",
 "Unit tests check a few operations on a handful of small values, almost none of them 8/16/64-bit, special floats or mixed literal/evaluated operand forms.",
 ["src/op.cpp","src/llvm_eval.cpp","src/var.cpp","include/drjit-core/half.h"],
 [("constant folding and algebraic simplification","src/op.cpp"),("LLVM IR generation per operation","src/llvm_eval.cpp: jitc_llvm_render")],["jit_var_read","jit_var_data"])
p("P02","Type conversions and bit reinterpretations follow the scalar conversion",
 "Casting an array to another type yields in every lane the C++ conversion of that lane's value (rounding to nearest-even into narrower floats, truncation of in-range floats to integers, modular narrowing of integers, non-zero test into Boolean), and a reinterpreting cast preserves the bits. "
 "This holds identically for literals, evaluated arrays and unevaluated expressions, including when a rounding operation immediately precedes the cast. "
 "A reinterpreting cast between types of different size is rejected with an exception.",
 ["inputs","programs"],"all ordered pairs of types, all source values representable in the target, all operand forms",
 "The single cast test converts one small vector per type pair and never a half-way, saturating or fused rounding case.",
 ["src/op.cpp","src/llvm_eval.cpp","include/drjit-core/half.h"],
 [("cast folding and round-then-cast fusion","src/op.cpp: jitc_var_cast"),("two-step half/double conversion","src/llvm_eval.cpp")],["jit_var_read"])
p("P03","Optimizations, configuration and evaluation points never change results",
 "A traced program yields the same values whether or not constant propagation, value numbering, packet memory operations, symbolic evaluation, loop/call optimizations, kernel history or debug mode are enabled, for every SIMD width, block size, thread count and task interleaving, and however it is cut into kernels by intermediate evaluations. "
 "In particular two expressions are merged only if they are equal in every lane, and an expression never takes the value of an earlier, already destroyed one.",
 ["programs","configurations","schedules"],"all programs over the tracing API and all combinations of flags, widths, block sizes, thread counts, schedules and evaluation points",
 "Tests run each tiny program under one or two flag settings with one vector width, default blocks and an uncontrolled schedule.",
 ["src/var.cpp","src/op.cpp","src/eval.cpp","src/llvm_ts.cpp","src/llvm_core.cpp"],
 [("value numbering table keyed by node contents and scope","src/var.cpp: jitc_var_new"),("schedule/group formation by size","src/eval.cpp"),("work splitting","src/llvm_ts.cpp: LLVMThreadState::launch")],["jit_var_read"])
p("P04","Gathers read exactly the addressed elements of active lanes",
 "A gather returns the addressed source element in every active lane and zero in every masked lane, for every source (literal, evaluated, unevaluated, scalar, result of earlier scatters), index integer type and element type, independent of internal shortcuts. "
 "A packet gather of n components equals n separate gathers at n*index+k. Out-of-bounds indices in masked lanes are harmless.",
 ["inputs","programs"],"all types, sizes, index vectors, masks, packet sizes and source forms",
 "Tests gather a few elements with identity or constant indices; masked packets, re-indexed sources and odd sizes are not sampled.",
 ["src/op.cpp","src/llvm_eval.cpp","src/llvm_packet.cpp"],
 [("identity/scalar/re-index shortcuts","src/op.cpp: jitc_var_gather"),("packet gather","src/llvm_packet.cpp")],["jit_var_read"])
p("P05","Scatters write exactly the addressed elements of active lanes, in order",
 "A scatter returns an array that equals the target except at the positions addressed by active lanes, which hold the value of (one of) the lanes addressing them. "
 "Successive scatters to an array take effect in program order, with reads of the array in between seeing exactly the earlier ones. "
 "A packet scatter of n components equals n separate scatters at n*index+k.",
 ["inputs","programs","histories"],"all types, sizes, index vectors, masks, packet sizes, modes and sequences of scatters interleaved with reads and evaluations",
 "Tests issue single scatters or one fixed pair of them.",
 ["src/op.cpp","src/llvm_scatter.cpp","src/llvm_packet.cpp","src/eval.cpp","src/var.cpp"],
 [("dirty tracking and flush before conflicting access","src/op.cpp: jitc_var_scatter"),("masked scatter code","src/llvm_scatter.cpp")],["jit_var_read"])
p("P06","Scatter-reductions combine every active contribution exactly once",
 "After a scatter-reduction (addition, minimum, maximum, bitwise and/or; plain or packet) every target element equals the reduction of its previous value with the values of all active lanes that address it, each exactly once, for every reduction mode, target size, conflict pattern, vector width and number of threads. "
 "This holds for sequences of reductions on the same target and when the target is used or further modified afterwards; unsupported combinations raise an exception instead of returning a wrong result.",
 ["inputs","programs","schedules"],"all operations, types, modes, index collision patterns, masks, target sizes around the expansion threshold, and thread interleavings",
 "Tests reduce fixed index patterns with one mode and cannot see lost updates of rare collisions or of other schedules.",
 ["src/op.cpp","src/llvm_scatter.cpp","src/llvm_packet.cpp","src/var.cpp","src/llvm_ts.cpp"],
 [("reduction mode inference and expansion","src/op.cpp: jitc_var_infer_reduce_mode; src/var.cpp: jitc_var_expand"),("conflict-resolving local reduction","src/llvm_scatter.cpp"),("reduce_expanded","src/llvm_ts.cpp")],["jit_var_read"])
p("P07","Atomic increment, exchange and compare-and-swap are linearizable",
 "Scatter-increment gives the active lanes that address a counter distinct tickets filling the range from its old to its new value; exchange returns to each active lane a value so that old contents, written values and final contents form one chain per element; compare-and-swap succeeds in exactly the lanes for which some sequential order of the operations says so, and reports the value seen. "
 "Inactive lanes perform no access. This holds for every conflict pattern, mask, vector width and interleaving of threads.",
 ["inputs","schedules"],"all element types, index collision patterns, masks, sizes and thread interleavings",
 "Tests use one or two fixed conflict patterns in a single thread.",
 ["src/op.cpp","src/llvm_scatter.cpp"],
 [("scatter_inc conflict counting","src/llvm_scatter.cpp"),("cmpxchg loops","src/llvm_scatter.cpp")],["jit_var_read"])
p("P08","A live variable never changes because of operations on another one",
 "Contents observed through a variable handle change only by an operation that is documented to modify that very handle: scatters, element writes, resizes and buffer reuse act on a private copy whenever another handle, alias, pending computation or cached pointer still refers to the data. "
 "A computation traced before a modification sees the old contents, one traced after it sees the new contents, whenever either is evaluated.",
 ["histories","programs"],"all histories of creation, copying, aliasing, reading, scattering, element writes, resizing, evaluation and destruction over a set of handles",
 "Each test exercises one aliasing pattern; the guarantee ranges over arbitrary histories with pending lazily evaluated work.",
 ["src/op.cpp","src/var.cpp","src/eval.cpp","src/malloc.cpp"],
 [("copy-on-write by reference count","src/op.cpp: jitc_var_scatter; src/var.cpp: jitc_var_write"),("dirty flags and scheduled side effects","src/var.cpp: jitc_var_mark_side_effect")],["jit_var_read","jit_var_data"])
p("P09","A symbolic loop equals running the loop separately in every lane",
 "Recording a loop symbolically produces, for every lane, the loop state obtained by iterating the body while that lane's condition holds, including zero iterations, lanes finishing at different times, loop-invariant and unused state, nested loops and nested conditionals. "
 "Side effects (scatters, reductions) inside the body happen exactly once per active lane and iteration. Optimizing the loop state changes neither.",
 ["programs","inputs"],"all loop bodies over the tracing API, state sets, trip count vectors and optimization settings",
 "The loop tests are about ten fixed programs.",
 ["src/loop.cpp","src/llvm_eval.cpp","src/var.cpp"],
 [("loop recording, invariant/redundant state elimination","src/loop.cpp: jitc_var_loop_end"),("loop code generation","src/llvm_eval.cpp")],["jit_var_read"])
p("P10","A symbolic conditional equals selecting the branch separately in every lane",
 "A symbolically recorded conditional returns in every lane the outputs of the branch chosen by that lane's condition, and the side effects of a branch happen exactly in the lanes that take it, for arbitrary branch bodies, literal conditions, nested conditionals and outputs that are unused, identical or constant in both branches.",
 ["programs","inputs"],"all pairs of branch bodies, condition vectors and nestings",
 "No test in the suite exercises conditionals except through two loop tests.",
 ["src/cond.cpp","src/llvm_eval.cpp"],
 [("branch recording and output merging","src/cond.cpp"),("conditional code generation","src/llvm_eval.cpp")],["jit_var_read"])
p("P11","An indirect call equals calling each lane's target directly",
 "Calling a set of functions through an array of instance IDs yields in every lane the outputs of the selected function on that lane's inputs, and zero in lanes with a null or masked target. "
 "Data captured by each function, outputs that are constant or unused, side effects inside the functions, and nested calls, loops or conditionals in them behave as in the direct call, whatever merging, devirtualization or data packing is applied.",
 ["programs","inputs","configurations"],"all sets of callable bodies, captured data, ID vectors, masks and call optimization flags",
 "Tests cover a few fixed two- or three-method classes.",
 ["src/call.cpp","src/llvm_eval.cpp","src/eval.cpp"],
 [("output devirtualization and call-data layout","src/call.cpp"),("dispatch code","src/llvm_eval.cpp")],["jit_var_read"])
p("P12","Per-lane local arrays behave like ordinary arrays in every lane",
 "An array variable behaves in every lane as an independent array: reads return the last value written by that lane to that position or the initial value, writes in masked lanes do nothing, and earlier versions of the array remain unchanged. "
 "This holds for constant and per-lane indices, inside loops and conditionals, through selection, copies and evaluation.",
 ["programs","histories"],"all sequences of initialisation, reads, writes, selections and evaluations, for all element types and lengths",
 "Tests check a fixed write/read pattern of one length.",
 ["src/array.cpp","src/llvm_array.cpp"],
 [("functional update with in-place reuse","src/array.cpp"),("alloca-based storage","src/llvm_array.cpp")],["jit_var_read"])
p("P13","Reductions and prefix reductions over blocks combine exactly their block",
 "Block reductions, inclusive/exclusive forward/reverse block prefix reductions, whole-array reductions, dot products and all/any return the reduction of exactly the elements in each block (the last block may be partial), for every operation, element type, array size, block size and thread schedule. "
 "Integer, Boolean and exactly representable floating point cases are bit-exact; symbolic and evaluated evaluation strategies agree.",
 ["inputs","configurations","schedules"],"all operations, types, sizes, block sizes and strategies",
 "Tests sample a few power-of-two and odd sizes of one or two types.",
 ["src/llvm_ts.cpp","src/llvm_red.h","src/var.cpp","src/util.cpp"],
 [("chunked reduction kernels","src/llvm_ts.cpp, src/llvm_red.h"),("symbolic/evaluated strategy choice","src/var.cpp: jitc_var_block_reduce")],["jit_var_read"])
p("P14","Compaction and key sorting return exact stable permutations",
 "Compressing a mask yields the ascending list of the indices of its set entries and their exact count, and bucketing keys yields a permutation that lists the indices of every bucket contiguously and completely, with bucket offsets and sizes that match, for every mask or key array, number of buckets, block size and thread count.",
 ["inputs","schedules"],"all masks, key vectors, bucket counts, sizes and thread counts",
 "Tests sample a few random arrays with fixed bucket counts.",
 ["src/llvm_ts.cpp","src/util.cpp","src/var.cpp"],
 [("two-pass counting with per-block offsets","src/llvm_ts.cpp: compress, block_mkperm")],["jit_compress","jit_block_mkperm","jit_var_compress"])
p("P15","Structural array operations move exactly the documented elements",
 "Creating an array from host memory, literals, counters or mapped memory, reading or writing single elements, copying, resizing, shrinking, tiling, repeating and reversing return arrays of the documented size whose elements are exactly the documented ones, for every type (including Booleans and sub-word types), size and evaluation state. "
 "Bulk memory copies, fills, aggregations of records from scattered sources, and pokes transfer exactly the specified bytes and nothing beyond.",
 ["inputs","programs"],"all types, sizes, parameters and evaluation states",
 "Tests use one or two sizes per operation.",
 ["src/var.cpp","src/llvm_ts.cpp","src/api.cpp","include/drjit-core/array.h"],
 [("element access and copies","src/var.cpp"),("memset/memcpy/poke/aggregate tasks","src/llvm_ts.cpp")],["jit_var_read","jit_memcpy"])
p("P16","Replaying a frozen recording equals executing the recorded code again",
 "A recording of kernel launches, reductions, memory operations and side effects replayed with new inputs of compatible layout returns what running the recorded code on these inputs would return, and modifies the same inputs in the same way, including inputs of different size where replay accepts them. "
 "Aborting, dry runs, repeated replays and destruction leave all other variables untouched.",
 ["programs","histories","inputs"],"all recordable programs, input values and sizes, numbers of replays",
 "Tests replay about twenty fixed functions once or twice.",
 ["src/record_ts.cpp","src/record_ts.h"],
 [("operation list with slot references and size inference","src/record_ts.cpp")],["jit_freeze_replay"])
p("P17","Cooperative vector operations equal ordinary element-wise arithmetic",
 "Packing, unpacking, casting, element-wise unary/binary/ternary operations, loads, matrix-vector products with optional bias and transpose, accumulation into memory, and matrix packing/unpacking on cooperative vectors give in every lane what the same operations give on ordinary arrays and row-major matrices.",
 ["inputs","programs"],"all vector lengths, matrix shapes, offsets, strides, element types and operation sequences",
 "No test in the suite exercises cooperative vectors.",
 ["src/coop_vec.cpp","src/llvm_coop_vec.cpp"],
 [("expansion into per-component operations","src/llvm_coop_vec.cpp"),("matrix layout conversion","src/coop_vec.cpp")],["jit_var_read"])
p("P18","Batched matrix multiplication equals the reference product",
 "Batched matrix multiplication computes for every batch entry the product of the two matrices with the requested transpositions, strides, scaling and accumulation, writing exactly the elements of the result, for every shape (including sizes smaller than or not divisible by internal tiles), type and schedule.",
 ["inputs","schedules"],"all shapes, transposition flags, batch structures, types and schedules",
 "No test in the suite multiplies matrices.",
 ["src/llvm_gemm.h","src/llvm_ts.cpp","src/var.cpp"],
 [("tiled micro-kernels","src/llvm_gemm.h")],["jit_var_read"])
p("P19","The instance registry is a bijection between pointers and small IDs",
 "Registering a pointer under a variant and domain gives a positive ID that no other live pointer of that variant and domain has, that is as small as possible, and that maps back to exactly this pointer until it is removed; the ID bound and pointer lists reflect exactly the live registrations. "
 "Removing, re-registering and concurrent registration never yield stale or duplicate mappings, and misuse is rejected without changing the registry.",
 ["histories","schedules"],"all histories of put, remove, lookup and clear over several variants, domains and threads",
 "Tests register a few objects in order and never interleave removals or domains.",
 ["src/registry.cpp"],[("per-domain forward table with free-list heap and reverse map","src/registry.cpp")],["jit_registry_ptr","jit_registry_id"])
p("P20","The caching allocator never hands out memory that is still in use",
 "Memory returned by the allocator is suitably aligned, at least as large as requested, disjoint from every live block and from blocks that asynchronous work still uses, and keeps its contents until it is freed; migration preserves contents. "
 "Usage, peak and leak accounting agree with the history of requests, and flushing the cache affects no live block.",
 ["histories","schedules"],"all histories of allocation, release, migration, use by kernels and cache flushes, in several threads and flavours",
 "Tests allocate a handful of blocks in one order.",
 ["src/malloc.cpp","src/malloc.h"],[("size-class free lists and packed allocation records","src/malloc.cpp"),("release ordered after outstanding work","src/malloc.cpp: jitc_free; src/llvm_ts.cpp")],["jit_malloc","jit_free","jit_malloc_watermark"])
p("P21","Reference counting releases every variable and buffer exactly when unused",
 "A variable stays usable while any reference to it exists, and once all references are dropped its node, its operands, its memory, its callbacks (invoked exactly once for release) and pending side effects holding it are released, after any history of operations, evaluations, symbolic recordings, exceptions and rollbacks. "
 "When the program has dropped all handles no variable or device memory remains in use.",
 ["histories","programs"],"all histories of API calls including failing ones",
 "Leak checks at the end of each unit test only see those few histories.",
 ["src/var.cpp","src/eval.cpp","src/loop.cpp","src/call.cpp","src/cond.cpp"],
 [("reference counts and recursive release","src/var.cpp: jitc_var_free"),("rollback of recordings","src/loop.cpp, src/call.cpp, src/api.cpp: jit_record_end")],["jit_var_ref","jit_var_whos","jit_malloc_watermark"])
p("P22","Asynchronous work takes effect in program order",
 "Kernels, copies, fills, reductions, host callbacks, element reads and frees issued by a thread take effect as if executed one after the other in issue order, whatever the interleaving chosen by the thread pool. "
 "After synchronization all issued work has finished; an event reports completion only when everything issued before it has finished, and host callbacks run exactly once.",
 ["schedules","histories"],"all sequences of asynchronous operations and all schedules of the worker pool",
 "Tests run under whatever schedule the machine happens to produce.",
 ["src/llvm_ts.cpp","src/init.cpp","src/api.cpp"],
 [("chain of dependent tasks per thread state","src/llvm_ts.cpp"),("events","src/llvm_ts.cpp, src/api.cpp")],["jit_sync_thread","jit_event_query","jit_enqueue_host_func"])
p("P23","Concurrent use from several threads equals sequential use",
 "Threads that trace, evaluate, allocate, register instances and free variables concurrently each obtain the results they would obtain alone, without deadlock or corruption, also when variables created by one thread are released or read by another one after synchronization and when compiled kernels are shared.",
 ["schedules","histories"],"all interleavings of API calls from several threads",
 "No unit test is multi-threaded.",
 ["src/api.cpp","src/lock.h","src/init.cpp","src/eval.cpp","src/malloc.cpp"],
 [("global state lock and per-thread state","src/lock.h, src/internal.h"),("kernel cache insertion under lock","src/eval.cpp: jitc_run")],["jit_var_read"])
p("P24","Compiled-kernel caching never changes what a kernel computes",
 "Reusing a kernel from memory or from disk gives the results of compiling it anew: programs that differ in any way that matters never share a kernel, and flushing the cache at any time is harmless. "
 "A missing, truncated, corrupted, foreign or unwritable cache file is ignored or replaced and never crashes the process or changes a result.",
 ["histories","fault_sequences","programs"],"all program pairs, cache states, file corruptions and truncations",
 "Tests run with whatever cache is on disk and never damage it.",
 ["src/io.cpp","src/eval.cpp"],
 [("content hash and source comparison","src/io.cpp: jitc_kernel_load; src/eval.cpp: jitc_run"),("compressed cache files written via rename","src/io.cpp: jitc_kernel_write")],["jit_kernel_history","jit_var_read"])
p("P25","Half-precision conversions are exact and arithmetic rounds correctly",
 "Converting a half to single or double precision is exact for every bit pattern; converting a single to half yields the nearest representable value with ties to even, overflow to infinity, gradual underflow, and NaN preserved as NaN; doubles and integers are first converted to single precision. "
 "Scalar half arithmetic and comparisons equal the single-precision operation rounded back once.",
 ["inputs"],"all 2^16 half and all 2^32 single bit patterns, all doubles",
 "The existing test checks the float conversions against the hardware only; doubles, integers, arithmetic and comparisons are untested.",
 ["include/drjit-core/half.h"],[("bit-level conversion","include/drjit-core/half.h")],["drjit::half"])
p("P26","Container and array front-end types behave like their standard models",
 "The exported container types (growable vector, strings of bytes, owning pointers, pairs and tuples) have the value semantics of their standard counterparts under every history of operations, releasing each element exactly once. "
 "The C++ array wrapper maps operators, comparisons, element access, assignment and reductions to the corresponding operation with correct operand order and reference counting.",
 ["histories","inputs"],"all histories of container operations and all operator expressions",
 "No test exercises the containers directly; the wrapper is exercised only with fixed expressions.",
 ["include/drjit-core/nanostl.h","include/drjit-core/array.h"],
 [("growth and relocation","include/drjit-core/nanostl.h"),("operator overloads","include/drjit-core/array.h")],["drjit::vector","drjit::JitArray"])
p("P27","Invalid requests raise an exception and leave the system usable",
 "Requests that the interface declares invalid (incompatible sizes, wrong types or operands, empty sources, out-of-range element access, malformed loops, calls or conditionals, mixing of incompatible reductions, use of symbolic values outside their recording) raise an exception, do not modify or leak any variable, and later operations work normally. "
 "An exception during evaluation or recording rolls back to the state before it.",
 ["histories","fault_sequences"],"all invalid requests at all points of all histories",
 "Few error paths are tested, each in a fresh state.",
 ["src/op.cpp","src/var.cpp","src/eval.cpp","src/loop.cpp","src/call.cpp","src/api.cpp"],
 [("operand checks","src/op.cpp: jitc_var_check_impl"),("RAII references and rollback","src/eval.cpp, src/loop.cpp")],["exceptions","jit_var_read"])
p("P28","Printed representations and diagnostics describe the actual contents",
 "Formatting a variable yields its element values in order (abbreviated in the documented way for long arrays) so that parsing the text gives the values back, labels and prefixes are reported exactly as set, and variable listings and the kernel history describe exactly the live variables and the launches that happened. "
 "Producing any of them changes no value.",
 ["inputs","histories"],"all types, values, sizes, labels and histories of launches",
 "Tests compare a few printed arrays with stored text.",
 ["src/strbuf.cpp","src/var.cpp","src/api.cpp","src/eval.cpp"],
 [("text buffer with type-aware formatting","src/strbuf.cpp"),("history records","src/eval.cpp, src/init.cpp")],["jit_var_str","jit_var_whos","jit_kernel_history"])
p("P29","Debug mode confines out-of-bounds accesses and reports them",
 "With debug mode enabled, gathers, scatters, reductions, atomics and local array accesses whose index lies outside of the accessed array in an active lane neither read nor write outside of it: such lanes read zero and write nothing, other lanes are unaffected, and a warning naming the offending operation is issued exactly when such an access occurs.",
 ["inputs","programs"],"all index vectors mixing in-range and out-of-range values, masks, types, packet sizes and operations",
 "No unit test enables debug mode with invalid indices for these operations.",
 ["src/op.cpp","src/llvm_eval.cpp"],[("bounds check node masking the access","src/op.cpp: jitc_var_check_bounds")],["jit_var_read","log callback"])
for x in P: print(json.dumps(x))
