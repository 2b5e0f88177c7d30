#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Vec, Stack, Slice and Array behave exactly as the sequence they hold",
 "After any history of construction, push/emplace/extend/pop/clear/resize/reserve/copy/move/clone operations, a Vec or Stack reports exactly the length, emptiness, elements, order, front/back/top and iteration that a plain sequence fed the same operations has, whatever reallocations happened on the way. Reserving or growing never changes contents, never shrinks capacity, and the container never reports full while it can take another element without growing. A clone is an equal, independent copy; a moved-from Vec or Stack is empty and reusable; a Slice or Array exposes exactly the elements it was made from, and a sub-slice exactly the requested part.",
 ["histories", "inputs"], "all operation histories, element types (trivial, move-only, self-referencing, heap-owning) and allocators",
 "test/arrays.cpp runs one fixed script per container on int-like elements; growth boundaries, non-trivial element types and interleavings of move/clone/resize are not reached.",
 ["rpp/vec.h", "rpp/stack.h", "rpp/slice.h", "rpp/array.h"],
 [("growth and element relocation", "rpp/vec.h: reserve/grow/push/emplace/resize"), ("stack on top of Vec", "rpp/stack.h"), ("slice views", "rpp/slice.h: sub/begin/end"), ("fixed arrays", "rpp/array.h")],
 [("data_, length_, capacity_", "the stored sequence", "rpp/vec.h")], ["length()", "operator[]", "begin()/end()", "front()/back()/top()"])

prop("C02", "Queue is a FIFO with exact contents across wrap-around and growth",
 "After any history of push, emplace, pop, indexed access, erase-first-match, reserve, clear, move and clone, a Queue holds exactly the elements a reference FIFO holds, in the same order, when observed through length, front, back, indexing and iteration, wherever its ring has wrapped and however often it has grown. A clone is an equal independent queue; a moved-from queue is empty and reusable.",
 ["histories", "inputs"], "all operation histories, ring offsets, capacities and element types",
 "test/arrays.cpp pushes and pops one fixed pattern; it never clones a wrapped or full queue of non-trivial elements nor grows while wrapped in both ways.",
 ["rpp/queue.h"], [("ring indexing and growth", "rpp/queue.h: push/pop/reserve/begin/end/clone/erase_first")],
 [("data_, length_, last_, capacity_", "ring buffer", "rpp/queue.h")], ["length()", "front()/back()", "operator[]", "iteration"])

prop("C03", "Heap always yields the minimum and never loses or invents elements",
 "After any history of push, emplace, pop, reserve, clear, move and clone, a Heap's top is a least element under the element type's ordering, its length is the number of elements pushed and not popped, and its iterated elements are, as a multiset, exactly those elements. Popping it empty yields all elements in non-decreasing order, for any element type including move-only and heap-owning ones.",
 ["histories", "inputs"], "all operation histories, element orders (duplicates, sorted, reversed) and element types",
 "tests push a few fixed integers; sift paths depend on size and order of keys.",
 ["rpp/heap.h"], [("sift up / sift down", "rpp/heap.h: reheap_up/reheap_down")], [("data_, length_, capacity_", "binary heap array", "rpp/heap.h")], ["top()", "pop()", "length()", "iteration"])

prop("C04", "Map is an exact dictionary under any history of operations",
 "After any history of insert, emplace, get, get-or-insert, try-get, contains, erase, try-erase, reserve, clear, move and clone, a Map answers every lookup as a reference dictionary fed the same operations would: last written value for present keys, absence for all others, and its length and its iteration (each live pair exactly once) agree with the dictionary. This holds for every key type including strings looked up through views, for arbitrarily colliding hashes, through every growth and for every requested capacity; a clone is an equal independent map and a moved-from map is empty and reusable.",
 ["histories", "inputs"], "all histories, key distributions (including adversarial hash collisions), initial capacities",
 "test/map.cpp inserts sequential integers and a few strings; long displacement chains, erase within clusters, re-insertion, and odd capacities are not reached.",
 ["rpp/map.h"], [("robin-hood probing, displacement and backward shift", "rpp/map.h: insert_slot/fix_up/erase/try_erase"), ("growth and rehash", "rpp/map.h: grow/reserve")],
 [("data_, capacity_, length_, usable_, shift_", "open-addressing table", "rpp/map.h")], ["try_get/get/contains", "length()", "iteration"])

prop("C05", "Every element and every allocation a container owns is released exactly once",
 "Under any history of operations on vectors, stacks, queues, heaps, maps, arrays, boxes, reference-counted pointers, options, variants, tuples, functions and strings, each resource owned by an element is released exactly once, no later than the destruction of its last owner and never while it is still reachable. Every block obtained from the container's allocator is returned to that allocator exactly once, with nothing outstanding after all owners are gone; clear, overwrite, pop, erase, shrinking resize and assignment release what they drop immediately.",
 ["histories", "inputs"], "all histories over nested owning containers, with move-only and cloneable elements",
 "The tests only compare a global allocation balance at exit for one fixed history per container.",
 ["rpp/vec.h", "rpp/queue.h", "rpp/heap.h", "rpp/map.h", "rpp/stack.h", "rpp/array.h", "rpp/opt.h", "rpp/variant.h", "rpp/function.h", "rpp/box.h", "rpp/rc.h", "rpp/string0.h"],
 [("destruction on clear/overwrite/move", "rpp/*.h: destructors, move assignment, clear"), ("moved-from state", "rpp/*.h move constructors")], [], ["tracking allocator", "owned-resource ledger"])

prop("C06", "Region allocations are disjoint, stable, and reclaimed when their region ends",
 "Within and across any nesting of region scopes, every live region allocation is 16-byte-aligned memory of the requested size that overlaps no other live allocation, and its contents survive unchanged until its own scope ends, whatever inner scopes allocate or release. Ending a scope restores the depth and allocated size to what they were when it began and returns surplus backing memory; using the allocator under a region that is not the innermost one is fatal; threads never share regions.",
 ["histories", "inputs", "schedules"], "all nestings, sizes and orders of region scopes and allocations, on any thread",
 "test/allocator.cpp nests four regions with hand-picked sizes and never reads the memory back.",
 ["rpp/alloc0.h", "rpp/impl/alloc.cpp"], [("chunk chain and per-depth offsets", "rpp/impl/alloc.cpp: alloc/begin/end/new_chunk"), ("brand check", "rpp/impl/alloc.cpp: assert_brand")],
 [("chunks, region_offsets, region_brands, current_region", "thread-local region stack", "rpp/impl/alloc.cpp")], ["Mregion<R>::alloc", "Region_Allocator::depth()/size()", "sys_net_allocs()"])

prop("C07", "Range allocator hands out disjoint aligned in-bounds ranges and coalesces frees",
 "For any sequence of allocations and frees, every live range lies within the managed capacity, has at least the requested size, starts at a multiple of the requested alignment, and overlaps no other live range. Statistics always equal what the live ranges imply; after everything is freed the whole capacity is one free block again, so that a maximal allocation succeeds; an allocation is refused exactly when no free gap can hold it at the requested alignment. Moving an allocator carries its live ranges and leaves both objects usable.",
 ["histories", "inputs"], "all allocation/free sequences, sizes, alignments (including non powers of two), capacities",
 "test/range_allocator.cpp only checks offset alignment and that all memory returns; overlap, bounds, exhaustion and statistics are unobserved.",
 ["rpp/range_allocator.h"], [("two-level size-class bitmaps", "rpp/range_allocator.h: bin/allocate/find"), ("neighbour coalescing", "rpp/range_allocator.h: free/merge")],
 [("blocks, bitmaps, free lists", "segregated-fit state", "rpp/range_allocator.h")], ["allocate()", "free()", "statistics()"])

prop("C08", "Pool and free-list allocation never hands out memory twice and recycles it",
 "For any interleaving of make and destroy, from any number of threads, the objects live in a pool or free list occupy pairwise disjoint, suitably aligned memory and keep their contents until destroyed, and each destroy runs the object's destructor exactly once. Freed blocks are reused before new backing memory is taken, and clearing or destroying the free list returns all idle backing memory.",
 ["histories", "inputs", "schedules"], "all make/destroy interleavings, object sizes, thread counts",
 "test/allocator.cpp makes and destroys one object at a time.",
 ["rpp/alloc0.h", "rpp/alloc1.h"], [("intrusive free list", "rpp/alloc0.h: Free_List"), ("per-size global pools", "rpp/alloc1.h: detail::Pool")], [], ["Mpool::make/destroy", "Free_List::make/destroy/clear"])

prop("C09", "Box, Rc and Arc keep the object alive exactly as long as it has an owner",
 "For any history of creation, duplication, move, assignment, clear and destruction of owners - on one thread, or concurrently from many for Arc - the pointee stays readable and unchanged while at least one owner exists, is destroyed exactly once when the last owner goes, and the reported reference count equals the number of owners. Duplicates alias one object, a moved-from or cleared pointer is empty, emptiness tests report the truth, and assigning through one's own structure (such as unlinking a list node) is safe.",
 ["histories", "schedules", "inputs"], "all owner histories; all interleavings of concurrent Arc duplication and release",
 "test/pointers.cpp runs fixed sequences on one thread.",
 ["rpp/box.h", "rpp/rc.h", "rpp/ref1.h"], [("reference counting", "rpp/rc.h: dup/drop"), ("unique ownership", "rpp/box.h")], [], ["references()", "operator*", "ok()/operator bool"])

prop("C10", "Opt, Variant, Tuple, Pair and Storage hold exactly the last value put in them",
 "After any history of construction, assignment, emplace, move, copy, clone and clear, an Opt reports presence exactly when it holds a value and yields that value; a Variant reports and matches exactly the alternative last stored, with its value; Tuples and Pairs of any arity yield each component unchanged at its position. Copies and clones are equal and independent; visiting invokes exactly the handler of the active alternative, or every tuple component once in order.",
 ["histories", "inputs"], "all value histories, alternatives, arities up to those supported, trivial and owning payloads",
 "Tests instantiate a few types with one value each.",
 ["rpp/opt.h", "rpp/variant.h", "rpp/tuple.h", "rpp/pair.h", "rpp/storage.h"], [("tagged storage", "rpp/variant.h, rpp/opt.h"), ("recursive tuple", "rpp/tuple.h")], [], ["ok()/operator*", "match()/index()", "get<I>()/invoke"])

prop("C11", "Function calls the stored callable faithfully and owns its captures",
 "A Function of any signature, storage size and capture set returns what the stored callable returns for the same arguments, passes references and move-only arguments through, and preserves the callable's state between calls and across moves and assignments. Assigning over it or destroying it releases the captured state exactly once; a moved-from Function is empty: calling it is fatal, and it can be assigned again.",
 ["histories", "inputs"], "all histories of construct/assign/move/call over callables with different captures",
 "test/function.cpp calls a few fixed lambdas.",
 ["rpp/function.h"], [("inline type-erased storage", "rpp/function.h")], [], ["operator()"])

prop("C12", "Strings are exact byte sequences: equality, order, slicing, joining, editing",
 "For all byte strings, including ones with embedded NULs and high bytes, equality holds exactly when the bytes are equal, whichever of owning string, view or other-allocator string is on either side, and the ordering of strings and of views is the strict total order of their bytes, consistent with equality. Construction, clone, append, concatenation, sub-views, in-place writes, termination, literal and C-string conversion, and iteration yield exactly the specified bytes and length; path helpers split after the last separator or dot; the integer, float, word and enumeration parsers accept exactly the leading value and return what remains.",
 ["inputs", "histories"], "all byte strings and pairs of strings, split points and operation sequences",
 "test/string.cpp uses one text literal.",
 ["rpp/string0.h", "rpp/string1.h"], [("byte comparison and copying", "rpp/string0.h")], [("data_, length_, capacity_", "string bytes", "rpp/string0.h")], ["operator==, <", "view()/sub()", "terminate()", "append/concat"])

prop("C13", "Formatting renders every value exactly, with measured size equal to written size",
 "For every format string and every formattable value - integers of all widths, floats, characters, booleans, strings, pointers, records, enums, arrays, and any nesting of the library's containers, constant or not - the produced text is exactly the format string with each placeholder replaced by the value's documented rendering, %% by a percent sign and all else copied verbatim. The measured length always equals the number of characters written; a placeholder/argument count mismatch is fatal; type names are rendered in full.",
 ["inputs", "programs"], "all format strings, values and nestings of formattable types",
 "test/format.cpp compares one golden output for small values; extreme numbers, empty and nested containers and odd placeholder placement are not covered.",
 ["rpp/format.h", "rpp/format1.h"], [("Measure/Write pairs", "rpp/format.h, rpp/format1.h and each container header"), ("placeholder parsing", "rpp/format.h: format_measure/format_write")], [], ["format<A>()", "format_typename<T>()", "info() output"])

prop("C14", "Equal keys hash equally and the hash uses the whole key",
 "For every hashable type - integers, characters, floats, pointers, strings and views, vectors, source locations and user specialisations - values that compare equal have the same hash, on every call, on every object and at compile time as at run time, and an owning string hashes as its view does. Values differing in any byte, component or position hash differently except by rare accident, consecutive keys spread evenly over any range of hash bits, the integer mixing is injective, and the nonzero variant is never zero.",
 ["inputs"], "all pairs of values per hashable type",
 "Tests never compare hashes; the map tests only use integers and a few literals.",
 ["rpp/hash.h", "rpp/string0.h", "rpp/vmath.h"], [("squirrel5 mixing and combination", "rpp/hash.h"), ("per-type Hash specialisations", "rpp/*.h: Hash::Hash<...>")], [], ["hash()", "hash_nonzero()", "hash_literal()"])

prop("C15", "Scalar math helpers compute their mathematical definition",
 "For every argument in their domain, the integer helpers (power-of-two tests and rounding, alignment, logarithm, bit counts and scans, power, minimum, maximum, clamp, absolute value, sign, unit sizes) return the exact mathematical result, including at zero, at the extremes of the type and next to powers of two. The floating helpers agree with the reference functions of the C library within rounding, interpolation hits its end points, and smoothing and wrapping functions stay in range and monotone where documented.",
 ["inputs"], "all arguments of all instantiated numeric types, exhaustively for 8/16-bit types",
 "Tests only use these helpers incidentally.",
 ["rpp/math.h", "rpp/impl/math.cpp"], [("bit tricks", "rpp/math.h"), ("libc forwarding", "rpp/impl/math.cpp")], [], ["Math:: functions"])

prop("C16", "SIMD vectors agree with element-by-element arithmetic",
 "For every vector width, element type and value - including negative zero, infinities and NaN where meaningful - each vector operator and function gives, component by component, the result of the scalar definition, and an operand is never modified unless the operation says so. The low-level packed types agree with a scalar reference in load, store, arithmetic, comparison masks, selection, broadcast and dot products, and every compound assignment equals its binary operator.",
 ["inputs"], "all vectors over all supported widths and element types, scalar on either side",
 "test/vmath.cpp and test/simd.cpp evaluate each operation on one constant vector.",
 ["rpp/vmath.h", "rpp/simd.h", "rpp/impl/simd.cpp"], [("SIMD specialisation for 4-wide float", "rpp/vmath.h"), ("intrinsics wrappers", "rpp/impl/simd.cpp")], [], ["Vect operators", "F32x4 functions"])

prop("C17", "Matrix algebra and transforms satisfy their defining laws",
 "For all 4x4 matrices, matrix-matrix and matrix-vector products, sums, scalar operations, transpose and inverse equal the textbook definition within rounding; multiplying by the inverse gives the identity for well-conditioned matrices. Translation, scale, rotation, look-at, orthographic and perspective constructors map points and directions as their definition says, rotations are proper orthonormal transforms taking the named axis to the requested direction, and Euler angles extracted from a rotation rebuild it, by the smaller of the two triples that do.",
 ["inputs"], "all matrices and vectors (bounded magnitude for tolerance), all axes and angles",
 "test/vmath.cpp checks a handful of constants and mostly that code compiles.",
 ["rpp/vmath.h", "rpp/impl/vmath.cpp"], [("column-major product with packed columns", "rpp/impl/vmath.cpp"), ("cofactor inverse", "rpp/impl/vmath.cpp: inverse")], [], ["Mat4 operators and constructors"])

prop("C18", "Quaternions compose, invert and convert as rotations do",
 "For all quaternions, product, conjugate, inverse, norm and normalisation satisfy the quaternion algebra; rotating by a product equals rotating by the factors in turn, rotation preserves length, and the matrix form acts as the quaternion does. Axis-angle and Euler construction describe the same rotation as the corresponding matrices, and conversion back to Euler angles reproduces the rotation.",
 ["inputs"], "all quaternions, axes and angles",
 "Tests evaluate a few constants.",
 ["rpp/vmath.h", "rpp/impl/vmath.cpp"], [("Hamilton product and conversions", "rpp/vmath.h: Quat")], [], ["Quat operators, rotate, to_mat, to_euler"])

prop("C19", "Bounding boxes contain exactly what they enclose, transform and project",
 "For all boxes and points, a box grown by points or other boxes contains them all and is the smallest such box; its emptiness, centre and surface area follow from its bounds. A transformed box is the tight axis-aligned bound of its transformed corners, an empty box stays empty, and screen projection bounds every projected corner, covers the screen when the box lies partly behind the viewer and nothing when it lies wholly behind.",
 ["inputs"], "all boxes, points, affine and projective transforms",
 "test/vmath.cpp builds one or two boxes.",
 ["rpp/vmath.h", "rpp/impl/vmath.cpp"], [("enclosing, transform and projection", "rpp/vmath.h, rpp/impl/vmath.cpp: BBox")], [], ["BBox::enclose/transform/project"])

prop("C20", "Random streams are deterministic, in range, complete and unbiased",
 "A stream built from a seed always produces the same sequence, different seeds produce different ones, and copies continue identically. Unit samples lie in [0,1) and fill it evenly at full resolution, bounded samples lie in the requested half-open range for every numeric type including ranges around zero and single-value ranges and reach all of it evenly, and shuffles are permutations in which every order is possible.",
 ["inputs", "histories"], "all seeds, ranges, types, container lengths",
 "Tests use one seed and only check the results indirectly.",
 ["rpp/rng.h"], [("splitmix/xorshift stream", "rpp/rng.h: Stream")], [], ["Stream::unit/range/shuffle/operator()"])

prop("C21", "Locks exclude, waits never lose a wake-up, atomics lose no update",
 "With any number of threads and any schedule, at most one thread holds a mutex at a time and a critical section's effects are visible to the next holder; try-lock succeeds only when free; a scoped lock releases exactly the mutex it holds, exactly once, also when moved or assigned. A waiter on a condition or flag that has been signalled always proceeds, never before the signal for flags, even when waits are interrupted by OS signals, and may dispose of the flag as soon as it has seen it signalled; sleeping lasts at least as long as asked; and atomic operations each return the documented old or new value and lose no update.",
 ["schedules", "fault_sequences", "histories"], "all thread counts, schedules and signal interruptions",
 "test/thread.cpp runs one light schedule and never interrupts a wait.",
 ["rpp/thread.h", "rpp/thread0.h", "rpp/pos/thread_pos.cpp"], [("pthread mutex/cond wrappers", "rpp/pos/thread_pos.cpp"), ("futex flag", "rpp/pos/thread_pos.cpp: Flag")], [], ["Mutex/Lock/Cond/Flag/Atomic"])

prop("C22", "Spawned threads run once and deliver their result to every waiter",
 "Every spawned callable runs exactly once on its own thread, with its arguments intact, and its future delivers the value it returned - to every reader, or to its first taker where the value is move-only - no earlier than the callable has finished; polling a future reports readiness truthfully. Joining returns only after the thread has finished; dropping a thread handle joins it unless detached; a thread placed on a processor stays there and no other thread moves; nothing is leaked or released early however handles, futures and threads are ordered.",
 ["schedules", "histories"], "all orders of spawn, block, poll, join, detach, move and destruction",
 "test/thread.cpp spawns a few threads in one order.",
 ["rpp/thread.h", "rpp/pos/thread_pos.cpp"], [("Promise/Future with Flag", "rpp/thread.h"), ("thread start trampoline", "rpp/pos/thread_pos.cpp")], [], ["Thread::spawn", "Future::block/ready", "Thread::join/detach"])

prop("C23", "Coroutine tasks run each step once, deliver their result, and free their frame",
 "For any tree of tasks awaiting one another, suspending any number of times and resumed in any order, each statement runs exactly once and in program order, a task is done exactly when its body has finished, and every awaiter or blocking caller receives exactly the value returned. Every coroutine frame and its locals are destroyed exactly once, whether the task is awaited, dropped before completion, after it, moved, or finishes on another thread at the same moment; dropping a task that another coroutine awaits is fatal.",
 ["schedules", "histories", "programs"], "all task trees, suspension points, resume orders and concurrent completion/drop/await races",
 "test/coro.cpp runs eight fixed coroutines on one thread.",
 ["rpp/async.h"], [("completion/continuation state word", "rpp/async.h: Promise::Final_Suspend, Task::await_suspend/drop")], [], ["Task::done/resume/block/co_await"])

prop("C24", "The thread pool and events run every scheduled job exactly once",
 "Every coroutine that suspends onto a pool is resumed exactly once on a pool thread, and one that awaits an event is resumed exactly once, only after the event was signalled, in any mixture and under any load; a pool destroyed while idle terminates cleanly with nothing leaked. Waiting for any of several events returns the index of one that has been signalled, polling an event reports truthfully, and a reset event is not reported again until signalled anew.",
 ["schedules", "histories", "fault_sequences"], "all job counts, nesting, schedules, signal orders, and interruptions of the wait by OS signals",
 "test/pool.cpp runs a small number of jobs in one pattern.",
 ["rpp/pool.h", "rpp/async.h", "rpp/asyncio.h", "rpp/pos/async_pos.cpp", "rpp/pos/asyncio_pos.cpp"], [("per-thread queues and condition variables", "rpp/pool.h: enqueue/do_work"), ("event thread", "rpp/pool.h: do_events"), ("eventfd/epoll", "rpp/pos/async_pos.cpp")], [], ["Pool::suspend/event", "Event::signal/wait_any/try_wait", "Async::wait"])

prop("C25", "What is written to a file is what is read back, and failures are reported",
 "Writing any bytes to a path succeeds with the file then containing exactly those bytes, whether it existed before or not and however long it was, and reading a file yields exactly its contents; the same holds for the asynchronous variants, however the system splits or interrupts the transfers. When the operation cannot be performed the call reports absence or failure and never crashes or yields partial data, no outcome leaks a file descriptor, and a write watcher reports every change of a file's modification time exactly once.",
 ["inputs", "histories", "fault_sequences"], "all contents (empty, binary, large), existing/missing/unwritable targets, read errors",
 "No test touches the file API.",
 ["rpp/files.h", "rpp/pos/files_pos.cpp", "rpp/asyncio.h", "rpp/pos/asyncio_pos.cpp"], [("open/read/write loops", "rpp/pos/files_pos.cpp, rpp/pos/asyncio_pos.cpp")], [], ["Files::read/write", "Async::read/write"])

prop("C26", "UDP datagrams arrive unaltered with truthful length and sender",
 "A datagram sent to a bound socket is received at most once with exactly the bytes, length and source address it was sent with, in order on loopback, for every payload up to the packet capacity, and a longer one is reported with its full length and delivers its beginning; answers to a received source address reach the sender. A receive with nothing pending reports so without blocking, address text is honoured to its length even without a terminating NUL, invalid text is rejected, and socket descriptors are closed exactly once across moves.",
 ["inputs", "histories", "fault_sequences"], "all payloads, lengths, send/receive interleavings, address strings, move histories",
 "test/net.cpp sends one five-byte packet.",
 ["rpp/net.h", "rpp/pos/net_pos.cpp"], [("sendto/recvfrom wrappers", "rpp/pos/net_pos.cpp")], [], ["Udp::send/recv/bind", "Address"])

prop("C27", "Every log message reaches the output and every live subscriber exactly once",
 "Each logged message is delivered exactly once, complete and unmixed, to the log file, the console and every callback subscribed at that time, with its level, source location, thread, and formatted text, in the order each thread logged, for any number of concurrent loggers, also before main begins and after it ends; unsubscribed callbacks are never called again and what they hold is released. Indentation scopes nest and restore per thread, and fatal errors are logged before the process stops.",
 ["schedules", "inputs", "histories"], "all messages, subscriber histories and concurrent loggers",
 "The test helper subscribes one callback and compares text on one thread.",
 ["rpp/log.h", "rpp/log_callback.h", "rpp/impl/log.cpp"], [("global logger with lock", "rpp/impl/log.cpp")], [], ["callbacks", "stdout", "debug.log"])

prop("C28", "The profiler's timing tree mirrors the program's nesting and counts",
 "For any sequence of frames with any nesting and repetition of trace scopes on any threads, the recorded tree has one node per distinct call path with the right parent, call count, and location, and its times are consistent: durations are non-negative, a node's inclusive time covers its own and its children's time, and only completed frames are shown. Ending frames or threads in any legal order, including finishing a thread between or during frames or finalizing, never corrupts the record or leaks, and memory does not grow with the number of past frames.",
 ["histories", "schedules"], "all enter/exit/frame/thread histories",
 "Tests enter a couple of scopes and never inspect the tree.",
 ["rpp/profile.h", "rpp/impl/profile.cpp"], [("frame tree construction", "rpp/impl/profile.cpp: enter/exit/compute_self_times")], [], ["iterate_timings"])

prop("C29", "Misuse that would touch invalid memory is always fatal, never silent",
 "Out-of-range indexing and slicing of containers, strings and math vectors, popping or reading the ends of empty containers, dereferencing empty options, boxes, references, tasks and reference-counted pointers, calling an empty function, getting or erasing a missing key, and mismatched format arguments stop the program with a logged fatal error, in every build type, for every index including ones chosen to overflow bounds arithmetic. The corresponding in-range uses never stop it.",
 ["inputs", "histories"], "all container states and indices on both sides of each bound",
 "A crash cannot be asserted in the existing tests; none checks any.",
 ["rpp/log.h", "rpp/vec.h", "rpp/slice.h", "rpp/array.h", "rpp/queue.h", "rpp/heap.h", "rpp/stack.h", "rpp/map.h", "rpp/opt.h", "rpp/variant.h", "rpp/box.h", "rpp/rc.h", "rpp/string0.h", "rpp/string1.h", "rpp/function.h", "rpp/format.h", "rpp/vmath.h"],
 [("assert in all builds", "rpp/log.h: assert/die")], [], ["process ends by the library's debug trap"])

prop("C30", "Reflection enumerates exactly the declared members and enum cases",
 "For every reflected record and enumeration, iterating visits each declared field or case exactly once, in the order of its reflection macro, with its declared name, type, value and location, and nothing else, for constant and mutable objects alike. Enumeration values convert to their declared name, and unlisted values are rendered as invalid rather than as a wrong name; the type-list and type-trait algebra gives the mathematically expected answers.",
 ["inputs", "programs"], "all reflected types and all values of each enumeration's underlying type",
 "test/template.cpp makes a few static assertions.",
 ["rpp/reflect.h", "rpp/format.h"], [("field and case lists", "rpp/reflect.h")], [], ["iterate_record", "iterate_enum", "enum_name"])

prop("C31", "Allocation accounting matches reality and leaks are always reported",
 "In builds that track allocations, the statistics reported for each named allocator are exactly the bytes and counts allocated, freed, live and peak, across any interleaving of threads, and in every build the global allocation balance equals the number of live blocks at every moment. Finalizing warns of every allocator that still holds memory and stays silent otherwise, and runs each registered finalizer once, in order; a zero-byte request costs nothing and freeing null is harmless. Containers may be filled and released at any time of the program's life, including by static and thread-local constructors and destructors.",
 ["histories", "schedules"], "all allocation histories over several named allocators and threads",
 "The tests check only that the balance is zero at exit.",
 ["rpp/alloc0.h", "rpp/alloc1.h", "rpp/impl/alloc.cpp", "rpp/impl/profile.cpp"], [("allocation records", "rpp/impl/profile.cpp: alloc/finalize")], [], ["Profile::finalize report", "sys_net_allocs()", "log output of finalize"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
    print("valid", len(P))
except ImportError:
    print("written", len(P))
