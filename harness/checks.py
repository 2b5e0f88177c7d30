# id -> how its check is built and what its evidence says
STD = ["the sanitizer build (clang -O1, ASan+UBSan subset) behaves as the shipped build",
       "custom element types, allocators and models in /verif/harness/model.h are correct"]
CHECKS = {}
def check(id, src, rule, **kw):
    CHECKS[id] = dict(src=src, rule=rule, assumptions=kw.pop("assumptions", STD), **kw)

check("C01", "c01_vec.cpp",
      "Random operation histories (1-300 operations) over up to three live containers compared after every "
      "operation with std::vector models, elements of 1 to 4,000 bytes (odd sizes among them), initializer lists of up to 64 "
         "values, slices of more than 65,535 elements; non-trivial = the history grew a non-empty container, cloned one, or "
      "(slices/arrays) took a proper sub-slice or copied. Distinct by the full choice sequence.")
CHECKS["C01"]["variants"] = {"asan": 40.0}
CHECKS["C01"]["variants_thorough"] = {"asan": 20.0}
check("C02", "c02_queue.cpp",
      "Random histories of push/emplace/pop/rotate/erase/reserve/clone/move over two queues compared with std::deque "
      "after every operation (indexing, iteration, ends), elements of odd and large sizes; non-trivial = the history cloned or erased from a queue of "
      "more than one element, or reserved a non-empty one. Distinct by the full choice sequence.")
check("C03", "c03_heap.cpp",
      "Random histories over two heaps with random, ascending and descending keys (few to many duplicates) compared "
      "with std::multiset after every operation and drained at the end, elements of odd and large sizes; non-trivial = at least 6 elements at once. "
      "Distinct by the full choice sequence.")
check("C04", "c04_map.cpp",
      "Random histories over two maps compared with std::map after every operation (length, returned reference, lookup, "
      "iteration), with keys whose hash is chosen per case among ten collision patterns; maps of more than 65,536 entries; non-trivial = at least 6 "
      "entries at once and at least two erasures out of more than 4 entries (string keys: 3 entries at the end). "
      "Distinct by the full choice sequence.")
check("C05", "c05_owner.cpp",
      "Random histories over a zoo of 20 nested owners (every container and smart value of the library), mirrored with "
      "standard-library owners of counted objects: after every operation the number of live resources equals the "
      "mirror's; large containers (to 700 elements) emptied in place and refilled; non-trivial = at least 10 live resources at once (assignments: both sides hold more than 4 elements). "
      "Distinct by the full choice sequence.")
check("C06", "c06_region.cpp",
      "Random histories of nested region scopes (up to 100 deep, six brands) and allocations of 0 to 200 kB: contents, "
      "disjointness, 16-byte alignment, depth, size and backing blocks checked throughout; containers in regions against "
      "models; single allocations and scopes of megabytes and gigabytes; regions on several threads; misuse in forked children. Non-trivial = at least one extra backing block and "
      "two non-empty scopes closed (containers: more than 20 elements). Distinct by the full choice sequence.")
CHECKS["C06"]["variants"] = {"asan": 3.0}
CHECKS["C06"]["variants_thorough"] = {"asan": 1.0}
check("C07", "c07_range.cpp",
      "Random allocate/free/move histories over two allocators (four bucket configurations, capacities 1 to 2^64-1, any "
      "alignment; up to thousands of live ranges, more than 65,536 allocations from one allocator) against an interval model that decides overlap, refusal and every statistic; concurrent histories over a "
      "shared byte map. Non-trivial = at least 5 live ranges at once and two coalescing frees. Distinct by the full choice "
      "sequence.")
CHECKS["C07"]["variants"] = {"asan": 6.0, "tsan": (1.0, "threads")}
CHECKS["C07"]["variants_thorough"] = {"asan": 2.0, "tsan": (1.0, "threads")}
check("C08", "c08_pool.cpp",
      "Random make/destroy histories over object types of 18 sizes (pools) and free lists with clear, move and "
      "destruction: address intervals, alignment, contents, destructor counts and the number of backing blocks checked "
      "after every step; thousands of live objects at once; concurrent histories with hand-over between threads, also under ThreadSanitizer. Non-trivial = at "
      "least two recycled blocks. Distinct by the full choice sequence.")
CHECKS["C08"]["variants"] = {"asan": 10.0, "tsan": (1.0, "threads")}
CHECKS["C08"]["variants_thorough"] = {"asan": 5.0, "tsan": (1.0, "threads")}
check("C09", "c09_ptr.cpp",
      "Random histories over up to 8 pointer slots (Box, Rc, Arc; tracked, default and pool allocators) against an owner-count "
      "model: live objects, reference counts, contents and addresses after every step; linked lists, shared graphs and derived "
      "boxes edited in place; objects with up to tens of thousands of owners; Arc owners on up to 8 threads, also under ThreadSanitizer. Non-trivial = an object with three "
      "owners and at least one destroyed (boxes: 5 made and 2 moved; lists: 3 unlinked). Distinct by the full choice sequence.")
CHECKS["C09"]["variants"] = {"asan": 5.0, "tsan": (1.0, "threads")}
CHECKS["C09"]["variants_thorough"] = {"asan": 2.0, "tsan": (0.5, "threads")}
check("C10", "c10_sum.cpp",
      "Random histories of construction, assignment, emplace, move, copy, clone, clear and visiting over options of 10 element "
      "types, variants of 14 shapes (1 to 71 alternatives), tuples of 10 shapes (arity 1 to 8) and pairs of 7, against plain "
      "models of the stored values, with an ownership ledger. Non-trivial = at least 4 stores with one replacement (options), "
      "three different alternatives held (variants), two components (tuples). Distinct by the full choice sequence.")
CHECKS["C10"]["variants"] = {"asan": 10.0}
CHECKS["C10"]["variants_thorough"] = {"asan": 3.0}
check("C11", "c11_func.cpp",
      "Random histories of storing, calling, moving and replacing 13 kinds of callable (empty to 32-byte and larger captures, "
      "owning, stateful, nested, 16-byte aligned) in functions of six storage sizes (24 to 328 bytes) against a model of each callable's state, "
      "with an ownership ledger; eight signatures covering every argument category. Non-trivial = at least three calls, two "
      "moves and a repeated call of a stateful callable. Distinct by the full choice sequence.")
CHECKS["C11"]["variants"] = {"asan": 10.0}
CHECKS["C11"]["variants_thorough"] = {"asan": 4.0}
check("C12", "c12_string.cpp",
      "Random byte strings (NULs, high bytes, separators) and near-copies of them compared with std::string for equality and "
      "order in every mix of owning strings and views; editing histories over four strings (clone, append, sub, terminate, "
      "write, concat, move) against std::string; path helpers, parsers and character tables against definitions. Non-trivial = "
      "strings longer than one byte of equal length (comparison), two edits (histories). Distinct by the full choice sequence.")
CHECKS["C12"]["variants"] = {"asan": 8.0}
CHECKS["C12"]["variants_thorough"] = {"asan": 3.0}
check("C13", "c13_format.cpp",
      "Random format strings (verbatim bytes, %%, placeholders) with random values of over 90 types - scalars, strings, pointers, "
      "enums, records, every library value and container, nested - each generated together with its expected text and type "
      "name by an independent renderer; format_length, three output allocators and format_typename compared. Non-trivial = "
      "at least one argument and three characters of format. Distinct by the full choice sequence.")
CHECKS["C13"]["parts"] = 5
CHECKS["C13"]["variants"] = {"asan": 25.0}
CHECKS["C13"]["variants_thorough"] = {"asan": 10}
check("C14", "c14_hash.cpp",
      "Random pairs of values of every hashable type, built equal in different ways or differing in one bit, byte, component "
      "or position; runs of 131072 integers and 32768 strings checked for collisions and an even spread; compile-time hashes "
      "against run-time ones. Non-trivial = the pair differs (or is a pair of equal floats with different bits possible). "
      "Distinct by the full choice sequence.")
CHECKS["C14"]["variants"] = {"asan": 4.0}
CHECKS["C14"]["variants_thorough"] = {"asan": 2.0}
check("C20", "c20_rng.cpp",
      "Random seeds: sequences compared between equal, copied, reseeded and compile-time streams; thousands of samples per case "
      "against exact range bounds and even-distribution bounds (8 standard deviations); shuffles against multisets, the "
      "full set of orders and, for long vectors, the place every element ends at. Non-trivial = more than one outcome possible. Distinct by the full choice sequence.")
CHECKS["C20"]["variants"] = {"release": 3.0, "asan": 0.3}
CHECKS["C20"]["variants_thorough"] = {"release": 3.0, "asan": 0.3}
check("C15", "c15_math.cpp",
      "Random arguments biased to zero, extremes and powers of two for every helper and numeric type against bit loops, "
      "128-bit integers and the C library (four units in the last place); every 32-bit word below 2^24 (quick) or 2^26 "
      "(thorough) and above 2^32 - 2^22 for the bit helpers. Non-trivial = the arguments differ / the result is not the "
      "argument. Distinct by the full choice sequence.")
CHECKS["C15"]["variants"] = {"asan": 4.0, "release": 1.0}
CHECKS["C15"]["variants_thorough"] = {"asan": 2.0, "release": 1.0}
check("C16", "c16_vect.cpp",
      "Random vectors of 2, 3, 4, 5 and 9 components of five element types (a third with infinities, NaN, signed zeros and "
      "extremes; floats of every magnitude; a quarter nearly equal pairs): every operator and function compared component by component with scalar "
      "arithmetic, operands compared bit by bit afterwards; the packed type lane by lane. Every case is non-trivial: all "
      "operations run on all components. Distinct by the full choice sequence.")
CHECKS["C16"]["variants"] = {"asan": 8.0, "release": 10.0}
CHECKS["C16"]["variants_thorough"] = {"asan": 4.0, "release": 10.0}
check("C17", "c17_mat.cpp",
      "Random matrices (dense, sparse, affine, permutations, products), vectors, axes (often along or within 2^-24 of an axis) "
      "and angles against double-precision textbook definitions with error bounds scaled to the terms; every constructor "
      "judged by where it sends points, Euler angles by what they rebuild and by being the smaller triple. Non-trivial = every case except skipped ill-conditioned inverses and degenerate views. "
      "Distinct by the full choice sequence.")
CHECKS["C17"]["variants"] = {"asan": 4.0, "release": 8.0}
CHECKS["C17"]["variants_thorough"] = {"asan": 1.0, "release": 3.0}
check("C18", "c18_quat.cpp",
      "Random quaternions (any length, axes, unit, the cube's rotations), axes, angles (multiples of 45 and 90 degrees, small, "
      "large) and vectors against the Hamilton product and Rodrigues' formula in double precision, with error bounds scaled to "
      "the operands; Euler angles as in C17. Every case is non-trivial. Distinct by the full choice sequence.")
CHECKS["C18"]["variants"] = {"asan": 10.0, "release": 30.0}
CHECKS["C18"]["variants_thorough"] = {"asan": 4.0, "release": 15.0}
check("C19", "c19_bbox.cpp",
      "Random histories over three boxes (points on and just outside faces, boxes, resets, copies) compared exactly with the "
      "smallest enclosing box; random affine transforms against the bound of the eight transformed corners; random views and "
      "perspectives against the bound of the projected corners, in front, across, behind and touching. Non-trivial = two points and a "
      "merge of non-empty boxes (enclosing), a box with extent (transforming), no corner near the viewer's plane (projecting).")
CHECKS["C19"]["variants"] = {"asan": 15.0, "release": 25.0}
CHECKS["C19"]["variants_thorough"] = {"asan": 5.0, "release": 20.0}
check("C21", "c21_locks.cpp",
      "Scripted histories of locks, moves and try-locks over three mutexes probed by a second thread against a model of who "
      "holds what; generated thread programs (2-8 threads, random pauses, half of them under a storm of OS signals) over sleeps (of microseconds up to seconds), "
      "mutexes, conditions, flags (also unmapped once signalled) and atomics: exclusion counters, exactly-once hand-over, no wait outlasting its signal, "
      "atomic logs explained by one order of operations. Non-trivial = a lock moved and re-assigned (scripts), a wait that "
      "actually waited (buffers), every threaded case otherwise. Distinct by the full choice sequence; schedules vary.")
CHECKS["C21"]["variants"] = {"tsan": 1.0, "release": 2.0}
CHECKS["C21"]["variants_thorough"] = {"tsan": 0.5, "release": 1.0}
check("C22", "c22_spawn.cpp",
      "Random histories over four thread handles (start with four callable shapes, join, detach, move, replace, destroy) and "
      "over futures of five result kinds (duplicate, drop, poll, block, concurrent readers), with every callable held back "
      "by a gate until the history releases it; bursts of spawns and promises with several waiters under OS signals. Oracle: "
      "run counts, finished flags and effects when a wait returns, exact values, the processor and the priority a thread really has, ledgers of payloads and memory. Non-trivial = "
      "a join, a move and a detach (handles); a poll before, a poll after and a dropped handle (futures).")
CHECKS["C22"]["variants"] = {"tsan": 8.0, "asan": 8.0}
CHECKS["C22"]["variants_thorough"] = {"tsan": 4.0, "asan": 4.0}
check("C23", "c23_coro.cpp",
      "Random trees of coroutines (up to 40 nodes of three result kinds; plain steps, suspensions, awaited, kept, dropped, "
      "moved and chained children) resumed in random orders, every step compared with an interpreter of the same program; the "
      "same programs resumed by several threads while their handles are polled, dropped and blocked on; pairwise races at "
      "completion; chains of up to 250000 awaiting tasks. Ledgers of locals and frames at the end. Non-trivial = two suspensions and "
      "an await (scripts). Distinct by the full choice sequence.")
CHECKS["C23"]["variants"] = {"asan": 8.0, "tsan": (5.0, "r")}
CHECKS["C23"]["variants_thorough"] = {"asan": 3.0, "tsan": (3.0, "r")}
check("C24", "c24_pool.cpp",
      "Random histories of signalling, resetting, polling, waiting for and moving events (own, eventfd, either end of a pipe) against a model; "
      "waiters under OS signals; random trees of jobs that hop onto the pool, await events signalled before or after, and await "
      "one another, submitted by up to three threads with 1 to all processors visible; bursts of up to 1000 jobs, dropped jobs, "
      "hundreds of timers and events awaited at once. Oracle: each suspension resumed once, on a pool thread, after its event; exact results; ledgers of locals, "
      "frames, descriptors and threads. Non-trivial = more than four hops and an event awaited (job trees).")
CHECKS["C24"]["variants"] = {"asan": 1.0, "tsan": 0.6}
CHECKS["C24"]["variants_thorough"] = {"asan": 0.5, "tsan": 0.3}

check("C25", "c25_files.cpp",
      "Random histories of reads and writes (direct and asynchronous) over several files and links against a model of their contents; "
      "fourteen kinds of impossible operation; injected short, interrupted and failing transfers and concurrent size changes; many jobs "
      "at once on a pool; watchers and write times over a controlled clock. Oracle: contents seen through the system itself, exact "
      "success or failure, modes, open descriptors. Non-trivial = two writes and a read (histories), a fault taken (faults), two polls "
      "and a hit (watchers).")
CHECKS["C25"]["variants"] = {"asan": 1.0, "tsan": (0.5, "concurrent")}
CHECKS["C25"]["variants_thorough"] = {"asan": 0.5, "plain": 0.15, "tsan": (0.3, "concurrent")}

check("C26", "c26_udp.cpp",
      "Random histories of up to five loopback sockets (bound or not) that send, receive, answer, move, are replaced, closed and opened (ports up to 65535) "
      "again, with a foreign sender of datagrams up to and beyond the capacity, against per-socket queues; address texts, valid and "
      "mutated, in views without terminator, against a reference parser; misuse; concurrent senders under OS signals. Oracle: exact "
      "bytes, length, order and absence, answers reach the sender, number of open sockets. Non-trivial = three datagrams delivered "
      "(histories), an address accepted and reached or rejected.")
CHECKS["C26"]["variants"] = {"asan": 1.0, "tsan": (0.5, "threads")}
CHECKS["C26"]["variants_thorough"] = {"asan": 1.0, "release": 0.5, "tsan": (0.5, "threads")}

check("C27", "c27_log.cpp",
      "Random scripts of log calls (four call sites and locations with line numbers into the millions, all levels, texts up to 100 kB), nested indentation (to 300), subscriptions and "
      "unsubscriptions (also repeated), fatal ends, run by a fresh program (with and without a log file, a full standard output, an ignored trap, "
      "several time zones; some from static constructors and destructors); the same by two to six threads under OS signals. Oracle: a model of the exact lines of the console and of "
      "debug.log and of every callback's calls. Non-trivial = two messages and a subscription.")
CHECKS["C27"]["variants"] = {"asan": 1.0, "tsan": (0.4, "concurrent")}
CHECKS["C27"]["variants_thorough"] = {"asan": 0.6, "release": 1.0, "tsan": (0.4, "concurrent")}

check("C28", "c28_profile.cpp",
      "Random histories of frames, scopes by name and by location, bursts, recursion and allocations on a fresh thread, which ends "
      "between or during frames, against a model of the tree with time bounds measured around every call; wide, deep and "
      "busy (more than 65,530 calls) frames and hundreds of frames with bounded memory; up to six threads with a "
      "concurrent reader under OS signals, whose frames are known structures. Oracle: exact nodes, parents, children, calls and "
      "locations; inclusive and self times consistent and within the bounds; only complete frames of live threads; allocation balance. "
      "Non-trivial = two frames and nesting (histories), frames seen by the reader (threads).")
CHECKS["C28"]["variants"] = {"asan": 1.0, "tsan": (0.5, "threads")}
CHECKS["C28"]["variants_thorough"] = {"asan": 1.0, "tsan": (0.5, "threads")}

check("C31", "c31_alloc.cpp",
      "Random histories of allocations, frees, pool objects, regions, frames, containers and finalizers over seven named, two hidden "
      "allocators and the system's, run by a forked program and finalized once or twice, against exact statistics; many and huge blocks, hundreds of finalizers, large leaks; up to six threads "
      "that allocate and free one another's blocks over an allocator which recycles addresses at once; programs whose global containers "
      "are used before main begins and after it ends. Oracle: the complete text of "
      "the report, warnings, exit status, order of finalizers, balance = live blocks of malloc after every step. Non-trivial = four "
      "allocations and two frees (histories), two blocks freed by another thread (threads).", link=["-Wl,--wrap=malloc,--wrap=free"])
CHECKS["C31"]["variants"] = {"asan": 8.0, "tsan": (4.0, "threads")}
CHECKS["C31"]["variants_thorough"] = {"asan": 3.0, "tsan": (2.0, "threads")}

check("C30", "c30_reflect.cpp",
      "Random programs generated from the seed (24 quick, 120 thorough; each with 5 enumerations of up to 140 cases over every underlying "
      "type, 6 records or record templates of up to 25 fields, type lists of up to 140 types, arrays of up to 5000, types with random qualifiers, classes and "
      "callables) together with their expected reflection; each run on random objects and values through six kinds of visitor. Oracle: "
      "the declarations, addresses of the fields, the standard library's type traits. Non-trivial = more than three fields, cases or "
      "types in the list.", gen="gen_c30")
CHECKS["C30"]["variants"] = {"asan": 20.0}
CHECKS["C30"]["variants_thorough"] = {"asan": 10.0, "release": 10.0}

check("C29", "c29_misuse.cpp",
      "Random states of every container, string, owner, option, reference, function, task, thread, vector and matrix; then each misuse "
      "(indices past the end by little, by powers of two, wrapping scaled or truncated arithmetic; reversed, overlong and wrapping "
      "ranges; ends of empty containers; null and moved-from owners; missing keys; placeholder and argument counts that differ) in a "
      "forked child, and the proper uses next to them in place. Oracle: the child ends in SIGTRAP after a logged fatal error and nothing "
      "else; proper uses return what a standard model says. Non-trivial = at least one misuse was made.", parts=8)
CHECKS["C29"]["variants"] = {"asan": 3.5, "release": 6.0}
CHECKS["C29"]["variants_thorough"] = {"asan": 4.0, "release": 6.0}
