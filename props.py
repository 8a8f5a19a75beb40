"""Per-property configuration of the simulation: build variants and number of runs."""
R17D, R20R = "race-c++17-dbg", "race-c++20-rel"
R17R, R20D = "race-c++17-rel", "race-c++20-dbg"
M17D, M20R = "mem-c++17-dbg", "mem-c++20-rel"
M17R, M20D = "mem-c++17-rel", "mem-c++20-dbg"

SCHED_STUB = ["thread scheduler (one thread at a time, seeded)", "operator new/delete (fault injection, exact bounds)",
              "pthread mutexes, condition variables, once, function-local static guards, futexes (simulated)", "clocks", "sleeps"]

PROPS = {
    "C01": {
        "chunk": 20,
        "technique": "seeded search over schedules at memory-access granularity, happens-before race detection, holder stalls",
        "note": "Samples interleavings of up to 5 threads, 3 locks and stalls of up to 2^22 (quick) or 2^25 (thorough) steps, some with thousands of locks held by one thread; trusts the race detector and sequentially "
                "consistent execution of race-free code.",
        "rule": "A run draws the number of locks, contending threads, acquisitions, placement of the lock object in dirty memory, stalls of the holder "
                "(log-uniform length) and exceptions in critical sections, and preempts at any memory access.",
        "quick": {"runs": {R17D: 32000, R20R: 32000}},
        "thorough": {"runs": {R17D: 150000, R20R: 150000, R17R: 60000, R20D: 60000}},
        "real": ["utki::spin_lock"],
        "stub": SCHED_STUB,
        "assumptions": ["sequentially consistent execution plus happens-before race detection stands in for weak memory: a program free of data races "
                        "under the C++ memory model behaves as interleaved"],
    },
    "C02": {
        "chunk": 1,
        "technique": "seeded search over schedules at memory-access granularity of concurrent library calls from a fresh process on, race detection, comparison with the same calls made alone",
        "note": "Samples sets of up to 16 calls on up to 4 threads; a race inside the standard library's own compiled objects is outside what is instrumented.",
        "rule": "A run draws 2 to 4 threads with 1 to 4 calls each out of a catalogue of the library's functions and read-only uses of shared objects, executes them "
                "concurrently (mostly as the first calls of a fresh process) with preemption at any memory access, and again by one caller in another order.",
        "quick": {"runs": {R17D: 15000, R20R: 15000}},
        "thorough": {"runs": {R17D: 60000, R20R: 60000, R17R: 30000, R20D: 30000}},
        "real": ["all of utki except the simulated seams"],
        "stub": SCHED_STUB + ["isatty"],
        "assumptions": ["operations not in the catalogue are thin wrappers of ones that are"],
    },
    "C03": {
        "chunk": 40,
        "technique": "seeded search over histories and schedules at memory-access granularity, failing allocations and constructors, ownership model checked at every destruction and drop",
        "note": "Samples histories of up to 22 (quick) or 40 (thorough) operations on each of up to 4 threads; rare runs have more than 65536 owners of one object.",
        "rule": "A run draws up to 4 threads, each a random history of creations, copies, conversions, casts, weak locks, hand-overs and drops, with failing allocations and throwing "
                "constructors, and preempts at any memory access.",
        "quick": {"runs": {R17D: 32000, R20R: 32000}},
        "thorough": {"runs": {R17D: 150000, R20R: 150000, R17R: 60000, R20D: 60000}},
        "real": ["utki::shared_ref, shared, make_shared, make_weak, make_shared_from, make_weak_from, dynamic_reference_cast", "std::shared_ptr"],
        "stub": SCHED_STUB,
        "assumptions": ["sequentially consistent execution plus happens-before race detection stands in for weak memory"],
    },
    "C04": {
        "chunk": 40,
        "technique": "seeded search over histories and schedules at memory-access granularity, failing allocations and constructors, single-owner model checked at every step",
        "note": "Samples histories of up to 24 (quick) or 40 (thorough) operations on each of up to 4 threads; rare runs have more than 65536 moves or objects.",
        "rule": "A run draws up to 4 threads, each a random history of creations, moves, move-assignments, swaps, conversions, hand-overs and drops, with failing allocations and throwing "
                "constructors, and preempts at any memory access.",
        "quick": {"runs": {R17D: 40000, R20R: 40000}},
        "thorough": {"runs": {R17D: 150000, R20R: 150000, R17R: 60000, R20D: 60000}},
        "real": ["utki::unique_ref, make_unique, destructable", "std::unique_ptr"],
        "stub": SCHED_STUB,
        "assumptions": [],
    },
    "C05": {
        "chunk": 40,
        "technique": "seeded search over creation/failure/destruction histories and reader schedules, constructor and allocation failures, comparison with a model of the registration",
        "note": "Samples histories of up to 36 (quick) or 60 (thorough) creations and destructions of four singleton types, and up to 4 concurrent readers; rare runs go through more than 65536 instances.",
        "rule": "A run draws a history of creations (failing before, in or after the base constructor, second instances, in place or on the heap), destructions and phases of concurrent readers.",
        "quick": {"runs": {R17D: 40000, R20R: 40000}},
        "thorough": {"runs": {R17D: 150000, R20R: 150000, R17R: 60000, R20D: 60000}},
        "real": ["utki::singleton, intrusive_singleton"],
        "stub": SCHED_STUB,
        "assumptions": ["creation and destruction are serialised by the caller; only accesses and refused second creations run concurrently"],
    },
    "C06": {
        "chunk": 50,
        "technique": "seeded search over histories of connect/disconnect/emit including from inside callbacks, throwing callbacks and failing allocations, against a model of the connections",
        "note": "Samples histories of up to 24 (quick) or 40 (thorough) calls and nesting of 3 emissions, rare runs more than 65536 connections or emissions; a callback disconnecting itself while it runs is outside the property.",
        "rule": "A run draws an argument kind, a history of connects, disconnects and emissions, what each callback does when called (nothing, connect, disconnect another, emit, throw), "
                "and which allocation fails.",
        "quick": {"runs": {M17D: 40000, M20R: 40000}},
        "thorough": {"runs": {M17D: 300000, M20R: 300000, M17R: 100000, M20D: 100000}},
        "real": ["utki::signal"],
        "stub": ["operator new (fault injection)"],
        "assumptions": ["emissions and connections of one signal happen on one thread at a time (the class has no locking)"],
    },
    "C07": {
        "chunk": 50,
        "technique": "seeded search over nestings of guarded scopes and ways out of them, throwing actions and failing allocations, against a model of the scope stack",
        "note": "Samples up to 3 (quick) or 6 (thorough) nestings of up to 20 or 40 scopes per run; rare runs have more than 65536 scopes.",
        "rule": "A run draws nested scopes with guards (small, large, empty or heap-held actions), objects, releases and exceptions leaving them, and what each action does "
                "(nothing, throw one of several types, run out of memory, open scopes of its own, release another guard).",
        "quick": {"runs": {M17D: 120000, M20R: 120000}},
        "thorough": {"runs": {M17D: 300000, M20R: 300000, M17R: 100000, M20D: 100000}},
        "real": ["utki::scope_exit"],
        "stub": ["operator new (fault injection)"],
        "assumptions": [],
    },
    "C08": {
        "chunk": 20,
        "technique": "seeded search over exception chains, schedules of concurrent inspectors at memory-access granularity, failing allocations and type-name lookups, against the list of what was thrown",
        "note": "Samples chains of up to 60 (quick) or 150 (thorough) exceptions and up to 4 concurrent inspectors; rare messages are longer than 64 KB, rare indentations longer than 255 characters.",
        "rule": "A run draws a chain (library or standard nesting, standard and other types, short, long and multi-line messages), how it is described, by which threads, "
                "and which allocation or type-name lookup fails while it is thrown or described.",
        "quick": {"runs": {R17D: 4000, R20R: 4000, M17D: 8000, M20R: 8000}},
        "thorough": {"runs": {R17D: 50000, R20R: 50000, M17D: 80000, M20R: 80000, R17R: 20000, R20D: 20000}},
        "real": ["utki::exception, stacked_exception, throw_with_nested, to_string, current_exception_to_string, demangle"],
        "stub": SCHED_STUB + ["abi::__cxa_demangle (failure injection around the real one)"],
        "assumptions": ["the run-time library's own exception machinery (throw, rethrow, exception_ptr counts) is not instrumented and always has memory"],
    },
    "C09": {
        "chunk": 20,
        "technique": "seeded search over log call histories and schedules on a simulated standard output that holds back unflushed text, fails and is cut off by crashes, against the list of logged texts",
        "note": "Samples up to 16 (quick) or 30 (thorough) calls, or up to 4 threads of 5 calls each, rare runs more than 65536 calls; what a failing device swallows is not required to arrive.",
        "rule": "A run draws texts, forms of log call, throwing and nested callbacks, threads, write and flush failures of the device, and the point of a crash.",
        "quick": {"runs": {R17D: 12000, R20R: 12000, R17R: 12000, R20D: 12000}},
        "thorough": {"runs": {R17D: 100000, R20R: 100000, R17R: 100000, R20D: 100000}},
        "real": ["utki::log, logcat, log_debug, logcat_debug, LOG, run_debug", "std::cout and its synchronised stream buffer"],
        "stub": SCHED_STUB + ["C library output streams and descriptors 1 and 2"],
        "assumptions": ["std::cout in its default state, synchronised with the C streams, as the library uses it"],
    },
    "C10": {
        "chunk": 1,
        "technique": "seeded search over clock positions, time steps and reader schedules on a simulated clock, against exact elapsed time",
        "note": "Samples up to 14 (quick) or 30 (thorough) steps of the clock with up to 3 concurrent readers, from the epoch to the end of the clock's range; rare runs make more than 65536 readings.",
        "rule": "A run places the clocks (at the epoch, around wrap-arounds and sign changes, today, far away), advances them by steps from nanoseconds to several wrap-arounds, "
                "steps the system clock, and reads from one or several threads, with readings that take time.",
        "quick": {"runs": {R17D: 25000, R20R: 25000}},
        "thorough": {"runs": {R17D: 100000, R20R: 100000, R17R: 40000, R20D: 40000}},
        "real": ["utki::get_ticks_ms", "std::chrono"],
        "stub": SCHED_STUB,
        "assumptions": ["the counter may read the system or the steady clock; after a step of the system clock either one's elapsed time is accepted"],
    },
    "C11": {
        "chunk": 20,
        "technique": "seeded search over assertions in every form with failing memory, message callbacks and standard error on simulated terminals and a simulated process end, against the demanded report",
        "note": "Samples up to 6 assertions per run and messages of up to 4 (quick) or 16 (thorough) KB, rarely more than 65536 assertions or file names of up to 64 KB; the layout of the report is not judged beyond location, message and colour.",
        "rule": "A run draws what is a terminal, forms of assertion, conditions, messages, threads, and what fails (message callback, an allocation, a write to standard error).",
        "quick": {"runs": {R17D: 30000, R20R: 30000, R17R: 30000, R20D: 30000}},
        "thorough": {"runs": {R17D: 100000, R20R: 100000, R17R: 100000, R20D: 100000}},
        "real": ["utki::assert, assert_always, ASSERT, is_terminal_cin, is_terminal_cout, is_terminal_cerr", "std::cerr"],
        "stub": SCHED_STUB + ["C library output streams", "isatty", "abort and terminate (end of the simulated process)"],
        "assumptions": [],
    },
    "C12": {
        "chunk": 50,
        "technique": "seeded search over histories of edits and traversals with failing allocations and element copies, against a model tree compared after every step",
        "note": "Samples histories of up to 20 (quick) or 40 (thorough) operations on trees of up to about 45 nodes, based on vectors and lists, of elements that move without failing.",
        "rule": "A run draws a container kind and a history of insertions, erasures, direct edits, steps, traversals, index look-ups (right and wrong) and copies, and which allocation or element copy fails in each.",
        "quick": {"runs": {M17D: 150000, M20R: 150000}},
        "thorough": {"runs": {M17D: 300000, M20R: 300000, M17R: 100000, M20D: 100000}},
        "real": ["utki::tree, traversal and its iterators"],
        "stub": ["operator new (fault injection)"],
        "assumptions": ["elements whose move can fail give the containers themselves no way back; they are not used"],
    },
    "C13": {
        "chunk": 100,
        "technique": "seeded search over records, storage damage (torn, lost, cut, flipped, duplicated) and read histories with failing memory, against the bytes of the stored image",
        "note": "Samples images of up to 12 (quick) or 24 (thorough) records with up to 3 kinds of damage and some 20 reads.",
        "rule": "A run draws records, writes them through the library at any alignment, damages the image as a crashed or rotting storage does, and reads it as written and arbitrarily, with copies and impossible lengths.",
        "quick": {"runs": {M17D: 300000, M20R: 300000}},
        "thorough": {"runs": {M17D: 500000, M20R: 500000, M17R: 200000, M20D: 200000}},
        "real": ["utki::serialize*/deserialize*", "utki::deserializer"],
        "stub": ["storage (an image in memory that is damaged)", "operator new (fault injection)"],
        "assumptions": [],
    },
    "C14": {
        "chunk": 100,
        "technique": "seeded search over texts and storage damage (torn, lost, cut, flipped, duplicated), decoded from exactly sized memory, against reference decoders",
        "note": "Samples texts of up to 40 (quick) or 200 (thorough) characters, byte strings of up to 60 (300) bytes, with up to 3 kinds of damage each; rare ones are longer than 65536 bytes.",
        "rule": "A run draws a text or byte string, stores it encoded, damages it as a crashed or rotting storage does, and decodes it through several input forms.",
        "quick": {"runs": {M17D: 160000, M20R: 160000}},
        "thorough": {"runs": {M17D: 600000, M20R: 600000, M17R: 200000, M20D: 200000}},
        "real": ["utki::utf8_iterator, to_utf32, to_utf8", "utki::base64_decode"],
        "stub": ["storage (an image in memory that is damaged)"],
        "assumptions": ["a text does not contain the zero character, which ends it for the library's iterator"],
    },
    "C15": {
        "chunk": 50,
        "technique": "seeded search over builder calls and the allocation, formatting call, type-name lookup or output operator that fails in them, against references that cannot fail",
        "note": "Samples up to 5 (quick) or 12 (thorough) failure points in each of up to 3 builder calls per run; rare inputs are longer than 65536 bytes or elements.",
        "rule": "A run draws builder functions, overloads and inputs (sizes around internal buffers, all bytes, odd global locales) and, for each, which of the allocations or calls counted in a call without failure fails in a repetition.",
        "quick": {"runs": {M17D: 80000, M20R: 80000}},
        "thorough": {"runs": {M17D: 300000, M20R: 300000, M17R: 100000, M20D: 100000}},
        "real": ["utki::make_string, make_vector, split, join, cat, word_wrap, to_string, make_indentation, to_utf8, to_utf32, base64_decode, demangle, flip_map, flip_pair"],
        "stub": ["operator new, malloc (fault injection)", "vsnprintf, abi::__cxa_demangle (failure injection around the real ones)"],
        "assumptions": [],
    },
    "C16": {
        "chunk": 50,
        "technique": "seeded search over query chains and sorts with the callback invocation, element copy or move, or allocation that fails in them, against reference results and a count of living elements",
        "note": "Samples sequences of up to 50 (quick) or 120 (thorough) elements and up to 5 (10) failure points per query, rare ones of more than 65536 elements; order among equal elements and the contents of a range whose sort failed are not judged.",
        "rule": "A run draws a query chain or sort, a container, elements whose move can or cannot fail, and, from the callbacks, copies, moves and allocations counted in an execution without failure, which one fails in a repetition.",
        "quick": {"runs": {M17D: 40000, M20R: 40000}},
        "thorough": {"runs": {M17D: 300000, M20R: 300000, M17R: 100000, M20D: 100000}},
        "real": ["utki::linq: select, where, group_by, order_by, get", "utki::sort"],
        "stub": ["operator new (fault injection)"],
        "assumptions": [],
    },
    "C17": {
        "chunk": 100,
        "technique": "seeded search over texts, storage damage (torn, lost, cut, flipped, duplicated) and parser call histories with failing memory, against a model with the text and a position",
        "note": "Samples texts of up to 14 (quick) or 30 (thorough) tokens and up to 25 (60) parser calls, rare texts longer than 65536 characters; infinities and not-a-numbers in the text are not judged.",
        "rule": "A run draws a text of words, numbers in every notation and range, separators and arbitrary bytes, damages it as a crashed or rotting storage does, and reads it with a history of parser calls, some on copies.",
        "quick": {"runs": {M17D: 180000, M20R: 180000}},
        "thorough": {"runs": {M17D: 500000, M20R: 500000, M17R: 200000, M20D: 200000}},
        "real": ["utki::string_parser", "fast_float as bundled"],
        "stub": ["storage (a text in memory that is damaged)", "operator new (fault injection)"],
        "assumptions": [],
    },
    "C21": {
        "chunk": 100,
        "technique": "seeded search over values written to a stream whose device, elements or memory fail at any point, against the text of the values",
        "note": "Samples up to 5 (quick) or 10 (thorough) values per stream, spans of up to 1000 elements, rarely of more than 65536; field widths and number bases set by the caller are not judged.",
        "rule": "A run draws a stream (buffered or not, its exception mask and formatting), values of several types and sizes to be written to it, and where its device, an element's output operator or an allocation fails.",
        "quick": {"runs": {M17D: 100000, M20R: 100000}},
        "thorough": {"runs": {M17D: 500000, M20R: 500000, M17R: 200000, M20D: 200000}},
        "real": ["output operators of utki::span, flags, version_duplet", "std::ostream"],
        "stub": ["output device (a stream buffer that refuses or throws)", "operator new (fault injection)"],
        "assumptions": ["the stream buffer reports what it does not accept, as a stream buffer has to"],
    },
}
