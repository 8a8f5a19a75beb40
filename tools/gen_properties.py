#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as the readable source of that file)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Spin lock: mutual exclusion, visibility and progress",
  "At most one thread is ever inside a critical section guarded by the same spin lock, and everything one holder wrote before unlocking is visible, without a data race, to the next holder. "
  "A newly constructed lock is free wherever it is constructed, distinct locks are independent, and a lock can be acquired any number of times. "
  "Once the holder unlocks (however long it was stalled while holding), some waiting thread acquires the lock in a bounded number of its own steps.",
  ["schedules", "histories"],
  "Every interleaving of the memory accesses of any number of contending threads, any number of locks and acquisitions, and any length of time for which a holder is stalled.",
  "There is no spin-lock test among the stable tests; even a stress test samples the host's schedules, on one hardware memory model, and cannot hold a stall at a chosen instruction.",
  ["src/utki/spin_lock.hpp"],
  [("spin_lock::lock", "src/utki/spin_lock.hpp"), ("spin_lock::unlock", "src/utki/spin_lock.hpp")],
  ["lock()", "unlock()", "std::lock_guard<utki::spin_lock>"],
  [("lock flag", "held / free", "src/utki/spin_lock.hpp")])

p("C02", "Thread independence of the library's functions",
  "Any operation of the library called by several threads at once on separate data gives each caller exactly what it gives a caller running alone, with no data race and no crash, including the very first calls made in the process. "
  "The same holds when threads concurrently perform read-only operations on one shared object (strings, trees, parsers' input, signals, exceptions, containers passed as const).",
  ["schedules", "inputs", "programs"],
  "Every set of library calls placed on concurrent threads, and every interleaving of their memory accesses, from a fresh process on.",
  "The existing tests are single threaded, so hidden shared state (a static buffer, a lazily filled cache, a mutable member) is invisible to them.",
  ["src/utki/string.cpp", "src/utki/string.hpp", "src/utki/unicode.cpp", "src/utki/base64.cpp", "src/utki/exception.cpp", "src/utki/deserializer.cpp", "src/utki/time.cpp", "src/utki/utility.cpp", "src/utki/utility.hpp", "src/utki/tree.hpp", "src/utki/linq.hpp", "src/utki/sort.hpp"],
  [("functions keep their state in automatic or caller-owned storage only", "all of src/utki"), ("static read-only tables", "src/utki/base64.cpp")],
  ["return values and output arguments of every public function"])

p("C03", "Shared references: never null, alive while owned, destroyed exactly once",
  "A shared reference that was not moved from always refers to a live object (in debug builds, making one from a null pointer stops the program), and an object created through the library is destroyed exactly once, by the time its last shared owner is gone and not before, whichever threads copy, assign, convert (to base, to const, by dynamic cast, to and from weak pointers) and drop references in whatever order. "
  "A shared or weak pointer obtained from an object shares that object's one ownership and never creates a second one; on an object that no shared pointer owns (any more) obtaining a shared one is refused with an exception. "
  "If construction or an allocation fails, the exception reaches the caller, and nothing is leaked or destroyed twice.",
  ["schedules", "histories", "fault_sequences"],
  "Every history of creations, copies, moves, conversions and drops over any number of threads and interleavings, with construction and allocation failing at any point.",
  "Unit tests follow a few single-threaded sequences and never let an allocation or constructor fail or two owners release concurrently.",
  ["src/utki/shared_ref.hpp", "src/utki/shared.hpp"],
  [("shared_ref", "src/utki/shared_ref.hpp"), ("make_shared", "src/utki/shared_ref.hpp"), ("shared / make_shared_from / make_weak / make_weak_from", "src/utki/shared.hpp"), ("dynamic_reference_cast", "src/utki/shared_ref.hpp")],
  ["shared_ref operations", "destructor calls", "weak_ptr::lock", "bad_weak_ptr"])

p("C04", "Unique references: exactly one owner, destroyed exactly once",
  "A unique reference that was not moved from always refers to a live object (in debug builds, making one from a null pointer stops the program). An object created as a unique reference (or handed over as a unique pointer or as a type-erased destructable) has exactly one owner at any time, through moves, move-assignments, swaps, conversions to base or const and hand-over to another thread, and is destroyed exactly once, through its dynamic type, when its owner is destroyed or overwritten. "
  "If construction or an allocation fails, the exception reaches the caller and nothing is leaked or destroyed twice.",
  ["schedules", "histories", "fault_sequences"],
  "Every history of creations, moves, conversions and hand-overs across threads, with construction and allocation failing at any point.",
  "Tests exercise single moves on one thread with no failing constructor or allocation.",
  ["src/utki/unique_ref.hpp", "src/utki/destructable.hpp"],
  [("unique_ref", "src/utki/unique_ref.hpp"), ("make_unique", "src/utki/unique_ref.hpp"), ("to_unique_ptr", "src/utki/unique_ref.hpp"), ("destructable virtual destructor", "src/utki/destructable.hpp")],
  ["unique_ref operations", "destructor calls"])

p("C05", "Singleton: one instance, found by all, through failures and re-creation",
  "While an instance of a singleton type exists, every access from any thread yields exactly that instance, from the start of the derived constructor's body to the end of the derived destructor's body, also while the process exits, and only its owner ever destroys it; singletons of different types do not affect each other. "
  "Constructing a second instance throws a logic error and leaves the first one registered and usable. "
  "After the instance is destroyed, or its constructor fails at any point, the singleton reports that it is not created and a new instance can be created.",
  ["histories", "fault_sequences", "schedules"],
  "Every history of creations, failed creations (constructor exceptions, allocation failures), second creations, accesses and destructions, with concurrent readers in any interleaving.",
  "The existing test creates one singleton once; it never fails a constructor, re-creates after failure, or reads concurrently.",
  ["src/utki/singleton.hpp"],
  [("intrusive_singleton constructor/destructor", "src/utki/singleton.hpp"), ("singleton", "src/utki/singleton.hpp")],
  ["inst()", "is_created()", "constructor", "destructor"])

p("C06", "Signals: every connected callback once, in order, with the emitted arguments",
  "Emitting a signal calls each callback connected at that time exactly once, in connection order, each with the values that were emitted, whatever other callbacks do with their copies; disconnected callbacks are never called and a disconnection removes precisely the one connection it names. "
  "An exception from a callback reaches the emitter and leaves all connections intact; a connect that fails to allocate leaves the signal unchanged. "
  "Callbacks may connect new callbacks, disconnect others, or emit again during an emission without breaking any of this for the callbacks that stay connected.",
  ["histories", "fault_sequences", "inputs"],
  "Every history of connect, disconnect and emit calls, including from inside callbacks, with callbacks throwing and allocations failing at any point.",
  "Tests emit with one or two well-behaved callbacks; they never combine several callbacks with movable arguments, failures, or changes during emission.",
  ["src/utki/signal.hpp"],
  [("signal::connect", "src/utki/signal.hpp"), ("signal::disconnect", "src/utki/signal.hpp"), ("signal::emit", "src/utki/signal.hpp")],
  ["callback invocations and their arguments"],
  [("callbacks list", "connected callbacks in order", "src/utki/signal.hpp")])

p("C07", "Scope exit: the guard action runs exactly once on every way out",
  "The action of an armed scope guard runs exactly once when its scope is left, on normal exit and when an exception leaves the scope, after anything constructed later in the scope is gone. "
  "A released guard never runs its action and hands it back to the caller exactly as given; a guard with an empty action does nothing. "
  "An exception of any type thrown by the action is contained and neither terminates the program nor replaces an exception in flight.",
  ["histories", "fault_sequences"],
  "Every nesting of scopes and guards, with exceptions (including allocation failures) leaving the scope at any point and actions that throw anything.",
  "The tests take a few fixed paths; they do not leave scopes at arbitrary points nor throw non-standard types from actions during unwinding.",
  ["src/utki/utility.hpp"],
  [("scope_exit", "src/utki/utility.hpp")],
  ["action invocations"])

p("C08", "Nested exceptions: the whole chain is reported, safely, from anywhere",
  "The description of a chain of nested exceptions names the type and message of every exception in the chain, outermost first, for any depth (the stack has room for) and for exceptions of non-standard types (of the exception that is currently being handled, the first entry may be the type alone); throwing with nesting keeps the exception being handled, with its type and message, underneath the new one, and is itself catchable as the library's exception type. "
  "The text obtained from an exception stays valid and unchanged as long as the exception lives, and several threads holding the same exception may ask for it at the same time without a race. "
  "When memory or type-name lookup fails while describing, the result is a degraded but well-formed text or an ordinary exception: never termination, a leak, or a silently cut text.",
  ["schedules", "fault_sequences", "inputs", "histories"],
  "Every chain of exception types, depths and messages, every set of threads inspecting the same exception, and allocation and demangling failures at any point.",
  "Tests compare a few fixed chains on one thread with unlimited memory.",
  ["src/utki/exception.hpp", "src/utki/exception.cpp", "src/utki/debug.cpp"],
  [("throw_with_nested", "src/utki/exception.hpp"), ("stacked_exception", "src/utki/exception.hpp"), ("to_string / current_exception_to_string", "src/utki/exception.cpp"), ("demangle", "src/utki/debug.cpp")],
  ["what()", "to_string(std::exception)", "current_exception_to_string()"])

p("C09", "Log output: complete, in order, once, and flushed when the call returns",
  "Every log call writes its text to standard output completely, exactly once, in call order per thread, and has handed all of it to the operating system by the time the call returns, so that a crash right after a log call loses nothing logged before. "
  "With several threads logging, no text is lost or duplicated. "
  "Debug-only logging and debug-only code run exactly once per call in debug builds and are not evaluated at all in release builds; an exception from the printing callback reaches the caller.",
  ["crash_points", "schedules", "fault_sequences", "inputs"],
  "Every history of log calls on any threads and interleavings, a crash after any call, and a sink that fails or accepts data piecemeal at any point.",
  "The log tests only compile and run the calls; nothing observes when text becomes durable, or what a crash, fault or second thread does to it.",
  ["src/utki/log.hpp", "src/utki/log.cpp", "src/utki/debug.hpp"],
  [("log / log_debug / logcat / logcat_debug", "src/utki/log.hpp"), ("LOG macros", "src/utki/debug.hpp")],
  ["bytes synchronised to standard output"])

p("C10", "Tick counter: differences track elapsed time, through wrap-around",
  "The difference, modulo its 32-bit range, of two readings of the millisecond tick counter equals the time elapsed between them on the clock it reads, to within a millisecond of rounding, from any threads, at any point of the counter's range including across its wrap-around. "
  "The counter never sticks, saturates, or fails, whatever the absolute time is.",
  ["schedules", "histories", "configurations"],
  "Every absolute time of the clock, every sequence of delays between readings, every wrap-around and backward or forward clock step, on every thread.",
  "The tests read the real clock once or twice; they cannot move it to the wrap-around, to arbitrary epochs, or make it jump.",
  ["src/utki/time.hpp", "src/utki/time.cpp"],
  [("get_ticks_ms", "src/utki/time.cpp")],
  ["get_ticks_ms()"])

p("C11", "Assertions stop the program with a report; passing ones do nothing",
  "A failing assertion never lets execution continue past it: it writes the location and the complete caller-supplied message to standard error, flushed, and then aborts (when memory, the stream or the message callback fails, it still aborts or leaves by exception); colour codes are written only if standard error is a terminal, and each terminal query reports on its own stream. "
  "A passing assertion has no observable effect and never evaluates its message. "
  "In release builds debug-only assertions evaluate nothing, while always-on assertions behave as in debug builds.",
  ["fault_sequences", "configurations", "schedules"],
  "Every assertion form, outcome and message, any set of streams that are or are not terminals, failures of the terminal query, the error stream and allocation, and several threads asserting at once.",
  "A test process cannot survive a failing assertion, so only passing assertions are tested, and never with a failing or redirected stream.",
  ["src/utki/debug.hpp", "src/utki/debug.cpp"],
  [("assert / assert_always", "src/utki/debug.hpp"), ("is_terminal_*", "src/utki/utility.cpp"), ("ASSERT macros", "src/utki/debug.hpp")],
  ["bytes on standard error", "abort", "message callback invocations"])

p("C12", "Trees: edits and traversal agree with a model, and survive failures",
  "Any history of insertions, erasures, moves and traversals over a tree visits and leaves exactly the nodes, in exactly the depth-first order, that a straightforward model of the tree gives, and indices obtained from a traversal lead back to the same nodes. "
  "If an allocation or element copy fails during any tree or traversal operation, the exception reaches the caller, nothing leaks, and the tree and every iterator involved are as they were before the operation (only the target of a failed assignment of a whole tree may be left changed). "
  "Asking for a position, level or node that does not exist is reported by an exception or a negative answer as documented, never by reading outside the tree.",
  ["histories", "fault_sequences", "inputs"],
  "Every tree shape, history of edits and iterator steps, and every point at which an allocation or element copy in them may fail, for every container kind a tree may use.",
  "Tests traverse a handful of fixed trees and never fail an allocation inside an operation.",
  ["src/utki/tree.hpp"],
  [("traversal and its iterator", "src/utki/tree.hpp"), ("insert / insert_after / erase", "src/utki/tree.hpp"), ("is_valid / make_iterator / operator[]", "src/utki/tree.hpp")],
  ["iteration order", "index()", "iterator dereference", "exceptions"],
  [("iterator stacks", "path from the root list to the current node", "src/utki/tree.hpp")])

p("C13", "Deserialisation of damaged data: exact value or clean refusal",
  "Values written by the serialisation functions are read back exactly, consuming exactly their bytes, for every width, sign, byte order and position. "
  "From data that was truncated, torn, or corrupted in storage, every read either returns precisely the value that the bytes at the current position encode and advances past them, or throws an invalid-argument error and leaves the position unchanged; a read never touches memory outside the data, whatever lengths the data claims.",
  ["fault_sequences", "inputs", "histories", "crash_points"],
  "Every sequence of writes and reads, every crash point of the write and every torn, lost or flipped byte in the stored image, every starting offset.",
  "Tests read back a few intact fixed buffers; none reads a truncated or corrupted image or checks the position after a refusal.",
  ["src/utki/utility.hpp", "src/utki/deserializer.hpp", "src/utki/deserializer.cpp"],
  [("serialize*/deserialize*", "src/utki/utility.hpp"), ("deserializer bounds checks", "src/utki/deserializer.cpp")],
  ["returned values", "remaining size", "exceptions"])

p("C14", "UTF-8 and base64 decoding of damaged data: safe, and exact where intact",
  "Decoding text that was intact gives exactly the original, and decoding data that was truncated, torn or corrupted always terminates and never reads outside the data, through every input form (sized, zero-terminated, iterator). "
  "UTF-8 decoding yields the original characters for everything before the damage, and nothing else where the text was merely cut. "
  "Base64 decoding of damaged text yields the bytes of its valid leading part or an invalid-argument error, never bytes that the text does not encode.",
  ["fault_sequences", "inputs", "crash_points"],
  "Every text or byte string, every cut, torn tail and flipped, lost or duplicated byte in its stored form.",
  "Tests decode a few intact strings; no test truncates a multi-byte character at the end of a buffer or flips a byte.",
  ["src/utki/unicode.hpp", "src/utki/unicode.cpp", "src/utki/base64.hpp", "src/utki/base64.cpp"],
  [("utf8_iterator", "src/utki/unicode.cpp"), ("to_utf32 / to_utf8", "src/utki/unicode.cpp"), ("base64_decode", "src/utki/base64.cpp")],
  ["decoded values", "memory accesses"])

p("C15", "Value builders: complete result or exception when resources fail",
  "Every library function that builds a string or container either returns the complete correct result or throws, when an allocation or a formatting call fails at any point inside it; it never returns a cut, partial or stale result. "
  "Either way its inputs are unchanged, nothing leaks, and a later call succeeds normally.",
  ["fault_sequences", "inputs"],
  "Every builder function, every input size (around and beyond internal buffer sizes), and every allocation or formatting call that may fail in it.",
  "Tests run with unlimited memory and formatting calls that never fail, so no error path of a builder is ever executed.",
  ["src/utki/string.cpp", "src/utki/string.hpp", "src/utki/unicode.cpp", "src/utki/base64.cpp", "src/utki/debug.cpp", "src/utki/utility.hpp"],
  [("make_string", "src/utki/string.cpp"), ("cat / join / split / word_wrap", "src/utki/string.hpp"), ("to_utf8 / to_utf32", "src/utki/unicode.cpp"), ("base64_decode", "src/utki/base64.cpp"), ("demangle", "src/utki/debug.cpp"), ("flip_map, serialize", "src/utki/utility.hpp")],
  ["returned values", "exceptions", "live allocations"])

p("C16", "Sequence queries and sorting: sound when callbacks or memory fail",
  "A query or sort over a sequence whose callbacks and allocations succeed gives exactly the documented result (selection, filtering, grouping, ordering; a sort leaves a sorted permutation, with little stack whatever the order was). "
  "When a callback, an element operation or an allocation fails at any point, that same exception reaches the caller, no element is leaked or destroyed twice, and a source sequence that was passed by reference to a query is unchanged.",
  ["fault_sequences", "inputs"],
  "Every query chain and sort over every sequence, with the failure placed at any callback invocation, element copy or move, or allocation.",
  "Tests run a few chains whose callbacks and allocations never fail.",
  ["src/utki/linq.hpp", "src/utki/sort.hpp"],
  [("linq", "src/utki/linq.hpp"), ("sort", "src/utki/sort.hpp")],
  ["results", "source sequences", "exceptions", "live elements"])

p("C17", "Text parser: exact stretches, and clean refusal at the end of damaged text",
  "Reading text through the string parser returns exactly the documented stretches, in order, and what remains is always precisely the rest of the text, wherever the text was cut or damaged. "
  "A read or peek of a character where none remains, and the reading of a number where there is none, is refused with an invalid-argument error that consumes nothing but leading white space; no read touches memory outside the text.",
  ["fault_sequences", "inputs", "histories", "crash_points"],
  "Every text, every history of parser calls, and every cut, torn tail, flipped, lost or duplicated byte in the text.",
  "Tests parse a few fixed well-formed strings and check few error paths.",
  ["src/utki/string.hpp", "src/utki/string.cpp"],
  [("string_parser", "src/utki/string.cpp")],
  ["returned stretches", "get_view()/empty()", "exceptions"],
  [("remaining view", "unread rest of the text", "src/utki/string.hpp")])

p("C18", "String utilities compute their documented value",
  "Splitting, joining, trimming, wrapping, prefix and suffix tests, number formatting and number parsing return exactly the documented value for every input.",
  ["inputs"], "Every input string, separator, width and number.",
  "Tests sample a few dozen strings.",
  ["src/utki/string.hpp", "src/utki/string.cpp"],
  [("split, join, trim*, word_wrap, starts_with, ends_with, to_string, string_parser::read_number", "src/utki/string.hpp, string.cpp")],
  ["return values"])
p("C19", "Encoding round trips",
  "Converting any sequence of characters to UTF-8 and back, or decoding the base64 form of any bytes, gives the original.",
  ["inputs"], "Every sequence of 31-bit characters; every byte string.",
  "Tests sample a few strings.",
  ["src/utki/unicode.cpp", "src/utki/base64.cpp"],
  [("to_utf8 / to_utf32", "src/utki/unicode.cpp"), ("base64_decode", "src/utki/base64.cpp")],
  ["return values"])
p("C20", "Flag sets, enumeration arrays, spans, views and versions obey their algebra",
  "Flag sets behave as sets of enumeration values under their bitwise operators, enumeration-indexed arrays and iteration cover each enumerator once, spans and views denote exactly their elements, version numbers are ordered by their components, and numeric helpers return their mathematical value.",
  ["inputs"], "Every value of the types involved.",
  "Tests sample a few values of each type.",
  ["src/utki/flags.hpp", "src/utki/enum_array.hpp", "src/utki/enum_iterable.hpp", "src/utki/span.hpp", "src/utki/views.hpp", "src/utki/variant.hpp", "src/utki/version.hpp", "src/utki/math.hpp", "src/utki/type_traits.hpp"],
  [("operator definitions", "the headers listed")],
  ["return values"])

p("C21", "Values written to a stream: exact and in order, or the failure shows",
  "Writing a span, a flag set or a version to an output stream writes exactly the text of its elements (each as the element's own output operator writes it), in order and nothing else, for any number and type of elements, and leaves the value and the stream's formatting as they were. "
  "When the stream's device accepts only a part or throws, an element's output operator throws, or memory runs out, then what has reached the device is a beginning of that text, and the failure shows in the stream's state or as that exception; a failed state of the stream is never cleared.",
  ["fault_sequences", "inputs", "histories"],
  "Every sequence of values written to one stream, and every point at which its device, an element or an allocation fails.",
  "Tests write a value or two to a string stream, which never fails.",
  ["src/utki/span.hpp", "src/utki/flags.hpp", "src/utki/version.hpp"],
  [("operator<< of span", "src/utki/span.hpp"), ("operator<< of flags", "src/utki/flags.hpp"), ("operator<< of version_duplet", "src/utki/version.hpp")],
  ["what the stream buffer receives", "stream state", "exceptions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P), "properties")
