#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays in one readable place)."""
import json, os
H = "include/tiny/optional.h"
F = "include/tiny/optional_flag_manipulator_fwd.h"
P = []
def prop(id, title, statement, over, text, why, mech, observe, files=(H,), state=None):
    assert len(title) <= 80, title
    a = {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Every optional behaves like std::optional over any history of operations",
 "Take any legal sequence of operations (construction, all assignments including self-assignment and ={}, swap, reset, emplace, accessors, value_or, monadic operations, use in containers and algorithms) and apply it to an optional of this library and to std::optional of the same payload type: after every step both agree on engaged/empty, on the contained value, on every returned value and on whether bad_optional_access is thrown. This holds for every flavour (separate flag, unused bits, sentinel, sentinel in a member, sentinel via type, custom manipulator, always-in-place, nested), except for the interface parts the README lists as unsupported. Storing a declared sentinel value is not legal and is excluded.",
 ["histories", "inputs"], "all finite histories of public operations over several optionals of one type, all payload values, all optional flavours",
 "The tests run fixed short scripts per flavour with a handful of values; the behaviour depends on the state reached by arbitrary interleavings of operations between several optionals (aliasing, moved-from, re-engaged).",
 [("StorageBase construct/assign/reset", H), ("copy/move base classes", H), ("TinyOptionalImpl public interface", H), ("SelectDecomposition", H)],
 ["public API return values", "has_value/value after each operation"])

prop("C02", "Payload lifetimes are balanced: no leak, double destroy or dead access",
 "In every history each payload object an optional creates is destroyed exactly once, no later than the optional itself, and is never copied from, moved from, assigned, compared or accessed outside its lifetime. An optional never creates a payload over a still living one, never touches the allocator for the payload, and an empty optional contains no living payload.",
 ["histories", "fault_sequences"], "all histories of operations, including ones in which payload operations throw, over all flavours with non-trivial payloads",
 "The tests use payloads whose leaks or double destructions are not observed (no registry, no leak checking in the default build), on fixed scripts.",
 [("~StorageBase / reset / ConstructPayload pairing", H), ("emplace and swap", H)],
 ["payload constructor/destructor event registry", "AddressSanitizer/LeakSanitizer reports"])

prop("C03", "Exceptions propagate and leave every optional in the state std::optional has",
 "If a payload constructor, assignment, swap, conversion or a user callback throws during any operation, exactly that exception reaches the caller (never std::terminate, never swallowed), and the involved optionals are then engaged or empty exactly as std::optional guarantees for that operation, with the payload in the state the throwing operation left it in. The optionals remain fully usable and destructible afterwards, and nothing is leaked or destroyed twice.",
 ["fault_sequences", "histories"], "every operation x every pre-state x every point inside it at which user code can throw, for every flavour, including faults after the memory of the empty flag was already overwritten",
 "The tests throw in a few operations only; the fault point that matters is one where the in-place empty flag has been overwritten, which depends on flavour and member order.",
 [("re-initialisation of the empty flag on exceptions in ConstructPayload", H), ("noexcept specifications and their if-constexpr twins", H)],
 ["exceptions seen by the caller", "state of the optionals after the exception"])

prop("C04", "bool, float, double and pointer optionals lose no storable value",
 "For bool, float, double, object and function pointers (cv-qualified or not, on their own or as the member chosen to hold the empty state) every value a program can hold, including all infinities, zeros, subnormals, quiet and signalling NaNs and nullptr, is stored and returned bit-identically through every storing operation and the optional is then engaged. Only the single bit pattern documented in the README per type denotes empty; no bit pattern that differs from it in any bit does.",
 ["inputs"], "all bit patterns of the payload (2^32 for float, structured and random for 64 bit) x all storing operations",
 "Tests try about a dozen values per type; a partial or wrongly placed comparison with the reserved pattern only shows for patterns that share bytes with it.",
 [("SentinelForExploitingUnusedBits", H), ("MemcpyAndCmpFlagManipulator", H)],
 ["bit pattern read back through the public accessors", "has_value"])

prop("C05", "Sizes, alignment and is_compressed match the documented guarantees",
 "An optional has the size of its payload whenever the documentation promises in-place storage (unused-bit types, any sentinel, member used for the empty state, custom manipulators, optional_inplace, optional_aip), and the size of std::optional of the payload otherwise (also for unused-bit types and member pointers when the corresponding tricks are disabled); its alignment always equals the payload's. is_compressed, is_tiny_optional, is_tiny_optional_v and value_type report this truthfully for every optional type.",
 ["configurations", "programs"], "all payload types x flavours x configuration macros x 32/64 bit",
 "The tests check sizes for the types they happen to instantiate and only in the build configurations of the suite (never with only one of the two separate disabling macros).",
 [("SelectDecomposition", H), ("InplaceStorage/SeparateFlagStorage", H), ("is_compressed", H)],
 ["sizeof, alignof and the static members at run time"])

prop("C06", "A sentinel swallows exactly the declared value and nothing else",
 "An optional with a declared sentinel (as value, via a type, stored in a member, through sentinel_flag_manipulator, or the automatic one of optional_aip: maximum for unsigned, minimum for signed integers) is empty exactly when it holds no value, and every payload value that does not compare equal to the sentinel is stored, kept and returned unchanged by every storing operation. For a sentinel kept in a member, all values of all other members are unrestricted, and specifying a sentinel for a type with unused bits makes that type's own reserved pattern storable.",
 ["inputs", "programs"], "all values of the payload (exhaustive for 8 and 16 bit types, structured plus random for wider ones) x many sentinels and sentinel types x all storing operations",
 "Tests use one or two sentinels and one or two ordinary values; wrong conversions, wrong widths or wrong defaults show only for particular value/sentinel/type combinations.",
 [("AssignmentFlagManipulator and sentinel conversion", H), ("sentinel_flag_manipulator", H), ("SwallowingDefaultSentinel", H), ("decomposition via member pointer", H)],
 ["has_value and the value read back"])

prop("C07", "Debug assertions fire on documented misuse and never on legal use",
 "Without NDEBUG, every attempt to make an optional hold its sentinel (or a value its custom manipulator regards as empty) through any constructor, assignment, emplace, make_optional or transform, every * or -> on an empty optional, and every move construction or move assignment that turns the source from engaged to empty ends in an assert() failure before the operation returns. No legal history ever triggers an assertion, and with NDEBUG no check aborts the program.",
 ["histories", "inputs"], "all routes by which the misuse can be expressed x flavours; all legal histories",
 "The test suite cannot survive an abort and therefore never executes a misuse; legal histories are only sampled.",
 [("assert() calls in construction, assignment, accessors and moves", H)],
 ["calls of the assertion handler in forked processes"])

prop("C08", "An optional touches only its own bytes; its payload lives inside it",
 "No operation on an optional reads or writes memory outside the optional objects it was given (and what the payload itself does), so neighbours in arrays, structs and derived classes keep their bytes whatever the storage strategy. The payload's address is suitably aligned, lies inside the optional, and is the same for the whole life of the optional.",
 ["histories", "programs"], "all histories and flavours, with optionals packed next to foreign bytes",
 "Tests never surround optionals with watched memory; a too wide write of the empty marker is silent there.",
 [("memcpy of the reserved pattern", H), ("storage unions and GetPayload/GetIsEmptyFlag", H)],
 ["canary bytes around the objects", "addresses of payloads", "AddressSanitizer with poisoned red zones"])

prop("C09", "Custom flag manipulators are called according to the documented protocol",
 "For every optional driven by a user manipulator (specialised optional_flag_manipulator, also for a member, or optional_inplace): init_empty_flag is called only on memory without a living flag or payload, invalidate_empty_flag exactly once for each initialised flag and before a payload is constructed there or the optional ends, and is_empty only while a flag or a payload lives. All calls get a reference to the flag's own memory in that optional, and when the optional is gone every flag that was initialised has been invalidated, also when payload construction throws.",
 ["histories", "fault_sequences"], "all histories including throwing ones over all manipulator-based flavours",
 "Tests use manipulators on small-string or trivial data where a missing or doubled call is invisible; the order of calls is never recorded.",
 [("StorageBase: init/invalidate/is_empty calls", H), ("InitializeIsEmptyFlagScope", H), ("optional_flag_manipulator lookup", H)],
 ["trace of manipulator calls and payload constructor/destructor calls per address"], (H, F))

prop("C10", "Operations use copies and moves exactly as std::optional does",
 "For every operation and every value category and constness of its operands, the sequence of payload operations performed (constructions with their argument category, copy/move constructions and assignments, swaps, destructions) is the one std::optional performs for the same operation. In particular rvalues are moved and never copied, lvalues are never moved from, a moved-from optional stays engaged with a moved-from payload, and no extra temporaries are made.",
 ["histories", "programs"], "all operations x value categories x engaged/empty states of all operands x flavours",
 "Tests check resulting values, where an unnecessary copy or an unwanted move of an lvalue is invisible for most payloads.",
 [("forwarding in constructors, AssignValue, emplace, value_or, swap, or_else", H)],
 ["payload special-member event log, compared with std::optional's log"])

prop("C11", "and_then, transform, or_else call the function exactly when and how they must",
 "and_then and transform invoke the callable exactly once if the optional is engaged and never otherwise; or_else exactly once if it is empty and never otherwise; the payload is passed with the value category and constness of the optional, the callable with its own. The result is exactly what the callable returned (transform builds it in place without copy or move, also for immovable results), a disengaged result of the right type, or the optional itself, and an exception of the callable propagates leaving the source as the callable left it.",
 ["histories", "inputs", "fault_sequences"], "all callables (function objects of every ref-qualification, member pointers, function pointers, throwing, move-only), value categories, states and flavours",
 "Tests use a few lambdas on a few flavours; call counts, value category of callable and throwing callables are hardly covered.",
 [("and_then/transform/or_else overloads", H), ("ConstructPayloadFromFunction", H)],
 ["callable invocation log", "result values and payload event log"])

prop("C12", "All comparisons agree with std::optional's semantics in both operand orders",
 "==, !=, <, <=, >, >= and <=> between any two optionals of this library, between one of them and std::optional, a plain value or nullopt, in either operand order, yield what the standard specifies for std::optional: empties are equal and less than every value, otherwise the payloads are compared with that very operator (or with <=> where the standard's overload resolution selects it), left operand on the left, at most once, and never when an operand is empty. This holds for unordered values (NaN), for payload types with unrelated operators and for different payload types on the two sides.",
 ["inputs", "programs"], "all pairs of states and values x operators x operand kinds x both orders x C++17/C++20 x compilers",
 "Tests compare a few integers and flavours; overload resolution differs per flavour, operand order, standard and compiler, and wrong overloads are visible only for particular states (e.g. both empty).",
 [("comparison operator macro and overloads", H), ("operator<=> overloads and compiler workarounds", H)],
 ["comparison results", "log of payload operator calls"])

prop("C13", "std::hash of an optional equals the payload's hash and is stable when empty",
 "Hashing an engaged optional of any flavour gives std::hash of its payload value, and all empty optionals of one payload type hash alike in every flavour, independent of how the state was reached. Equal optionals hash equally, so unordered containers keyed by optionals never lose, duplicate or confuse elements; the hash is enabled exactly when the (non-const) payload's is.",
 ["inputs", "histories"], "all values, flavours and histories that lead to a state",
 "Tests hash one or two values per flavour in fresh optionals only.",
 [("std::hash specialisations", H), ("EnableHashHelper", H)],
 ["hash values", "unordered container behaviour against a reference model"])

prop("C14", "Type traits, overload constraints and noexcept match std::optional",
 "For every payload type and flavour, whether an optional can be default/copy/move constructed, copied/moved/value/nullopt assigned, explicitly or implicitly constructed from a given argument, swapped, dereferenced, three-way compared or hashed, the types these expressions have, and where the standard says so their noexcept-ness, equal those of std::optional for the same payload. Excluded are the deviations the README lists (conversions between optionals, triviality, constexpr) and what the standard only mandates and does not constrain (relational comparison, emplace).",
 ["programs"], "all payload types (every combination of available, deleted, throwing and explicit special members and conversions) x flavours x C++17/C++20",
 "Tests probe few payload types; constraint slips silently change overload resolution in user programs that the tests do not contain.",
 [("Enable* constraints", H), ("conditional base classes", H), ("noexcept specifications", H)],
 ["trait values of a payload matrix evaluated in a running program for both libraries"])

prop("C15", "Behaviour is independent of compiler, standard, optimisation and tricks setting",
 "The same program produces the same observable results whether compiled as C++17 or C++20, by gcc or clang, at any optimisation level, with or without NDEBUG, with fast-math, for 32 or 64 bit, and with the platform tricks enabled, partly disabled or fully disabled through the documented macros. Only object sizes may differ.",
 ["configurations", "histories"], "the build configuration matrix x random histories over all flavours",
 "Each test configuration is judged only against its own expectations on fixed scripts; optimiser-dependent miscompilation of the storage tricks needs varied code shapes and states.",
 [("configuration macros", H), ("memcpy/memcmp based flag handling, volatile casts and launder-free storage", H)],
 ["complete observation logs of all configurations, compared line by line"])

prop("C16", "Differently configured parts of one program cannot be mixed up silently",
 "Translation units compiled with different settings of the documented tricks macros can be linked into one program and each keeps working correctly with its own optionals. A call of a function that has an optional (or a pointer, reference or template instance of it) as parameter never links when caller and callee were compiled under different settings, or against headers of different library versions, for every pair of settings and every optional type of the library.",
 ["configurations", "programs"], "all pairs of the four macro settings x optional types x optimisation levels",
 "The test suite builds every configuration separately and never mixes two.",
 [("inline namespace naming", H), ("configuration macros", H)],
 ["linker verdict on mixed programs", "results of the mixed binary"])

prop("C17", "Const access and distinct neighbouring optionals are free of data races",
 "Any number of threads may concurrently call const operations (has_value, access, value_or, comparison, hash, copying from, monadic const operations) on one optional, and mutate distinct optionals, even adjacent ones in the same array, struct or machine word, without a data race and with unaffected results.",
 ["schedules", "histories"], "all interleavings of threads over shared const and disjoint mutable optionals of all flavours",
 "The tests are single-threaded.",
 [("const member functions without writes", H), ("exactly sized flag writes", H)],
 ["ThreadSanitizer reports", "per-thread result checks"])

prop("C18", "No undefined behaviour or read of uninitialised memory in any legal history",
 "Legal histories on any flavour execute without sanitizer-detectable undefined behaviour: no access out of bounds or out of lifetime, no misaligned or null access, no invalid bool or enum load, and no decision that depends on uninitialised memory. In particular the state of an empty optional never depends on leftover bytes of its storage, whatever the memory contained before the optional was created there.",
 ["histories", "configurations"], "all legal histories over all flavours, on storage with arbitrary previous contents",
 "The test configurations do not all run under sanitizers, never under MemorySanitizer or valgrind, and never construct optionals over adversarial garbage.",
 [("flag initialisation in every constructor", H), ("has_value before payload access", H)],
 ["UBSan, ASan, MSan and valgrind reports", "state after construction over filled memory"])

prop("C19", "Accessors give the contained object itself, or bad_optional_access when empty",
 "operator*, operator->, value() and emplace() refer to the one contained object, with the constness and value category of the optional expression, so writes through any of them are seen through all others and survive. value() throws bad_optional_access if and only if the optional is empty and changes nothing; value_or evaluates to the contained value or to the converted default, copying or moving according to the optional's value category and leaving an lvalue optional unchanged.",
 ["histories", "inputs"], "all histories, flavours, cv/ref qualifications and default argument types",
 "Tests read values but do not compare identity, category and write-through of all accessor overloads in arbitrary states.",
 [("operator*, operator->, value, value_or overloads", H)],
 ["addresses and types of accessor results", "exceptions"])

prop("C20", "Every construction route builds the payload once from the given arguments",
 "Direct and copy initialisation from values, in_place and initializer_list constructors, emplace, value assignment to an empty optional, make_optional (all overloads, with sentinels and member pointers) and the deduction guide construct exactly one payload, in place, from the caller's arguments with their types and value categories intact, using parenthesised initialisation as std::optional does. Explicitness is preserved, nullopt and {} always give an empty optional, and the resulting optional type is the documented one.",
 ["programs", "inputs"], "all argument lists and categories x construction routes x flavours",
 "Tests construct with a few argument lists and check values only.",
 [("converting, in_place and initializer_list constructors", H), ("make_optional, deduction guide", H), ("ConstructPayload", H)],
 ["argument log of a spying payload constructor", "payload event log"])

prop("C21", "Payload types with hostile but legal C++ interfaces work correctly",
 "Payloads that overload operator&, operator comma, class-level operator new/delete, that have greedy templated constructors, explicit or deleted members, overaligned or cv-qualified types, final or polymorphic classes, an own swap found by ADL, or only prvalue construction, behave in every flavour as in std::optional and never cause a user overload to be called that std::optional would not call.",
 ["programs", "histories"], "all flavours x hostile payload interfaces x histories",
 "Tests cover a few such types in single operations.",
 [("addressof and global placement new", H), ("swap via ADL", H), ("constraints of the converting constructor", H)],
 ["calls of the hostile overloads (trap counters)", "results compared with std::optional"])

prop("C22", "Ill-formed optional types are rejected at compile time",
 "A sentinel outside the range of the flag's type, a bool/non-bool or float/other mismatch, a payload of nullopt_t, in_place_t, reference or array type, optional_aip without a usable sentinel and throwing manipulator functions are compile errors.",
 ["programs"], "all template argument combinations",
 "Programs that must not compile cannot be part of the executable test suite; the repository checks a few by hand.",
 [("static_asserts", H)], ["compiler diagnostics"])

prop("C23", "The debugger visualiser shows the true state of every optional",
 "The shipped Natvis visualisers display 'empty' exactly when has_value() is false, and otherwise the contained value, for every library-provided flavour.",
 ["histories", "configurations"], "all states of all library-provided flavours",
 "Natvis is interpreted only by the Visual Studio debugger; no test reads it.",
 [("visualiser conditions", "include/tiny_optional.natvis")], ["Visual Studio debugger"], ("include/tiny_optional.natvis", H))

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
