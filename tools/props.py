#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that one property is one readable call)."""
import json, os
P = []
I, H, C, S, PR, F = "inputs", "histories", "configurations", "schedules", "programs", "fault_sequences"
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": ["src/estd/" + f for f in files],
         "mechanism": [{"name": n, "where": "src/estd/" + w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": "src/estd/" + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Strings behave as character sequences and stay inside their storage",
  "After any sequence of edits (construct, assign, append, insert, erase, replace, resize, clear, push/pop) a string of any storage layer holds exactly the characters a reference character sequence would hold, with matching size, emptiness, element access and iteration, and null-terminated strings stay terminated at their length. An edit that fits the advertised maximum never writes outside the string's own storage or disturbs neighbouring objects. Copying between storage layers preserves content.",
  [H, I, C], "all edit histories, contents (including bytes >= 0x80) and capacities for inline (layer1), wrapped (layer2), explicitly sized (layer3) and heap-backed strings, both terminated and counted",
  "Tests edit a few short literals on one capacity each; they never reach boundary-exact lengths, long mixed histories or guard bytes around the storage.",
  ["string.h", "internal/dynamic_array.h", "internal/string.h", "internal/impl/dynamic_array.h", "internal/runtime_array.h"],
  [("edits on a length-tracking array", "internal/dynamic_array.h"), ("length by terminator or stored size", "internal/impl/dynamic_array.h")],
  ["string contents, size() and data() after every call", "canary bytes around layer1/2/3 storage"],
  state=[("length", "number of live characters", "internal/impl/dynamic_array.h")])

p("C02", "String search, comparison and substring match the standard semantics",
  "For any text and pattern, find, reverse find, find-last-of, starts-with, ends-with, equality, ordering, prefix/suffix removal, copy-out and substring on strings and string views return what the standard's definition of the operation gives on the same characters. No query reads outside the characters it was given, including for empty text, empty pattern, absent pattern and boundary positions.",
  [I, C], "all texts (with embedded NULs and high bytes), patterns, positions and counts, across string views and every string storage layer",
  "Tests use a handful of literals where the pattern is present and the position is zero.",
  ["string_view.h", "internal/string.h", "internal/dynamic_array.h", "internal/runtime_array.h", "string.h"],
  [("find/rfind/compare on arrays", "internal/runtime_array.h"), ("string_view operations", "string_view.h")],
  ["return values of queries on red-zoned buffers"])

p("C03", "Fixed arrays, spans and buffer views expose exactly the viewed elements",
  "Arrays, spans and buffers report the size of the storage they view, and element access, first/last, iteration, fill and sub-view operations address exactly the elements the standard definition names. Reading through a view never touches memory outside the viewed range and writing through it changes only the addressed elements. Views of static and dynamic extent agree.",
  [I, C], "all extents, offsets, counts and element types, static and dynamic extents",
  "Tests build one or two spans of fixed size and look at a few elements.",
  ["array.h", "span.h", "internal/array.h", "internal/buffer.h", "internal/raw/cstddef.h"],
  [("span and sub-span arithmetic", "span.h"), ("fixed array access", "internal/array.h")],
  ["addresses, sizes and values seen through the view"])

p("C04", "Vectors are exact sequences and every element is destroyed once",
  "After any history of push, emplace, insert, erase, resize, assign, clear and copy, a vector holds exactly the elements in the order a reference sequence would hold, whether it is inline, counted or heap backed. Every element constructed is destroyed exactly once, none is used outside its lifetime, and growth past the initial capacity of a heap-backed vector preserves existing elements.",
  [H, I, C], "all operation histories over trivial and lifetime-tracked elements, for each storage policy",
  "Tests push a few integers; element lifetimes and mixed erase/insert histories are not observed.",
  ["vector.h", "internal/dynamic_array.h", "internal/impl/dynamic_array.h", "internal/runtime_array.h"],
  [("vector edits", "vector.h"), ("raw element moves", "internal/dynamic_array.h")],
  ["contents after each operation", "constructor/destructor ledger of elements"])

p("C05", "Deques, queues and stacks keep order and capacity across wraparound",
  "Elements leave a queue in the order they entered, leave a stack in reverse order, and a double-ended queue yields the elements a reference deque would at both ends and by iteration, at every fill level and however often the ring has wrapped. Reported size, emptiness, fullness and free space are exact. Each element is constructed and destroyed once.",
  [H, I, C], "all histories of push/pop/emplace at either end within capacity, for all ring capacities and element types",
  "Tests push a few values into a ring that wraps at most once.",
  ["deque.h", "queue.h", "stack.h", "deque.h"],
  [("ring index arithmetic", "queue.h"), ("deque push/pop", "queue.h")],
  ["values popped/peeked, sizes, element lifetimes"],
  state=[("front/back positions", "ring bounds of live elements", "queue.h")])

p("C06", "Priority queues and heaps always surface the extreme element",
  "For every history of pushes and pops, the top of a priority queue is an extreme element under its comparator, pops return elements in comparator order, and the multiset of elements is conserved. Heap construction and heap push/pop on a raw range produce a permutation of the input that satisfies the heap property for any heap arity.",
  [H, I, C], "all element multisets including duplicates, all interleavings of push/pop/erase, several arities and comparators",
  "Tests push a few distinct integers into one heap.",
  ["queue.h", "internal/heap.h", "internal/priority_queue.h"],
  [("k-ary heap sift", "internal/heap.h"), ("priority_queue push/pop", "internal/priority_queue.h")],
  ["sequence of tops", "heap order scan over container"])

p("C07", "Algorithms, numeric folds and utilities equal their standard meaning",
  "Search, equality, comparison, copy, fill, swap, min/max/clamp, accumulate, exchange, move and iterator-adapter utilities return and leave behind exactly what the corresponding standard algorithm would for the same ranges. They touch only elements of the ranges given, including empty, single-element and aliased arguments.",
  [I, C], "all ranges, values, predicates and aliasing of arguments",
  "Tests call each algorithm once or twice on a short fixed array.",
  ["algorithm.h", "numeric.h", "utility.h", "iterator.h", "internal/algorithm", "internal/utility", "internal/iterator"],
  [("algorithms", "algorithm.h"), ("swap/exchange", "internal/utility")],
  ["return values and final range contents"])

p("C08", "Unordered maps and sets track the exact set of keys and mapped values",
  "After any history of insertions, lookups, erasures and clears within capacity, an unordered map or set contains exactly the keys a reference map holds, each at most once (as many times as inserted for multi containers), mapped to the reference value, and iteration visits each live entry exactly once. Hash collisions, bucket saturation and reuse of erased slots change neither lookups nor reported success of insertions.",
  [H, I, C], "all operation histories, hash distributions from perfect to fully colliding, all bucket shapes and fill levels up to rejection",
  "Tests insert a few keys; slot reuse after erase, saturation and mixed histories are not explored.",
  ["unordered_map.h", "unordered_set.h", "internal/container/unordered", "internal/container", "map.h"],
  [("bucket probing and sparse slots", "internal/container"), ("map facade", "unordered_map.h")],
  ["lookups of every key in the universe after each operation", "iteration multiset"])

p("C09", "An optional is engaged exactly when assigned and preserves its value",
  "After any history of construction, assignment, emplacement, reset, copy, move and swap-like exchange, an optional is engaged exactly when a reference optional is and then holds the same value; access with a default yields the default exactly when disengaged. Equality follows the standard treatment of disengaged values; an ordering comparison with a disengaged optional is false (as the library's own suite demands) and otherwise orders the values. The contained object's constructor and destructor calls balance.",
  [H, I, C], "all histories over trivial, non-trivial, bit-packed and reserved-value optionals",
  "Tests assign one value and read it back.",
  ["optional.h", "internal/optional.h"],
  [("engaged flag and storage", "internal/optional.h"), ("optional operations", "optional.h")],
  ["has_value/value after each operation", "lifetime ledger"])

p("C10", "A variant holds exactly one alternative and dispatches to it",
  "After any history of construction, assignment, emplacement, copy and move, a variant reports the index of the alternative last stored, returns its value from get/get_if, and refuses every other alternative. Visitation calls the visitor exactly once with the held alternative. Alternatives are constructed and destroyed exactly once as the held alternative changes.",
  [H, I, C], "all histories over several alternative lists, including repeated types and non-trivial alternatives",
  "Tests build a few variants and read them back.",
  ["variant.h", "internal/variant.h", "internal/variant", "internal/variadic"],
  [("variant storage and index", "internal/variant/storage.h"), ("visitation", "internal/variant")],
  ["index/get/get_if/visit results", "lifetime ledger"])

p("C11", "An expected holds either its value or its error, never both or neither",
  "After any construction, assignment, emplacement, copy or move, an expected reports having a value exactly when one was stored last and yields that value, and otherwise yields exactly the stored error; value-or gives the default exactly in the error state. Contained objects are constructed and destroyed exactly once.",
  [H, I, C], "all histories over value/error type combinations including void values and same value/error types",
  "Tests construct one success and one error.",
  ["expected.h", "internal/expected.h"],
  [("tagged storage", "internal/expected.h"), ("expected operations", "expected.h")],
  ["has_value/value/error after each operation", "lifetime ledger"])

p("C12", "Tuples, pairs and variadic helpers keep each element in its position",
  "A tuple or pair of any element types, including empty and repeated types and references, returns by index (or unique type) the element constructed, assigned or moved into that position, and applying a callable passes every element once, in order and with its value category. Comparison and element visitation follow position order. Compile-time type lists answer size, index, membership and selection queries as their definitions require.",
  [I, C, PR], "all arities, element types (empty, reference, move-only) and values",
  "Tests check two or three literal tuples.",
  ["tuple.h", "internal/tuple.h", "internal/variadic.h", "internal/variadic", "internal/utility", "utility.h"],
  [("recursive tuple storage", "internal/tuple.h"), ("variadic queries and visitors", "internal/variadic")],
  ["get<I>, apply and visit traces"])

p("C13", "Function objects and delegates invoke exactly the bound target",
  "Invoking a function wrapper or delegate calls the target it was bound to exactly once with the arguments given (and, for method delegates, on the object bound) and returns its result, for free functions, lambdas with and without captures, functors and methods. Copying, moving, rebinding and clearing leave each wrapper bound to the expected target, and captured state is released exactly once.",
  [H, I, C], "all targets, argument values, and histories of copy/move/rebind over every wrapper implementation",
  "Tests invoke one freshly built wrapper with fixed arguments.",
  ["functional.h", "internal/functional.h", "internal/functional", "exp/functional.h", "internal/invoke.h"],
  [("type-erased models", "internal/functional"), ("function facade", "internal/functional.h")],
  ["call trace of targets", "capture lifetime ledger"])

p("C14", "Shared ownership releases the object exactly once, after its last owner",
  "For every history of creating, copying, moving, assigning, resetting and dropping shared, unique and weak handles, the managed object is alive while any owner exists and is destroyed exactly once when the last owner goes away. Reported use counts equal the number of live owners, and a weak handle is expired exactly when no owner remains.",
  [H, C], "all histories of handle operations over inline, in-place and external storage flavours with any number of owners",
  "Tests make one or two copies of one handle.",
  ["memory.h", "internal/memory", "internal/linked_ref.h"],
  [("reference counts / linked owners", "internal/memory"), ("deleters", "internal/memory")],
  ["destruction ledger and use_count after each operation"],
  state=[("owner count", "live owners of the object", "internal/memory")])

p("C15", "Linked lists contain exactly the nodes linked in, in order",
  "After any history of pushing, inserting and removing nodes, a forward, reverse or doubly linked list iterates over exactly the nodes currently linked, in the order a reference list would give, and front/empty agree with it. Unlinked nodes are no longer reachable and intrusive nodes are never copied, moved or destroyed by the list.",
  [H, I, C], "all histories of link/unlink operations over intrusive and handle-based lists",
  "Tests push two or three nodes and remove one.",
  ["forward_list.h", "list.h", "internal/list", "internal/list_node.h", "internal/reverse_list.h"],
  [("node linking", "forward_list.h"), ("doubly linked list", "list.h")],
  ["iteration order and node identity after each operation"])

p("C16", "Integer text conversion round-trips and is bounded",
  "Converting any integer to characters in a supported base yields the canonical representation the standard gives and parsing it back yields the same integer and consumes exactly the digits; parsing other text yields the standard's value, end position and error. Output never goes outside the buffer offered: a buffer that is too small is reported and not overrun. Whole-value string conversions agree.",
  [I, C], "all values of every integer width and signedness, bases 2 to 36, all buffer sizes, all input texts",
  "Tests convert a few small decimals and hex literals.",
  ["charconv.h", "internal/charconv", "internal/charconv.hpp", "internal/to_string.h", "internal/string_convert.h", "internal/cstdlib.h"],
  [("digit loops", "internal/charconv.hpp"), ("character bases", "internal/locale/cbase.h")],
  ["pointers, error codes and bytes written in a guarded buffer"])

p("C17", "Locale facets classify characters and parse numbers correctly",
  "Character classification, case conversion and digit recognition for the built-in locale agree with the C locale definition for every character and numeric base offered. Parsing a number or boolean name from any character sequence, however it is split across input, accumulates exactly the value the accepted prefix denotes, stops at the first character that cannot belong to it, and reports failure and end-of-input as the standard facet would.",
  [I, C], "all characters, all input texts, all integer widths and bases",
  "Tests parse a few well-formed numbers.",
  ["locale.h", "internal/locale", "cctype.h", "internal/cctype.h", "internal/chooser.h"],
  [("num_get and iterated parsing", "internal/locale/num_get.h"), ("ctype and cbase", "internal/locale")],
  ["facet results, iterator position, stream state"])

p("C18", "Formatted output honours base, width, fill and adjustment exactly",
  "Inserting integers, characters, text, booleans and other supported values into an output stream produces exactly the characters the stream's base, case, width, fill and adjustment settings call for, in insertion order, with width applying to one insertion only. Stream manipulators change only the setting they name, and state flags report failures of the underlying buffer.",
  [H, I, C], "all values, format settings, and sequences of insertions and manipulators",
  "Tests print a few values with one manipulator.",
  ["ostream.h", "internal/ostream", "internal/ostream.h", "iomanip.h", "internal/iomanip.h", "internal/ios_base.h", "ios.h", "internal/locale/num_put.h"],
  [("num_put formatting", "internal/locale/num_put.h"), ("insertion operators", "internal/ostream")],
  ["characters delivered to the stream buffer", "format flags after each call"])

p("C19", "Stream buffers deliver written bytes in order and keep their bounds",
  "A stream buffer over a string, span, fixed array or another buffer delivers to its reader exactly the characters written or supplied, in order, without loss or duplication, reports available and accepted counts truthfully, and reports end when exhausted or full. Seeking repositions to exactly the requested place and reports it. No operation accesses memory outside the backing storage.",
  [H, I, C], "all histories of single and bulk reads, writes, peeks, seeks and syncs on every buffer kind and size",
  "Tests read or write one short literal sequentially.",
  ["streambuf.h", "internal/streambuf.h", "internal/impl", "sstream.h", "port/streambuf.h"],
  [("buffer positions", "internal/impl"), ("streambuf wrapper", "internal/streambuf.h")],
  ["characters and counts returned, backing bytes, canaries"])

p("C20", "Input streams extract every character once and keep state flags truthful",
  "Unformatted extraction (get, peek, read, ignore, getline, whitespace skipping, seeking and buffer iterators) consumes exactly the characters the standard operation consumes, stores what it consumed, and leaves the next unread character where expected. Extraction of words, numbers and characters yields the value of the next token. End and failure flags are raised exactly when input ran out or nothing acceptable was found, and are cleared only on request.",
  [H, I, C], "all input texts and all sequences of extraction operations",
  "Tests extract one or two tokens from a fixed literal.",
  ["istream.h", "internal/istream.h", "internal/istream_runtimearray.hpp", "internal/istreambuf_iterator.h", "iomanip.h", "ios.h"],
  [("extraction operators", "internal/istream.h"), ("iostate", "internal/ios_base.h")],
  ["extracted characters, stream state and position"])

p("C21", "The bip buffer is a FIFO of bytes with contiguous regions",
  "Bytes leave a bip buffer in exactly the order they were offered, none lost, duplicated or altered, for every history of offers, peeks, polls and releases. Reported used, unused and empty values are consistent with accepted bytes, a refused offer or poll changes nothing, and no access leaves the buffer's storage. The C interface and the C++ wrappers agree.",
  [H, I, C], "all histories of offers and polls of all sizes on all buffer sizes, including wraparound",
  "Tests offer and poll one or two blocks without exploring wraparound.",
  ["ext/willemt/bipbuffer/bipbuffer.c", "internal/bip", "streambuf.h"],
  [("two-region ring", "ext/willemt/bipbuffer/bipbuffer.c")],
  ["bytes polled, sizes reported, guard bytes"],
  state=[("regions A and B", "occupied ranges", "ext/willemt/bipbuffer/bipbuffer.h")])

p("C22", "Durations and time points convert and compute exactly",
  "Arithmetic, comparison, conversion and casting of durations and time points of any representable period give the value exact rational arithmetic gives (truncated toward zero where a cast calls for it), agree with the standard library's own durations, and are independent of the order in which equal quantities are combined. Comparison between different periods never contradicts the exact ordering.",
  [I, C], "all counts (including negative and boundary values that do not overflow) and period combinations",
  "Tests compare a few literal durations.",
  ["chrono.h", "internal/chrono", "internal/chrono.h", "port/chrono.h", "port/chrono.hpp"],
  [("duration arithmetic", "internal/chrono"), ("duration_cast", "internal/chrono")],
  ["counts after each operation compared with exact arithmetic"])

p("C23", "Ratios and measurement units convert without changing the quantity",
  "Compile-time ratio arithmetic yields the exact reduced result and ordering, and unit quantities (temperature, percentage, bytes, electrical units and the like) keep the same physical quantity under conversion, arithmetic and comparison between scales, up to the truncation of the destination representation. Printed forms carry the right magnitude and unit.",
  [I, C], "all numerators, denominators, unit scales and magnitudes that do not overflow",
  "Tests check a few literal conversions.",
  ["ratio.h", "internal/units"],
  [("ratio arithmetic", "ratio.h"), ("unit conversion", "internal/units")],
  ["values after conversion compared with exact arithmetic"])

p("C24", "Hashes, bit utilities, flags, limits and type traits match their definitions",
  "Byte order reversal, bit rotation and other bit utilities, flag sets, hash functions, numeric limits and type classification return the values their definitions give (published hash algorithm, standard limits, standard traits) for every input. Equal keys always hash equally regardless of where or in what form they are stored.",
  [I, C], "all values of every width, all keys and types",
  "Tests check single literals.",
  ["bit.h", "limits.h", "internal/limits.h", "flags.h", "type_traits.h", "internal/type_traits", "functional.h", "internal/functional", "internal/raw"],
  [("FNV/hash", "internal/functional"), ("byteswap/rotate", "bit.h")],
  ["return values against independent implementation"])

p("C25", "Locks exclude, release exactly once, and never leak or double-unlock",
  "For any schedule of threads, a mutex admits one owner at a time, scoped lock objects acquire and release it exactly once on every path including early unlock, deferral, try, transfer and release of ownership, and their reported ownership is truthful. Everything done under the lock by one owner is visible to the next.",
  [S, H, C], "all thread schedules and histories of lock-object operations",
  "Tests lock and unlock once on one thread.",
  ["mutex.h", "internal/legacy", "port/mutex.h", "port/std"],
  [("scoped lock objects", "mutex.h"), ("platform mutex", "port/mutex.h")],
  ["lock/unlock ledger of an instrumented mutex", "race detector"])

p("C26", "Allocators, handles and pools hand out exclusive, in-bounds blocks",
  "Blocks handed out by the fixed and heap allocators and by object pools lie inside the region they manage, never overlap while live, hold their content across lock/unlock and reallocation, and become available again after release. Exhaustion is reported instead of handing out an invalid block, and pooled objects are constructed and destroyed exactly once.",
  [H, I, C], "all histories of allocate, reallocate, lock, unlock and free within capacity, for each allocator flavour",
  "Tests allocate one or two blocks.",
  ["allocators", "traits/allocator_traits.h", "internal/memory", "memory.h"],
  [("fixed allocator", "allocators/fixed.h"), ("pool slots", "internal/memory")],
  ["addresses and contents of live blocks, lifetime ledger"])

p("C27", "Distinct objects share no hidden state across threads",
  "Threads that work on distinct objects (strings, containers, streams, number conversions, smart handles, clocks) never race and each obtains the result it would obtain running alone. Concurrent read-only use of one shared object is equally safe and yields the same values as sequential use.",
  [S, H], "all schedules of threads running arbitrary workloads on their own objects or reading a shared one",
  "The tests are single threaded.",
  ["string.h", "internal/streambuf.h", "internal/ostream", "internal/locale", "internal/container", "queue.h", "vector.h"],
  [("absence of mutable static state", "internal")],
  ["race detector reports", "per-thread result digests vs a sequential run"])

p("C28", "Statically sized objects never touch the heap",
  "Objects whose storage is inline, wrapped or supplied by the caller (fixed strings, arrays, spans, rings, maps, pools, inline handles, stream buffers over them, delegates) and the number formatting and parsing that uses them never allocate or free dynamic memory, whatever operations are run on them. Copying or relocating such an object by its copy operations yields an independent object.",
  [H, I], "all histories of operations over all statically sized types",
  "No test observes the allocator.",
  ["string.h", "internal/impl/dynamic_array.h", "queue.h", "internal/container", "internal/streambuf.h", "internal/functional"],
  [("fixed storage policies", "allocators/fixed.h")],
  ["global allocation hooks while a statically sized workload runs"])

p("C29", "Subjects notify every interested observer exactly once, in order",
  "A notification sent through a subject (of referenced, held or stateless observers, or through proxies) reaches each registered observer that accepts that kind of notification exactly once, in registration order, with the payload unchanged and, when a context is supplied, with that same context object. Observers that do not accept the notification are skipped without effect on the others. Held observers keep their own state and referenced ones are the caller's objects.",
  [I, H, PR], "all payloads, notification sequences and observer mixes over the subject kinds",
  "The repository's observer tests are excluded from its build and check a value, not order, count or identity.",
  ["exp/observer.h"],
  [("optional notification dispatch", "exp/observer.h"), ("static subject chain", "exp/observer.h")],
  ["log of (observer, notification, payload, context) against the model's log"])

p("C30", "Fixed lookup maps yield the first entry holding the key",
  "Looking up a key in a fixed-size map (inline, over a caller's sized array or over a caller's array) yields the address of the mapped value of the first entry with that key, inside the map's storage, and null when no entry has it. Writing through the result changes that mapped value only; later lookups and, for wrapping maps, the caller's array show it; inline maps hold an independent copy of what they were built from.",
  [I, H, C], "all key and value contents including repeated and absent keys, for all sizes and element types of the three map layers",
  "Tests look up one key in a four-entry map.",
  ["map.h", "internal/legacy/array.h", "array.h"],
  [("linear lookup", "map.h"), ("iteration of wrapped arrays", "internal/legacy/array.h")],
  ["address and content of lookups"])

p("C31", "Guarantees survive the embedded build; wrong access terminates",
  "Built as embedded targets build it (no exceptions, no run-time type information, unsigned plain char), the library's strings, views, vectors, queues, heaps, hash maps, tuples, functions, shared pointers, lists, character conversions, facets, streams, stream buffers, durations, bit spans, hashes, allocators and fixed maps behave exactly as in a hosted build. Accessing an optional, expected or variant alternative that is not there ends the program instead of yielding an object; accessing the one that is there never does.",
  [I, H, PR], "all inputs and histories of the listed components under the embedded configuration",
  "The repository's tests need exceptions to run, so no test is ever executed in the configuration the library is made for.",
  ["optional.h", "expected.h", "variant.h", "internal/variant.h", "internal/charconv.hpp", "traits/char_traits.h", "internal/string.h"],
  [("value presence checks", "optional.h"), ("alternative checks", "internal/variant.h"), ("value or error checks", "expected.h")],
  ["the other properties' monitors and an abort trap, under -fno-exceptions -fno-rtti -funsigned-char"])

p("C32", "A request that does not fit fixed storage never passes or escapes it",
  "For inline, wrapping and runtime-sized fixed strings and vectors (with assertions enabled): an append, push, insert, assign, resize or construction whose result exceeds the capacity is refused or ends the program; it never writes outside the storage, never reports a size beyond the capacity and never returns as if it had succeeded, whatever the requested amount (also amounts whose size wraps the container's size type). A request that fits, up to exactly full, always succeeds with the exact content.",
  [I, H], "all fill levels, amounts and positions over all growing operations of the fixed string and vector layers",
  "Tests stay well inside the capacity; an over-capacity request ends the test program.",
  ["internal/dynamic_array.h", "internal/string.h", "internal/layer1/string.h", "internal/container/specializer.h", "allocators/fixed.h"],
  [("capacity check", "internal/dynamic_array.h"), ("refusal to reallocate", "allocators/fixed.h")],
  ["a SIGABRT trap around each request; address sanitizer on storage of exactly the capacity; size and content afterwards"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
        for fn in x["anchors"]["files"]:
            if not os.path.exists("/repo/" + fn): print("missing", x["id"], fn)
        for m in x["anchors"]["mechanism"]:
            if not os.path.exists("/repo/" + m["where"]): print("missing mech", x["id"], m["where"])
print(len(P))
