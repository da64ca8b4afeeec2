#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, stmt, over, otext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=stmt,
        quantifier=dict(over=over, text=otext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or ["public API of the named headers"], hook_needed=None)))
C = "include/neolib/core/"
NOT_BUILT = "The Containers test is not even built here, and it replays a handful of fixed sequences; "

p("C01", "Segmented array behaves as one contiguous random-access sequence",
  "After any history of insertions (single, counted, range), erasures, pushes, pops, resizes, copies, moves and swaps, a segmented array holds exactly the elements, in the order, that a plain vector given the same calls would hold, whatever the segment size. Indexing, iterator arithmetic, distance, reverse traversal and the iterator recovered from an element reference all agree with that sequence. Every element is constructed and destroyed exactly once.",
  ["histories", "inputs", "configurations"], "all operation histories, element types (trivial, non-trivial, self-checking) and segment sizes",
  NOT_BUILT + "segment split/merge, tree rotation and cross-segment iterator moves depend on the whole history.",
  [C+"segmented_array.hpp", C+"array_tree.hpp", C+"static_vector.hpp"],
  [("insert/allocate/erase/free_segment", C+"segmented_array.hpp"), ("red-black size-augmented tree", C+"array_tree.hpp")],
  [("node.size/left/right/parent/colour", "order statistics per subtree", C+"array_tree.hpp")])
p("C02", "Tag array keeps the sequence and the tag of every element",
  "After any history of tagged insertions, erasures, pushes, pops, clears and copies, a tag array holds exactly the elements, in the order, that a plain vector given the same calls would hold. Every element is reported under the tag it was inserted with, elements inserted under different tags never share a tag segment, and walking from an element to its tag agrees with the element's position.",
  ["histories", "inputs"], "all operation histories over tag values, positions and counts",
  "No test builds or exercises tag_array at all.",
  [C+"tag_array.hpp", C+"array_tree.hpp"],
  [("per-node tag, segment split on tag boundary", C+"tag_array.hpp")])
p("C03", "Gap vector behaves as a vector wherever the editing gap is",
  "After any history of insertions, erasures, pushes, pops, resizes, reservations, assignments, copies, moves and swaps, a gap vector holds exactly the elements, in the order, that a plain vector given the same calls would hold, wherever its gap currently is. Indexing, checked access, iterators and contiguous data access agree with that sequence, iterators returned by edits designate the specified element, and every element is constructed and destroyed exactly once.",
  ["histories", "inputs", "configurations"], "all operation histories, gap sizes and element types (trivial and non-trivial)",
  NOT_BUILT + "whether a split, unsplit or gap move corrupts elements depends on where earlier edits left the gap.",
  [C+"gap_vector.hpp"],
  [("split/unsplit/grow", C+"gap_vector.hpp"), ("iterator gap skipping", C+"gap_vector.hpp")],
  [("iGapStart,iGapEnd", "current gap window", C+"gap_vector.hpp")])
p("C04", "Tree container keeps an ordered forest consistent under every edit",
  "After any history of child and sibling insertions, pushes, pops, erasures of whole subtrees, sorts, copies and moves, the tree holds exactly the ordered forest that a naive pointer tree given the same edits would hold. Pre-order, sibling-only and skip traversals, in both directions, child counts, descendant counts, depths and parents all agree with that forest. Every node value is constructed and destroyed exactly once.",
  ["histories", "inputs"], "all histories of structural edits over forests of any shape",
  NOT_BUILT + "descendant counts and traversal cursors depend on the shape produced by the whole history.",
  [C+"segmented_tree.hpp", C+"segmented_array.hpp", C+"tree.hpp"],
  [("inc/dec descendant counts", C+"segmented_tree.hpp"), ("iterator skipping modes", C+"segmented_tree.hpp")])
p("C05", "Indexitor maps between own and foreign indices by exact prefix sums",
  "After any history of insertions, erasures and size updates, an index tree of (value, width) entries gives each entry a foreign index equal to the sum of the widths before it (plus its skip), and the reverse lookups return the entry whose half-open span covers the requested foreign index. Its total length, element order and iteration agree with a plain list of the same entries.",
  ["histories", "inputs"], "all histories of inserts, erases and width updates, zero widths included",
  NOT_BUILT + "subtree sums are only wrong after particular rotations, removals and updates.",
  [C+"indexitor.hpp", C+"index_array_tree.hpp", C+"array_tree.hpp"],
  [("foreign_index augmentation, rotate/insert/erase fix-ups", C+"index_array_tree.hpp")])
p("C06", "Inline-capacity vectors behave as bounded or growing vectors",
  "A fixed-capacity inline vector given any history of edits holds exactly what a plain vector would, refuses with its overflow exception every edit that would exceed its capacity, and is left valid afterwards. The growing variant behaves identically across the switch between inline and heap storage, and every element is constructed and destroyed exactly once.",
  ["histories", "inputs", "configurations"], "all operation histories, capacities and element types",
  "StringUtils uses the type incidentally; overflow, self-insertion and the inline/heap switch are never exercised.",
  [C+"static_vector.hpp", C+"vecarray.hpp"],
  [("capacity check, insert/erase shifting, vector fallback", C+"static_vector.hpp")])
p("C07", "Swapper-based sort yields the sorted permutation of its input",
  "Sorting any range through a caller-supplied swap callback leaves it ordered under the comparator and a permutation of the input, touches no position outside the range, and keeps any parallel data moved by the same callback in step.",
  ["inputs"], "all sequences (sizes across the insertion/heap/quick-sort thresholds, duplicates, sorted, reversed, adversarial) and comparators",
  "No test calls it directly; pivot and heap fallback paths need particular sizes and orders.",
  [C+"intrusive_sort.hpp"], [("introsort with swapper", C+"intrusive_sort.hpp")])
p("C08", "Type-erased sequence containers match std semantics through either interface",
  "The plugin-safe vector, list, deque and string give, for any history of operations, the same contents, results, sizes and iteration order as the standard container of the same kind. This holds whether an operation is called on the concrete type or through the abstract interface, and assigning, copying or comparing across the two gives equal contents.",
  ["histories", "inputs"], "all operation histories mixing concrete and abstract calls",
  NOT_BUILT + "iterator re-basing through the abstract interface is only wrong for particular positions.",
  [C+"vector.hpp", C+"list.hpp", C+"deque.hpp", C+"string.hpp", C+"container_iterator.hpp", C+"i_vector.hpp", C+"i_string.hpp"],
  [("do_insert/do_erase/do_begin type-erased overrides", C+"vector.hpp")])
p("C09", "Type-erased associative containers match std semantics",
  "The plugin-safe set, multiset, map, multimap, unordered map and unordered multimap give, for any history of insertions, assignments, lookups and erasures, the same contents, lookup results and (for ordered kinds) iteration order as the standard container of the same kind. This holds whether called on the concrete type or through the abstract interface.",
  ["histories", "inputs"], "all operation histories with colliding and duplicate keys, concrete and abstract calls",
  NOT_BUILT + "bounds and duplicate handling need particular key histories.",
  [C+"set.hpp", C+"map.hpp", C+"unordered_map.hpp", C+"mutable_set.hpp", C+"pair.hpp"],
  [("do_insert/do_find/do_erase overrides", C+"map.hpp")])
p("C10", "Value wrappers (optional, variant, any, pair) hold exactly what was stored",
  "For any history of stores, copies, moves, resets and swaps, through the concrete type or the abstract interface, the optional, variant, any and pair wrappers report precisely whether and which alternative they hold, return the stored value unchanged, and refuse wrong-type or empty access with their exception. Optional, variant and pair compare as the stored values do, and every held value is destroyed exactly once.",
  ["histories", "inputs"], "all histories of stores, transfers and accesses over alternatives",
  "No test exercises transfers between alternatives, empties or the abstract interface.",
  [C+"optional.hpp", C+"variant.hpp", C+"any.hpp", C+"pair.hpp"],
  [("assignment/emplace/reset paths", C+"variant.hpp"), ("small-buffer placement", C+"any.hpp")])
p("C11", "Quick string equals a std::string whether it owns or views its text",
  "For any text and any history of construction, assignment, append, erase, replace, substring, search and comparison, a quick string yields the same characters and results as a std::string, whether it currently owns its characters or merely views another string's. Modifying a string that views another never changes the other.",
  ["histories", "inputs"], "all texts, positions, lengths and operation histories, in both storage modes",
  "The JSON test only runs the parser over it; no search or edit member is checked.",
  [C+"quick_string.hpp"], [("view/owned duality", C+"quick_string.hpp")])
p("C12", "Pool allocators never hand out overlapping live blocks",
  "For any history of allocations and deallocations, memory handed out by the pool allocators is suitably aligned, does not overlap any other live block, keeps its contents until it is released, and may be reused only after release. The fixed reserve allocator refuses, rather than over-commits, requests beyond its capacity.",
  ["histories"], "all allocation/release histories of mixed sizes and orders",
  "No test exercises reuse orders or block boundaries.",
  [C+"allocator.hpp"], [("free-list pop/push, block carving", C+"allocator.hpp")])
p("C13", "Cookie jar maps live cookies to their items and nothing else",
  "For any history of additions, removals and reference acquisitions, each live cookie resolves to exactly the item it was issued for, a cookie that is not live is refused, no two live items share a cookie, and iteration visits each live item once. A counted cookie keeps its item until the last reference goes.",
  ["histories"], "all histories of add, remove, lookup and cookie reference copy/release",
  "No test builds here that includes the jar; swap-with-last removal and cookie reuse depend on history.",
  [C+"jar.hpp", C+"i_jar.hpp"], [("reverse index + swap-with-back removal, free cookie reuse", C+"jar.hpp")],
  [("iReverseIndices", "cookie to slot", C+"jar.hpp")])
p("L01", "Reference-counted objects die exactly when the last strong reference goes",
  "For any history of creating, copying, moving, casting, resetting, releasing, swapping and destroying strong and weak references, a counted object is destroyed exactly once, at the moment its last strong reference goes, and never earlier. Use counts equal the number of live strong references, and a weak reference reports expiry exactly when the object is gone and never resurrects it.",
  ["histories"], "all interleavings of strong and weak reference operations over several objects",
  "No test asserts counts; leaks and early deletes need particular aliasing (self-moves, both references to one object).",
  [C+"reference_counted.hpp", C+"i_reference_counted.hpp", "src/core/reference_counted.cpp"],
  [("add_ref/release, control block", C+"reference_counted.hpp")],
  [("iReferenceCount, iPinned", "strong count", C+"reference_counted.hpp")])
p("L02", "Lifetime flags report an object's death exactly once it has begun or ended",
  "For any history of creating, copying, moving and destroying lifetime flags and the object they watch, a flag reports not-yet while the object lives, reports destroying from the moment destruction is announced and destroyed once it has happened, and keeps reporting so afterwards. Flags outliving the object and objects outliving their flags are both safe.",
  ["histories"], "all histories of flags and watched objects, several flags per object",
  "Only the unbuilt Event test touches it, on one path.",
  [C+"lifetime.hpp", C+"i_lifetime.hpp", "src/core/lifetime.cpp"], [("flag registration with watched object", "src/core/lifetime.cpp")])
p("E01", "Synchronous events call every subscribed slot once, in order, until accepted",
  "Triggering an event synchronously calls each slot subscribed at that moment, and not removed before its turn, exactly once in subscription order (priority slots first), stopping after a slot accepts, and reports whether it was accepted. Slots added during a trigger wait for the next one, and slots, sinks or the event itself being removed or destroyed during the trigger neither call a removed slot nor corrupt memory. Clearing, reassigning or destroying a sink that holds a slot unsubscribes it, and once an event and the sinks are gone no callable is held any more.",
  ["histories", "programs"], "all histories of subscribe, unsubscribe, accept and nested trigger, including from inside slots",
  "The Event test is not built here and covers a straight-line script with no re-entrancy.",
  ["include/neolib/task/event.hpp", "include/neolib/task/i_event.hpp", "src/task/event.cpp"],
  [("work-list per trigger", "include/neolib/task/event.hpp")])
p("E02", "Asynchronous events are delivered exactly once, in order, on the right queue",
  "An asynchronous trigger runs no slot at the call, and later runs each then-subscribed slot exactly once when its target task pumps events, in trigger order. Events triggered from several threads lose and duplicate nothing, and a slot removed or an event destroyed before delivery is never called. Slots declared stateless, and the trigger types that do not queue, coalesce: pending calls of one slot become one call with the latest arguments.",
  ["schedules", "histories"], "all histories of asynchronous triggers, pumps, unsubscribes and destructions, from one or several threads",
  "The Event test is not built here; ordering and loss depend on interleavings and queue state.",
  ["include/neolib/task/event.hpp", "src/task/event.cpp", "include/neolib/task/i_event.hpp"],
  [("async_event_queue publish/pump", "src/task/event.cpp")])
p("E03", "Locks exclude, recurse and release exactly as often as they were taken",
  "The recursive mutex, spin-lock variant and switchable mutex admit one owning thread at a time, let the owner re-enter, and become available to others exactly when every acquisition has been released; a failed try-lock changes nothing. Taking several locks together holds all of them and releases all of them, in any order of contention, without deadlock.",
  ["schedules", "histories"], "all lock/try-lock/unlock histories over several threads and locks",
  "No test contends these locks.",
  [C+"mutex.hpp", C+"i_mutex.hpp", "src/core/mutex.cpp"], [("owner/count state machine", C+"mutex.hpp"), ("scoped_multi_lock", C+"mutex.hpp")])
p("E04", "Thread pool runs every accepted task exactly once and wait() waits for all",
  "Every task submitted to a running pool, from any thread and with any priority, runs exactly once, its result or exception reaches its future, and wait() returns only once everything submitted before it has finished. Applying a function in parallel over a container calls it exactly once per element and returns only when all calls are done, and tasks refused or cancelled before starting do not run.",
  ["schedules", "histories"], "all submission histories, priorities, pool sizes and container sizes",
  "The pool's test program is not part of the stable tests and checks no counts.",
  ["src/task/thread_pool.cpp", "include/neolib/task/thread_pool.hpp", "include/neolib/task/task.hpp", "src/task/thread.cpp"],
  [("next_task/steal_work/update_idle", "src/task/thread_pool.cpp")])
p("E05", "Timers fire once per arming, never early and never after cancellation",
  "Each arming of a timer leads to exactly one callback, not before its duration has elapsed, provided its task keeps running and it is not cancelled first. A timer that is cancelled, disabled, re-armed or destroyed (by itself, by another timer or with its context) does not deliver the cancelled expiry as a callback, and its waiting and enabled states reflect the calls made.",
  ["histories"], "all histories of arm, cancel, reset, re-duration, enable, disable and destroy, including from inside callbacks",
  "The Task test is not built here and only prints.",
  ["src/task/timer.cpp", "src/task/timer_object.cpp", "src/task/async_task.cpp"],
  [("timer state machine", "src/task/timer.cpp"), ("timer_service::poll", "src/task/async_task.cpp")])
p("E06", "Threads run their function once and waiting threads get every signal",
  "A thread object runs its function exactly once, on its own thread, after start(); waiting for it, alone or together with events or messages, returns only when the function has ended; abort() and cancel() end it without ending the process, and starting twice, waiting before start or waiting for oneself is refused. Each signal of a waitable event releases exactly one wait (a broadcast, all current waits), is kept until taken or reset, and a wait, timed or polled, succeeds only by taking a signal.",
  ["schedules", "histories"], "all histories of signals and waits of several threads, and all lifecycles of a thread object",
  "No test waits on an event from two threads or cancels a thread.",
  ["src/task/thread.cpp", "include/neolib/task/thread.hpp", "src/task/waitable_event.cpp", "include/neolib/task/waitable_event.hpp"],
  [("ready flag and signal type", "src/task/waitable_event.cpp"), ("thread state machine", "src/task/thread.cpp")])
p("E07", "Asynchronous tasks do the work handed to them, in order, until they are stopped",
  "One turn of a task pumps each registered event queue once in order of registration, runs the posted I/O handlers in order and the timers that are due, and says whether anything was done; idle work is done when asked. Work run in a turn may post, register, unregister, halt and poll. A halted task does nothing more in that turn. A task run by a thread works on that thread only; everything handed to it is done in order until it is cancelled, halted or its thread is destroyed. Cancelling from outside returns once the task is outside its work, from inside at once, and nothing runs afterwards; each end of destruction is announced once. A time slice is expired exactly when the current kind of work has used more than its share.",
  ["histories", "schedules"], "all programs of turns and of work run from inside them, and all ways and moments of stopping a task running on a thread",
  "No test runs a task on a thread of its own, registers event queues or stops a task from inside its work.",
  ["src/task/async_task.cpp", "include/neolib/task/async_task.hpp", "src/task/async_thread.cpp", "src/task/time_slice.cpp", "src/task/event.cpp"],
  [("turn: events, messages, I/O", "src/task/async_task.cpp"), ("cancellation hand-shake", "src/task/async_task.cpp"), ("per-kind time accounting", "src/task/time_slice.cpp")])
p("T01", "Unicode conversions preserve code points and tolerate malformed input",
  "Converting any sequence of Unicode scalar values between UTF-8, UTF-16 and UTF-32 and back yields the same sequence, with each intermediate form being the standard encoding. Malformed input of any kind is handled without reading or writing out of bounds, and the validity check accepts every well-formed text.",
  ["inputs"], "all scalar-value sequences and all malformed byte/unit sequences, split at any point",
  "StringUtils converts two or three short literals.",
  [C+"string_utf.hpp"], [("per-lead-byte decoding, surrogate pairing", C+"string_utf.hpp")])
p("T02", "Tokenising, replacing and trimming text obey their algebra for all inputs",
  "Splitting text on any delimiters returns exactly the maximal pieces between them (empty pieces only when requested, at most the requested number), in order and rejoining to the original. Replacement, trimming, case-insensitive comparison and case conversion agree with their plain definitions for every text, pattern and option, including empty ones.",
  ["inputs"], "all texts, delimiter sets, limits and options",
  "StringUtils checks a few fixed strings; edges (leading/trailing/adjacent delimiters, limits, overlaps) are unbounded.",
  [C+"string_utils.hpp", "src/core/string_utils.cpp", C+"string_ci.hpp"], [("tokens/remove_leading/replace_string", C+"string_utils.hpp")])
p("T03", "Wildcard and multi-pattern text search find exactly the matches that exist",
  "A wildcard match succeeds exactly when the text can be produced by expanding each * to any run and each ? to any single character of the pattern. The multi-pattern searcher reports, for any set of patterns and any text, a match exactly when one of the patterns occurs at the reported position.",
  ["inputs"], "all texts and patterns over small alphabets (where backtracking and overlaps bite)",
  "No test calls either with more than a literal.",
  [C+"string_utils.hpp"], [("wildcard_match", C+"string_utils.hpp"), ("string_search", C+"string_utils.hpp")])
p("T04", "Numbers survive the trip through text",
  "Every integer and every finite floating-point value converted to text and parsed back by the library's own conversions yields the value it started from (for floating point, to the written precision and within a few units in the last place). Text that does not denote a number is reported as such by the checked conversions.",
  ["inputs"], "all integers, doubles, radices/precisions and malformed texts",
  "StringUtils covers a few constants.",
  [C+"string_numeric.hpp", C+"string_utils.hpp"], [("string_to_*/…_to_string", C+"string_numeric.hpp")])
p("T05", "Formatting and escaping yield exactly the text they denote",
  "Formatting replaces each argument placeholder (numbered, automatically numbered in order, or nested as a width) with exactly that argument's text, leaves everything else (doubled opening braces included) as written, and the recorded argument spans and their lookups address exactly those texts. Escaping writes control and non-ASCII bytes as escapes, unescaping decodes each escape to the byte it denotes, and unescaping an escaped text returns the original wherever no backslash occurs and no hexadecimal digit follows an escaped byte. URL decoding replaces exactly the well-formed %XX escapes.",
  ["inputs"], "all templates, argument lists and byte strings",
  "StringUtils formats a few fixed templates.",
  [C+"string_utils.hpp"], [("format, to_escaped_string, parse_url_escapes", C+"string_utils.hpp")])
p("F01", "JSON documents read back as the values they denote",
  "Reading any well-formed JSON document yields a tree with exactly its structure: object members and array elements in document order, numbers and literals with their values, and strings and names with every escape decoded to the UTF-8 it denotes. Writing a document and reading the result back yields the same tree, and lookups by name, index and path find exactly the addressed values.",
  ["inputs"], "all JSON value trees and their textual spellings (whitespace, escapes, number forms, nesting)",
  "The NoFussJSON test parses two fixed files and asserts nothing.",
  ["include/neolib/file/json.hpp", "include/neolib/file/json.inl"],
  [("state tables and in-place escape decoding", "include/neolib/file/json.inl")])
p("F02", "JSON reader rejects malformed documents cleanly and stays reusable",
  "Given any byte sequence, reading either succeeds or reports failure with a location inside the document; it never reads or writes out of bounds, hangs, or leaves the reader unusable for the next document. The standard readers accept exactly the JSON grammar (plus leading zeros, lone surrogate escapes and, unless disabled, bare words), so truncated documents, unbalanced brackets, stray tokens and separators, bad escapes and invalid UTF-8 (when validation is on) are rejected; the relaxed and functional readers decide each document as a fresh reader would.",
  ["inputs", "histories"], "all byte strings, mutations of valid documents, and sequences of reads on one reader",
  "The NoFussJSON test feeds only valid files.",
  ["include/neolib/file/json.hpp", "include/neolib/file/json.inl"], [("error state, composite stack, utf check", "include/neolib/file/json.inl")])
p("F03", "XML documents keep their structure through write and read, and junk is rejected",
  "Building any element tree with names, attributes and text (markup characters included), writing it and reading it back yields the same elements, order, attributes and text. Reading arbitrary or mutated bytes either succeeds or reports an error, never accessing memory out of bounds, hanging or leaving the reader unusable.",
  ["inputs"], "all element trees, attribute and text contents; all byte strings",
  "No test touches XML.",
  ["include/neolib/file/xml.hpp", "include/neolib/file/xml.inl"], [("entity encode/decode, element tree", "include/neolib/file/xml.inl")])
p("F04", "ZIP archives list and extract exactly what was stored",
  "For any well-formed archive of stored and deflated files, whatever its optional fields, order and comments, the reader lists the names in the directory's order, finds each by name and extracts its contents byte for byte, to memory and to a file inside the target directory, never outside it. For corrupted, truncated or hostile archives it reports failure, never hands out damaged data as extracted and never accesses memory out of bounds.",
  ["inputs", "fault_sequences"], "all file sets and compression choices; all byte-level corruptions of an archive",
  "The File test does not read archives.",
  ["src/file/zip.cpp", "include/neolib/file/zip.hpp"], [("central directory walk, CRC check", "src/file/zip.cpp")])
p("F05", "Gzip decompression returns exactly the original bytes or reports failure",
  "Decompressing any well-formed gzip stream, with any combination of optional header fields and at any compression level, returns exactly the original bytes. A stream is accepted exactly when it is one complete gzip member whose header, data, checksum and size agree; corrupted, truncated or hostile streams report failure, yield no data and never cause an out-of-bounds access.",
  ["inputs", "fault_sequences"], "all payloads, header-field combinations and byte-level corruptions",
  "No test decompresses anything.",
  ["src/file/gunzip.cpp", "include/neolib/file/gunzip.hpp"], [("header parse, inflate, trailer check", "src/file/gunzip.cpp")])
p("I01", "URIs split into the components they were made of and reassemble",
  "Parsing a URI of the form scheme://authority/path?query#fragment (any of the parts empty or absent) yields the scheme, user information, host, port, path, query and fragment that RFC 3986 assigns to it, path, query and fragment percent-decoded. Writing a URI, parsed or put together from any path, query and fragment text, gives a text that parses to the same components and is written the same again. Percent-decoding an encoded component returns the original text wherever the escapes fall, and a percent sign that starts no escape is kept.",
  ["inputs"], "all combinations of present/absent/empty components and escape positions",
  "The Io test parses a couple of fixed URIs.",
  ["src/io/uri.cpp", "include/neolib/io/uri.hpp"], [("parse, escaped/unescaped", "src/io/uri.cpp")])
p("I02", "LEB128 encodes every integer to its minimal standard form",
  "Encoding any unsigned or signed integer yields bytes which decode, by the standard LEB128 rules, to the same integer, with no redundant trailing group and within the advertised maximum length.",
  ["inputs"], "all 64-bit unsigned and signed values and all 32-bit values",
  "No test covers it; errors sit at group and sign boundaries.",
  [C+"leb128.hpp"], [("encode loops", C+"leb128.hpp")])
p("I03", "Packet framing does not depend on how the stream is chopped",
  "Feeding a byte stream to line packets in any sequence of chunks yields the same packets as feeding it at once: each is a maximal run of characters other than CR and LF, in order, with nothing lost, merged or invented, and incomplete text stays pending. Binary packets carry back the exact bytes they were given. Over TCP connections queued packets are sent in queue order and arrive as the lines or bytes of that stream; nothing crosses from one connection to the next or arrives on a closed one.",
  ["inputs", "schedules"], "all byte streams and all ways of splitting them into reads",
  "The Io test sends no packets.",
  ["include/neolib/io/string_packet.hpp", "include/neolib/io/binary_packet.hpp"], [("take_some", "include/neolib/io/string_packet.hpp"), ("send queue and receive buffer", "include/neolib/io/packet_connection.hpp")])
p("I04", "Checksums, hashes and identifiers agree with their definitions",
  "CRC-32 and FNV-1a results equal the standard definitions for every input. A UUID converted to text and back is the same UUID, and UUID ordering and hashing are consistent with equality.",
  ["inputs"], "all byte strings; all UUID values",
  "No test checks values.",
  [C+"crc.hpp", "src/core/crc.cpp", C+"fast_hash.hpp", C+"uuid.hpp", "src/core/uuid.cpp"], [("crc table", "src/core/crc.cpp"), ("make_uuid/uuid_to_string", "src/core/uuid.cpp")])
p("N01", "Vector and matrix algebra matches the textbook definitions",
  "For all dimensions and values, vector and matrix arithmetic, products, transposes, rotations, affine transforms and interpolations equal their component-wise textbook definitions within rounding, including the SIMD-specialised sizes. Rotation matrices (about unit axes) are orthonormal to within the epsilon they are rounded to, interpolation hits both end points along the shortest arc, and swizzles read and write exactly the named components. Bounding boxes are the coordinate-wise extremes of their points, also when transformed, and containment and intersection mean what they do for the points of the boxes.",
  ["inputs"], "all component values, dimensions and both precisions",
  "The Numerical test checks a few constant vectors and angles.",
  [C+"numerical.hpp", C+"simd.hpp", C+"swizzle.hpp"], [("operator overloads and SIMD helpers", C+"numerical.hpp")])
p("N02", "Counters and random helpers stay in range and cover what they promise",
  "The Bresenham counter (of signed numbers) visits the range from first to last spreading the steps evenly, never leaving it; random draws always lie within their requested closed range; and a random traversal of N items visits each exactly once before finishing.",
  ["inputs", "histories"], "all ranges, step counts, seeds and item counts",
  "No test covers them.",
  [C+"bresenham_counter.hpp", C+"random.hpp"], [("error accumulation", C+"bresenham_counter.hpp"), ("random_traversal", C+"random.hpp")])
p("N03", "Easing curves follow their definitions, alone and put together",
  "Every easing, in either floating-point precision, gives at every time from 0 to 1 the value of its textbook curve: out and the two combined directions are made from the in curve, reversed runs it backwards and inverted turns it over. Easings put together in halves, quarters, over a range or with weights follow the curve so described. Every easing has a name of its own that converts to it and back.",
  ["inputs"], "all easings, times, arguments, weights and both precisions",
  "No test covers them.",
  [C+"easing.hpp"], [("ease, standard_ease, partitioned_ease", C+"easing.hpp")])
p("S01", "ECS component storage maps each entity to its own record",
  "For any history of populating, updating, destroying, sorting and snapshotting, a component store returns for each entity precisely the data last stored for it, reports exactly the entities that have records, keeps records dense, and finds an entity from its record. A snapshot keeps the data as it was when taken, apart from entities destroyed since, a record's handles are freed once, and a named shared record keeps its place while it is updated.",
  ["histories"], "all histories of populate, update, destroy, sort and snapshot",
  "No test exercises the ECS.",
  ["include/neolib/ecs/component.hpp"], [("swap-with-back removal, reverse indices, intrusive sort", "include/neolib/ecs/component.hpp")],
  [("iEntities/iReverseIndices", "dense and sparse index", "include/neolib/ecs/component.hpp")])
p("S02", "ECS entities and handles are unique while alive and cleaned up on destruction",
  "For any history, on one thread or several, of creating and destroying entities (immediately or deferred) and acquiring and releasing handles, live entities have distinct identifiers, destroying an entity removes its records from every component and announces it once, other entities are unaffected, and a handle returns what was stored under it.",
  ["histories", "schedules"], "all histories of create, populate, destroy, deferred create/destroy and handle operations",
  "No test exercises the ECS.",
  ["src/ecs/ecs.cpp", "include/neolib/ecs/ecs.hpp", "include/neolib/ecs/i_ecs.hpp"], [("free-list id reuse, destroy_entity", "src/ecs/ecs.cpp")])
p("A01", "Settings keep, apply, discard and persist exactly what was set",
  "For any history of setting, applying, discarding, clearing and re-defaulting values, each setting reports its effective and pending values and its modified and default states as a simple model does, with one change notification per effective change. Settings saved to a file and loaded by a new instance have the same values, whatever characters they contain, and a file cut short by a crash gives every setting its saved value or its default.",
  ["histories", "crash_points"], "all histories of edits, applies and reloads over value types and texts",
  "No test covers settings.",
  ["src/app/settings.cpp", "include/neolib/app/setting.hpp", "include/neolib/app/setting_value.hpp"], [("pending/applied value state machine", "include/neolib/app/setting.hpp"), ("XML store", "src/app/settings.cpp")])
p("A02", "Version numbers order lexicographically and survive parsing",
  "Versions compare by major, then minor, then maintenance, then build number, as a strict total order consistent with equality. Printing a version, directly or through its interface, and parsing the text back yields an equal version with the same name.",
  ["inputs"], "all version quadruples and names",
  "No test covers versions.",
  ["include/neolib/app/version.hpp", "include/neolib/app/i_version.hpp"], [("comparison operators, tokenised parsing", "include/neolib/app/version.hpp")])
p("A04", "Enumerators convert to their names and back",
  "Every enumerator converts to its declared name and that name converts back to it, directly, through streams and through the enumeration object and its interface; names that do not denote an enumerator are refused without changing the value. Values without a name are written as a hexadecimal number of the enumeration's width, or refused where a name is required, and enumeration objects compare as their values do.",
  ["inputs", "histories"], "all enumerations (of every underlying type, with aliases), values and texts",
  "No test covers them.",
  [C+"i_enum.hpp", C+"enum.hpp"], [("enumerator tables", C+"i_enum.hpp"), ("basic_enum", C+"enum.hpp")])
p("A03", "Logger writes every enabled message once, in order per thread",
  "Every message at or above the filter severity and in an enabled category, from any thread, reaches the log's output exactly once, complete and in the order that thread logged it; others never appear. This holds with or without a logging thread, for threads that end before their messages are committed, and across copies to other loggers; after waiting for, finalizing or destroying the logger all of it has been written.",
  ["schedules", "histories"], "all histories of messages, severities, categories and commits over several threads",
  "The Logger test is not built here.",
  ["include/neolib/app/logger.hpp", "include/neolib/app/ostream_logger.hpp", "include/neolib/app/i_logger.hpp"], [("per-thread double buffers, commit", "include/neolib/app/logger.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
