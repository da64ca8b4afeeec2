"""Per-property build description. src: harness files in props/; repo: sources of /repo compiled in;
libs: link flags; rule: how cases are made and what makes one non-trivial."""
CHECKS = {}
def check(id, src, rule, repo=(), libs=(), flags=(), cxx="g++-13", technique="model-based property testing (choice-sequence generator, shrinking)", note="", assumptions=(), jobs=8, asan=True):
    CHECKS[id] = dict(src=list(src), repo=list(repo), libs=list(libs), flags=list(flags), cxx=cxx, rule=rule,
                      technique=technique, note=note, assumptions=list(assumptions), jobs=jobs, asan=asan)


SEQ_RULE = ("A case is one generated history of up to 60 edits (push/pop at both ends, single, counted and range insertion, erase, resize, assign, "
            "copy, move, swap, aliasing arguments) on one container, compared after every edit with std::vector through size, forward, backward and "
            "reverse traversal, indexing and iterator jumps. It is non-trivial when it made at least 5 edits including one of more than 2 elements and one away from the end. "
            "Self-checking elements and ASan decide construction and destruction.")
check("C01", ["C01.cpp"], SEQ_RULE)
check("C02", ["C02.cpp"], "A case is one generated history of up to 60 tagged edits (push/pop at both ends, single, counted and range insertion under one of up to 3 tags, often at a tag boundary, erase, copy, swap), compared after every edit with a vector of (tag, value): values, tags, forward, backward and jump traversal. Non-trivial: at least 5 edits, one of more than 2 elements, one away from the end, and at least 3 tag changes.")
check("C03", ["C03.cpp"], SEQ_RULE)
check("C04", ["C04.cpp"], "A case is one generated history of up to 60 edits of a forest (push at both ends of the root or a node, insertion at any sibling position, subtree erasure, sort, skip/unskip, copy, assign, move), compared after every edit with a naive pointer forest: pre-order, sibling and skip traversal both ways, sizes, descendant counts, depths and parents of every node. Non-trivial: at least 8 edits, a node with children was erased and a node of depth 3 or more was created.")
check("C05", ["C05.cpp"], "A case is one generated history of up to 60 edits of an indexitor (single, counted and range insertion with widths 0 to 5, occasionally large, and skips, width updates, erasures, resize, copy, swap), compared after every edit with a plain list: element order, index, foreign index and skips of every entry, total length, and reverse lookup of every foreign index of small lists and sampled ones of larger lists. Non-trivial: at least 8 edits including a width update and an insertion away from the end.")
check("C06", ["C06.cpp"], SEQ_RULE + " Edits that would exceed a fixed or maximum capacity must throw and leave a valid container.")
check("C07", ["C07.cpp"], "A case is one range (random, few keys, nearly sorted, reversed, organ pipe, all equal, saw, or built by McIlroy's quicksort adversary, so that the depth limit and the heap sort are reached) of up to 2000 elements with guard elements on both sides, sorted under one of four comparators; order, permutation, parallel payload, positions touched and the O(n log n) bound are checked. Non-trivial: 8 elements or more, not already sorted.")
check("C08", ["C08.cpp"], "A case is one generated history of up to 40 edits on two containers of a kind (vector, list, deque, string, inline-capacity vector; elements int, char or the library's own string), each edit through the concrete type or the abstract interface, compared after every edit with a std::vector of values through forward, reverse and post-increment traversal, indexing, checked access, iterator arithmetic, data(), == and <=>. Non-trivial: at least 6 edits, one through the interface, one away from the end.", repo=["src/core/reference_counted.cpp"])
check("C09", ["C09.cpp"], "A case is one generated history of up to 40 edits on two containers of a kind (map, multimap, unordered map, multimap and flat map, set, multiset, keyed mutable sets; int and string keys and values drawn from a small range so that duplicates are common), each edit through the concrete type or the abstract interface, compared after every edit with a sorted vector of entries: contents, order, reverse order, find, bounds, equal ranges, ==, <. Non-trivial: at least 6 edits, one through the interface, an erasure and a duplicate key.", repo=["src/core/reference_counted.cpp"])
check("C10", ["C10.cpp"], "A case is one generated history of up to 30 stores, copies, moves, resets, swaps and interface assignments on three wrappers of a kind (optional, variant, plugin variant, any, pair; payloads int, double, the library's string and a self-checking object), compared after every step with tagged model values: which alternative, value, throwing on wrong or empty access, visitation, and all comparisons pairwise. Non-trivial: at least 5 steps, two stores and one step through the abstract interface.", repo=["src/core/reference_counted.cpp"])
check("C11", ["C11.cpp"], "A case is one generated history of up to 24 constructions, assignments and edits of three quick strings that own their text or view exactly-sized heap blocks, compared after every step with std::string through every query: traversal, all six searches in five overload forms at random positions, substrings, partial comparisons, concatenation, hashing and streaming; the viewed blocks must never change. Non-trivial: at least two edits, a view created and a view detached by an edit.", repo=["src/core/reference_counted.cpp"])
check("C12", ["C12.cpp"], "A case is one generated history of up to 150 allocations and releases (single and bulk, fixed reserves filled to refusal, omega pools recycled between rounds; ordinary, odd-sized, over-aligned and larger-than-chunk element types), each block checked for alignment and disjointness from every live block and filled with its own pattern, which must be intact until release; or a history of a list, map and vector built on a pool, compared with plain ones. Non-trivial: at least two releases, a block reused and four blocks live at once (20 allocations for omega pools, 10 edits for containers).")
check("C13", ["C13.cpp"], "A case is one generated history of up to 50 operations (up to 400 where 254 cookies can run out) on two jars of a kind (int, string, self-checking, throwing and shared items; 8, 16 and 32 bit and enumeration cookies; plain and lock-protected): insertion, emplacement, cookies reserved and used or returned later, removal by cookie, by item and by iterator, clearing, copy and move, writes through a cookie; after every operation every live cookie, every dead one seen so far and the iteration are compared with a map. Or one history of counted cookie references over two owners. Non-trivial: a removal away from the end, followed by reuse of a cookie (for references: an item dropped and two copies).", repo=["src/core/reference_counted.cpp"], flags=["-DNDEBUG"])
check("L01", ["L01.cpp"], "A case is one generated history of up to 45 steps over eight strong and weak references of two types (creation, copy, move, self-assignment, assignment through the interface, aliasing, up, down and const casts, chains of objects including head = move(head->next), swap, release and re-adoption, pin and unpin, locking a weak reference, uncounted views), compared after every step with a model that counts owners: which objects have died, use counts, pointers, expiry, refusals. Two smaller suites cover objects destroyed in place and counts kept by two to four threads. Non-trivial: an object died before the end, two were created, and an alias, view or weak reference was used (50 rounds for threads).", repo=["src/core/reference_counted.cpp"])
check("L02", ["L02.cpp"], "A case is one generated history of up to 40 steps over up to six flags of the four kinds and any number of watched objects (creation in either initial state, watching by class, interface or unrelated base, copying, moving and assigning flags, announcing and completing destruction, destroying, copying and assigning objects), compared after every step with the model state of each object, living or gone. Non-trivial: an object died, a flag outlived it and flags were copied.", repo=["src/core/reference_counted.cpp", "src/core/lifetime.cpp"])
check("E01", ["E01.cpp"], "A case is a program over three events and four sinks: up to 25 steps (subscribing with or without sink, first, last or replacing, triggering, clearing, copying and renewing sinks, removing slots, destroying and assigning events) plus five scripts of up to three actions that slots run when called (the same, and accepting, throwing, nested triggering to depth 4), under each locking strategy. neolib and a plain model interpret the same program; calls with arguments, results, has_slots, sinks and the set of live callables must agree after every step, and nothing may be held at the end. Non-trivial: at least three slot calls and more calls than top-level triggers.", repo=["src/core/reference_counted.cpp", "src/core/lifetime.cpp", "src/core/mutex.cpp", "src/core/service.cpp", "src/task/event.cpp"])
check("E02", ["E02.cpp"], "A case is a program over four events of the trigger types and four sinks (up to 25 steps plus five scripts of up to three actions that slots run when called: subscribe with and without sink, stateless and emitter slots, trigger, pump, nested pump, clear, remove, destroy, throw), interpreted by neolib and by a plain model of the queue with equal logs of calls, pump results, live callables and held arguments; non-trivial: two pumps delivered something and four calls were made. Or 1 to 3 producer and 1 to 3 consumer threads (with late and early unsubscribing, throwing slots and queues coming and going), where every slot must see each producer's triggers once, in order, on its own thread; non-trivial: three threads or more and four deliveries of one producer to one slot. ThreadSanitizer watches both.", repo=["src/core/reference_counted.cpp", "src/core/lifetime.cpp", "src/core/mutex.cpp", "src/core/service.cpp", "src/task/event.cpp"], asan="thread")
check("E03", ["E03.cpp"], "A case is a history of 4 to 40 lock, try-lock and unlock calls over up to three locks, made by up to three worker threads stepped one call at a time and compared with an owner/depth model (a waiting thread must get in after the last release and not before); or up to five threads each running a generated program of up to 45 lock, recursive lock, try-lock, unlock and multi-lock operations over data only the locks protect (kept deadlock-free by ordering single locks, multi-locks in any order); or up to eight threads hammering one lock. Locks are of every kind and switched mode, with and without profiling. Non-trivial: a recursive acquisition and a wait or refusal; two multi-locks and 20 operations; more than two threads. ThreadSanitizer watches all.", repo=["src/core/mutex.cpp", "src/core/service.cpp"], libs=["-lboost_thread"], asan="thread")
check("E04", ["E04.cpp"], "A case is a program of up to 26 steps for each of one to three submitting threads on a pool of one to six threads (functions with results and exceptions, tasks by pointer and reference, refusable starts, tasks that submit tasks, wait(), parallel_apply over vectors and lists), after which every accepted task must have run exactly once, futures must carry result or exception, and each wait() must have covered what its thread submitted; or a pool whose threads are all held at a gate while tasks are queued with priorities, cancelled, refused, waited for by up to three threads, or the pool is stopped. Non-trivial: at least 8 steps on more than one thread; at least four queued tasks, one cancelled. ThreadSanitizer watches both.", repo=["src/task/thread_pool.cpp", "src/task/thread.cpp", "src/task/waitable_event.cpp"], libs=["-lboost_chrono", "-lboost_thread"], asan="thread")
check("E05", ["E05.cpp"], "A case is a program over four timers and two contexts under a virtual clock: up to 35 steps (create, destroy, copy, assign, again, again_if, cancel, reset, enable, disable, change of duration, dropping a context, advancing the clock, polling by service or by the task with and without time slices) plus four scripts of up to three such calls (and throwing, nested polling) made from inside callbacks, interpreted by neolib and by a plain model whose logs of callbacks, times, refusals and states must agree; the task or the timers go first at the end. A suite lets up to nine timers come and go (waiting or not, fired or not, copied) forty times and compares the memory in use before and after. A smaller suite runs up to five repeating timers on an async_thread in real time. Non-trivial: at least three callbacks; two timers and four callbacks.", repo=["src/task/" + f for f in ("timer.cpp", "timer_object.cpp", "async_task.cpp", "async_thread.cpp", "time_slice.cpp", "event.cpp", "thread.cpp", "waitable_event.cpp")] + ["src/core/reference_counted.cpp", "src/core/lifetime.cpp", "src/core/mutex.cpp", "src/core/service.cpp", "src/app/module.cpp", "src/posix/app/posix_module.cpp"], libs=["-lboost_chrono", "-lboost_thread", "-lboost_filesystem", "-ldl"])
check("E06", ["E06.cpp"], "A case is a history of up to 40 signals, resets and waits on up to three events and lists of them on one thread, compared with a flag model; or up to 220 signals handed one at a time to one to three waiting threads that use different forms of wait, each to be taken exactly once; or two to five blocked threads released singly and by broadcast; or the life of one thread object (function returning, throwing, cancelling, blocking until aborted; waited for, waited for with events or messages, aborted at various moments, never started). Non-trivial: two signals consumed and one wait refused; 50 hand-offs with several or timed waiters; two threads released by one broadcast; a function present that was gated or did more than return. ThreadSanitizer watches all.", repo=["src/task/thread.cpp", "src/task/waitable_event.cpp"], libs=["-lboost_chrono", "-lboost_thread"], asan="thread")
check("E07", ["E07.cpp"], "A case is a program of up to 34 steps on one task (turns, bounded polls, posted handlers, event queues registered, filled, pumped and removed, idling, halting, dropping its I/O), with five scripts of up to three of the same actions that handlers and queue entries run, interpreted by neolib and by a plain model with equal logs of what ran, in which order, and what each call reported, and destruction announced once; or up to 43 steps on nested slices of time (entering and leaving three kinds of work, splitting, passing time on a virtual clock), with every share asked for after every step; or a task run by a thread, fed handlers and events by one to three threads and destroyed, cancelled or halted from outside, from a handler, a timer or an event, before or after all is done: everything runs on its thread, in its producer's order, nothing after the stop. Non-trivial: three runs and a handler; five questions with both answers; four runs. ThreadSanitizer watches.", repo=["src/task/" + f for f in ("timer.cpp", "timer_object.cpp", "async_task.cpp", "async_thread.cpp", "time_slice.cpp", "event.cpp", "thread.cpp", "waitable_event.cpp")] + ["src/core/reference_counted.cpp", "src/core/string_utils.cpp", "src/core/lifetime.cpp", "src/core/mutex.cpp", "src/core/service.cpp", "src/app/module.cpp", "src/posix/app/posix_module.cpp"], libs=["-lboost_chrono", "-lboost_thread", "-lboost_filesystem", "-lboost_locale", "-lssl", "-lcrypto", "-ldl"], asan="thread")
check("T01", ["T01.cpp"], "A case is a sequence of up to 30 scalar values (ASCII, two-, three- and four-byte ranges and their edges), or bytes assembled from well-formed characters, truncations, overlong and out-of-range forms, stray lead and trailing bytes, or UTF-16 units with pairs and lone surrogates; every conversion, overload, position callback and character map is compared with an independent encoder and decoder, the bytes lying in exactly sized blocks under ASan. Non-trivial: all three of ASCII, BMP and supplementary characters; well-formed and malformed parts; a pair and a lone surrogate.", repo=["src/core/reference_counted.cpp"], libs=["-lboost_locale"])
check("T02", ["T02.cpp"], "A case is a text of up to 24 characters over a small alphabet that shares characters with the delimiters, patterns or trimmed sets (empty ones included), split under every option and limit into several containers and character types, or replaced (with spans), trimmed, searched backwards, converted between cases or compared caselessly, and compared with definitions written over indices. Non-trivial: two pieces and a limit reached or an empty piece; two replacements; both ends trimmed; both cases and a non-ASCII letter; texts equal only without case.", repo=["src/core/reference_counted.cpp", "src/core/string_utils.cpp"], libs=["-lboost_locale"])
check("T03", ["T03.cpp"], "A case is a text of up to 14 characters over two letters (and sometimes the wildcard characters themselves) and a pattern, random or made from the text by replacing stretches with wildcards; or up to eight patterns (overlapping, prefixes of each other, replaced, with ? and up to two *) added in two stages and searched for with and without submatch removal. A dynamic-programming matcher decides: plain patterns must be reported exactly where they occur, starred ones exactly when they occur and only at places that match. Non-trivial: at least one star and four characters; two patterns and a report.", repo=["src/core/reference_counted.cpp", "src/core/string_utils.cpp"], libs=["-lboost_locale"])
check("T04", ["T04.cpp"], "A case is an integer of one of four types (biased to powers of two and their neighbours) written in base 10, 16 or 8 with generated width, fill and prefix; a double (random bits, decimals, subnormals, huge) with generated precision, notation and width; or a text that is a number in some spelling or is not. The text must be what positional notation or the C library gives, reading it must return the value (doubles within four units in the last place of the C library's reading), and the checked conversion must choose the narrowest type or refuse. Non-trivial: negative or above 1000; fractional or above 1e9; three characters, or a refused text that starts with a digit.", repo=["src/core/reference_counted.cpp", "src/core/string_utils.cpp"], libs=["-lboost_locale"])
check("T05", ["T05.cpp"], "A case is a template of literal text, doubled braces and numbered or automatic placeholders with generated format specifications and nested widths over five generated arguments; an arbitrary template of braces and digits in an exactly sized buffer; or a byte string to escape, unescape and URL-decode. Formatted text and the recorded argument spans and their lookups must be what std::vformat yields for each placeholder alone, escapes must match a character-by-character model, and escaping must round-trip where no escape can run into what follows it. Non-trivial: two placeholders; a template with a placeholder; two bytes.", repo=["src/core/reference_counted.cpp", "src/core/string_utils.cpp"], libs=["-lboost_locale"])
check("F01", ["F01.cpp"], "A case is a generated JSON value tree (depth to 5, every escape form, Unicode to U+10FFFF, integer and decimal number forms, duplicate and empty names, bare words where allowed) with one of its spellings, read through one of three readers from a seekable or a pipe-like stream; a relaxed document with comments, three kinds of quote, bare names and optional separators; or a tree built and changed through the mutable interface. Structure, order, values, names, lookups by name, index and path, iteration and visiting must be the tree's, and the written document must read back as the same tree. Non-trivial: three values; two children.", repo=["src/core/reference_counted.cpp", "src/core/string_utils.cpp"], libs=["-lboost_locale"])
check("F02", ["F02.cpp"], "A case is a sequence of one to four texts given to one reader: generated documents cut, spliced and edited, token soup, or raw bytes, with or without UTF-8 validation, from seekable or pipe-like streams. Acceptance, and the tree on acceptance, must be exactly those of a recursive-descent reference parser whatever the reader read before, and refusals must name a place in the text; the relaxed and functional readers must decide as a fresh reader does and never accept unbalanced brackets; every prefix of a document is tried; nesting to 60000. Non-trivial: a refusal within a sequence; five refused prefixes.", repo=["src/core/reference_counted.cpp", "src/core/string_utils.cpp"], libs=["-lboost_locale"])
check("F03", ["F03.cpp"], "A case is an element tree (up to 24 nodes, depth 7: names, attributes and text full of markup characters, entities, white space and UTF-8, comments, CDATA, declarations) built through the API, written (stripping or not, any indent) and read back, twice; or rendered by an independent writer with any quoting, spacing and character references, read, and read again cut at three places; or a history of up to 33 edits of one element against a plain list with every lookup and filtered iteration; or a document with up to five edits of its bytes, read by a used and a fresh reader with equal results under AddressSanitizer; or elements nested up to 100000 deep. Non-trivial: five nodes and markup characters in text; more than ten edits with a hit and an erasure; a damaged document of six bytes or more.")
check("F04", ["F04.cpp"], "A case is an archive of up to six files (stored or deflated at any level, with data descriptors, extra fields, comments, gaps, any order, equal and empty names and contents) from an independent writer, opened from a path, a copied, moved or borrowed buffer and compared name by name and byte by byte with what was stored; or extracted to a scratch directory with names that stay in it, leave it or need absent directories; or an archive truncated, with a byte of data, a header field, random bytes or pieces changed, read from an exactly sized block under AddressSanitizer: damaged data is never extracted and errors are reported. Non-trivial: stored and deflated files extracted; a name that stays and one that leaves; a damaged archive that still opens.", repo=["src/file/zip.cpp", "src/core/crc.cpp"], libs=["-lz"])
check("F05", ["F05.cpp"], "A case is a gzip stream of up to 120000 bytes of data with any combination of header fields, made with any level, strategy, memory level and flushing, that must uncompress to its data; or such a stream cut, with bits, trailer or header fields changed, bytes inserted, removed or appended, or noise, that must be accepted exactly when zlib's own gzip reader accepts all of it as one member, with equal data; or every prefix of a short stream. Non-trivial: 20 bytes of data and an optional field; a changed stream of 18 bytes or more; data present.", repo=["src/file/gunzip.cpp"], libs=["-lz"])
check("I01", ["I01.cpp"], "A case is a URI of generated components (escapes of every byte in either case, IPv6 hosts, empty and absent parts, separators inside later components, characters that must be escaped) whose seven parts must be those it was made of; or a soup of up to 16 delimiters and escapes split as RFC 3986 appendix B does; each written and read back to the same parts and the same text; or a text with whole, cut and wrong escapes, escaped and unescaped as a character-by-character model does and set as path, query or fragment. Non-trivial: user information, port and a query or fragment; five characters with user information or query; a percent sign among four characters.", repo=["src/io/uri.cpp", "src/core/reference_counted.cpp", "src/core/string_utils.cpp"], libs=["-lboost_locale"])
check("I02", ["I02.cpp"], "A case is one to six integers (small, within three of a power of two, of any number of bits, just below zero) encoded as unsigned, signed or 32-bit LEB128; each must have the least number of bytes, decode by the standard rules to the integer, and be delimited when run together; or the 401 integers around one power of two in all three forms. Non-trivial: an integer of more than one group; every boundary case.")
check("I03", ["I03.cpp"], "A case is a stream of up to 24 pieces of text and line ends (CR, LF, CRLF, runs) cut into reads of any size from exactly sized blocks, whose packets and pending text must be the maximal runs without line ends, for narrow and wide characters; a history of takes, copies, clones and clears of a binary packet; or up to three successive connections of one client to a server on this machine, over which up to 14 packets of up to 9000 bytes are queued (before opening and with priority too), sent both ways and closed by either side or from inside an arrival: everything is announced as sent in queue order, arrives as the lines or bytes of the stream, and nothing crosses from one connection to the next. Non-trivial: two packets in three reads; 8 bytes; two connections and 20 bytes.", repo=["src/task/" + f for f in ("timer.cpp", "timer_object.cpp", "async_task.cpp", "async_thread.cpp", "time_slice.cpp", "event.cpp", "thread.cpp", "waitable_event.cpp")] + ["src/core/reference_counted.cpp", "src/core/string_utils.cpp", "src/core/lifetime.cpp", "src/core/mutex.cpp", "src/core/service.cpp", "src/app/module.cpp", "src/posix/app/posix_module.cpp"], libs=["-lboost_chrono", "-lboost_thread", "-lboost_filesystem", "-lboost_locale", "-lssl", "-lcrypto", "-ldl"])
check("I04", ["I04.cpp"], "A case is a byte string of up to 3200 bytes whose CRC-32 and FNV-1a hashes (32 and 64 bits) must be those a bitwise definition gives; or two UUIDs (random, mostly zeros or ones, equal, differing in one bit) written, read, streamed, compared and hashed against their sixteen bytes; or up to 220 generated UUIDs, all distinct, of the random kind, every free bit varying. Non-trivial: nine bytes; two different UUIDs; 100 generated.", repo=["src/core/crc.cpp", "src/core/uuid.cpp", "src/io/openssl.cpp"], libs=["-lz", "-lssl", "-lcrypto"])
check("N01", ["N01.cpp"], "A case is: two vectors of one to four doubles, floats or ints (row or column) put through every vector operation and checked component by component; up to six reads and writes of generated swizzles against an index model; matrices of up to 4 by 4 (general, diagonal, identity, almost identity, with negative zeros) through every operation against sums in long double; rotations by axis and angle (including none, half and whole turns, and just off them), between vectors (including parallel and opposite), and about three axes against reference rotations; an affine interpolation of generated ranges at a generated point, uniform or per axis, against reference slerp; boxes of up to seven points against coordinate-wise minima and maxima, their containment, intersection, union, volume and transformation; Bezier curves, quads and near equality. Rounding is allowed in units of the last place of the sum of magnitudes, or the epsilon a rotation rounds to. Non-trivial: different vectors without zeros; an assignment that changes something; unequal or non-identity matrices; an unambiguous rotation; a box that does not contain the other.", repo=["src/core/string_utils.cpp", "src/core/reference_counted.cpp"], libs=["-lboost_locale"])
check("N02", ["N02.cpp"], "A case is a counter of up to 400 values between generated ends (rising, falling, level, short, int or long, all ways of setting it up) whose every value must be the exact fraction rounded, with equal steps to within one; or up to seven ranges of one of seven integer and floating types (single values, the type's limits, below zero) from which seeded and unseeded generators draw; or a traversal of up to 3001 items (around every prime of that size) restarted, copied and tallied; the table's numbers are tested for primality, and traversals of 44 million items run once; or a seed of the vectorised generator, whose draws on a fresh thread must be those of its four linear congruential sequences. Non-trivial: steps that are not all equal; 20 different draws; ten items; nine draws.")
check("N03", ["N03.cpp"], "A case is one of the 200 easings at a time (the ends, the middle, beside them, or anywhere) in float or double, reversed or inverted or not, with default or generated arguments, compared with the textbook formula and its mirror images; or up to six of them put together, in halves, quarters, by class, over a range or weighted, compared with the curve their definitions describe; or all of the names. Non-trivial: a time between the ends, and two pieces.", repo=["src/core/reference_counted.cpp", "src/core/string_utils.cpp"], libs=["-lboost_locale"])
check("A02", ["A02.cpp"], "A case is three versions of generated numbers (equal up to a generated place) and names compared in all pairs as tuples; or one written, also through its interface and with fewer numbers, and read back with every part. Non-trivial: three different versions; a name and a maintenance or build number.", repo=["src/core/reference_counted.cpp", "src/core/string_utils.cpp"], libs=["-lboost_locale"])
check("A03", ["A03.cpp"], "A case is a history of up to 31 messages and changes (filter, categories, formatters, copying along a chain of three loggers, line numbers, commits), with or without logging threads, whose output, announcements and states must be a model's exactly; or one to four threads each logging up to 29 messages of its own in pieces, with commits and waits at generated places, threads ending before and after the commit, to a logger and a copy with filters and categories of their own: each enabled message must be written once, whole and in its thread's order, and nothing else, after waiting, finalizing and destruction. Non-trivial: five messages and output; two threads and 10 enabled messages. ThreadSanitizer watches.", repo=["src/core/reference_counted.cpp", "src/core/lifetime.cpp", "src/core/mutex.cpp", "src/core/service.cpp", "src/task/event.cpp"], libs=["-lboost_thread"], asan="thread")
check("A04", ["A04.cpp"], "A case is a history of up to ten steps on one of ten enumerations (every underlying type, the limits of each, two names for a value, a name of another spelling, none at all): a value, named or not, converted to its name and hexadecimal form, written and read back; a text, a name or almost one, converted, read and refused; and two enumeration objects set by value, by name and through their data, assigned, copied, cloned and compared, against the table of names. Non-trivial: a named value and an unnamed one or a refused name.", repo=["src/core/reference_counted.cpp"])
check("A01", ["A01.cpp"], "A case is one to seven settings of thirteen types (Booleans, integers of every width, fractions of any bits, enumerations, texts over all bytes) under keys some of which are parts of others, optional or not and enabled or not, and up to 30 edits, clears, changes of default, enablings, applies, discards, saves, deletions, registrations and restarts from the file with the settings registered in another order and perhaps other defaults; or a saved file cut at a generated byte. After every step each setting must have the value, pending value, default and states of a model, its text must read back as the same value, and the number of notifications from it and its manager must agree; a file cut short may lose values to defaults but not invent any. Non-trivial: a restart after a save with a value that is not default; a file cut inside with two settings.", repo=["src/app/settings.cpp", "src/core/string_utils.cpp"] + ["src/task/event.cpp", "src/core/reference_counted.cpp", "src/core/lifetime.cpp", "src/core/mutex.cpp", "src/core/service.cpp"], libs=["-lboost_locale"])
ECS = ["src/ecs/" + f for f in ("ecs.cpp", "entity.cpp", "entity_archetype.cpp", "system.cpp", "time.cpp")] + ["src/app/power.cpp", "src/core/uuid.cpp", "src/io/openssl.cpp", "src/task/thread_pool.cpp"] + ["src/task/" + f for f in ("timer.cpp", "timer_object.cpp", "async_task.cpp", "async_thread.cpp", "time_slice.cpp", "event.cpp", "thread.cpp", "waitable_event.cpp")] + ["src/core/reference_counted.cpp", "src/core/string_utils.cpp", "src/core/lifetime.cpp", "src/core/mutex.cpp", "src/core/service.cpp", "src/app/module.cpp", "src/posix/app/posix_module.cpp"]
ECS_LIBS = ["-lboost_chrono", "-lboost_thread", "-lboost_filesystem", "-lboost_locale", "-lssl", "-lcrypto", "-ldl"]
check("S01", ["S01.cpp"], "A case is a history of up to 50 operations on one component store (populating by copy, move, raw data and from its own records, destroying, sorting either way, taking, holding and leaving snapshots, changing records, applying, copying, refused and throwing data), plain or optional records under each locking strategy, compared after every step with a map: entities, records, indices in both directions and the snapshot; or up to 30 records that own handles, each to be freed once; or up to 40 named shared records that must keep their place; or two to four threads working on their own entities of one store. Non-trivial: two deletions, a snapshot and a sort; two releases and a snapshot; an update and five records.", repo=ECS, libs=ECS_LIBS)
check("S02", ["S02.cpp"], "A case is a history of up to 45 operations on one ECS under a generated locking strategy (creating entities directly, with data, with owners or later; destroying them directly, quietly, later or through their owners; populating; life spans and the world clock; handles added, released, updated; committing deferred work directly or through the polled timer; pausing) compared after every step with a model of which entities live, which records they have and which announcements were made; or a description of components, systems and archetypes by name; or two to four threads that create, destroy, populate, lock several components in opposite orders, defer, commit and hold handles over one ECS whose components may not exist yet, after which the sum of what they did must be there. ThreadSanitizer watches all and a case that stops is a failure. Non-trivial: two entities gone and an identifier used again; over five entities left and two destroyed by threads.", repo=ECS, libs=ECS_LIBS, asan="thread")
