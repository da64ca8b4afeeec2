# Per property: (oracle, limits and what is deliberately not claimed)
NOTES = {
"C01": ("std::vector given the same calls; self-checking elements count constructions and destructions", "Segment sizes 1 to 64; up to 40 operations."),
"C02": ("std::vector of (value, tag) pairs; tag segments walked independently", "Copying and clearing included; tags of two kinds."),
"C03": ("std::vector given the same calls; gap sizes 1 to 256; self-checking elements", "Contiguous data access closes the gap; iterators held across edits are only used where the container promises them."),
"C04": ("a naive pointer tree; every traversal kind recomputed from it", "Forests of up to some 40 nodes. Iterators to erased nodes are never used."),
"C05": ("a list of (value, width) scanned linearly", "Widths are exact in the foreign type, so sums need no tolerance."),
"C06": ("std::vector with a capacity; the overflow exception must come exactly when the model would exceed it and leave the old contents", "Moved-from containers are only assigned or destroyed."),
"C07": ("std::is_permutation and order, plus a mirror array moved by the same callback and guard cells outside the range", "Comparators are strict weak orders. The adversary (McIlroy's) makes quicksort reach its depth limit."),
"C08": ("the std container of the same kind, each call made at random on the concrete object or through its interface", "The equality of unordered containers through the interface compares in order and is not claimed."),
"C09": ("the std container; unordered iteration is compared as a multiset", "Copy assignment of boost 1.83's unordered_flat_map is avoided (a quirk of boost, not of neolib); interface-level == of unordered kinds is not claimed."),
"C10": ("std::optional / std::variant / std::any / std::pair", "Equality of any is identity in neolib and is not claimed."),
"C11": ("std::string, with a second string viewed by the first and checked to stay as it was", "Assigning a view that does not count its referent is excluded (its lifetime is the caller's)."),
"C12": ("an interval map of live blocks; every block is filled with a pattern checked at release", "Sizes and alignments up to 64; zero-sized requests only where the allocator documents them."),
"C13": ("a map from cookie to item", "Compiled with NDEBUG, so that refusals are the exceptions a release build gives."),
"L01": ("a list of live references per object; the destructor logs", "Thread suite: objects shared by up to four threads, counts checked when they have joined. Assigning a non-counting view over a counted reference is a documented trap and is not generated."),
"L02": ("a three-state model per object", "-"),
"E01": ("an interpreter over a list of slots with the reentrancy rules written out", "Copying an event onto itself is excluded. Slots may throw, add, remove, trigger, accept and destroy from inside."),
"E02": ("per-queue lists of pending calls, coalescing as declared", "The lifetime of reference arguments while a call is queued is the caller's. Threads: sequence numbers per thread must arrive once and in order."),
"E03": ("an ownership table under ThreadSanitizer; a plain counter and a plain variable guarded by the lock would be raced", "Schedules are generated by handing a baton between threads and by free running with generated delays. The memory order of the clearing store cannot be told from a stronger one on x86 (equivalent mutant)."),
"E04": ("an execution count per task, per-future outcomes, and a gated pool whose whole order is known", "Idle-thread counting and stealing heuristics only change performance."),
"E05": ("an event calendar over a virtual clock (the harness supplies the clock neolib asks), with the logs of both sides compared", "Real time only in the suite 'thread' (a lower bound on firing, generous upper bound)."),
"E06": ("a flag model on one thread; across threads each signal carries a token that must be taken once", "ThreadSanitizer. A thread's uncaught exception ends the process by design; a self-cancelling thread counts as finished while unwinding. A broadcast is sent once the waiters are seen asleep in /proc."),
"E07": ("a second implementation of the turn, run on the same program and compared by its log; a virtual clock for time slices; per-producer order and thread identity for tasks on threads", "ThreadSanitizer. No polling from inside an I/O handler (asio defers); message queues exist on Windows only, so their turn is empty here. Posting to a task's I/O context while another thread cancels it from outside is a user error and not generated."),
"T01": ("an independent encoder/decoder for UTF-8/16/32", "How many replacement characters malformed input becomes is not claimed."),
"T02": ("definitions written over indices", "Up to 24 characters over small alphabets, so that overlaps bite; case conversion of non-ASCII letters via the C library's tables."),
"T03": ("dynamic programming over text and pattern", "Texts to 14 characters, patterns to 8, up to eight patterns."),
"T04": ("positional notation, strtod/printf", "Two known findings (below): leading zeros count as digits; exponents beyond int are dropped. Decimals of up to 19 digits; 4 ulp."),
"T05": ("std::vformat one placeholder at a time; a character-by-character escape model", "Round trip claimed only where no backslash occurs and no hex digit follows an escaped byte (the format is ambiguous otherwise)."),
"F01": ("the generated tree itself", "Bare words exclude '@', '$', '_' letters; the generic pop_back is not mixed with cached arrays; decimals as in T04."),
"F02": ("a recursive-descent reference parser for the standard readers; a fresh reader for the relaxed ones", "Leading zeros and lone surrogate escapes are tolerated by design; nesting to 60000."),
"F03": ("the generated tree, an independent renderer, and for junk a fresh reader plus ASan", "Whitespace-only text is dropped by the reader, adjacent texts merge; '>' in attribute values and whitespace in end tags are not generated."),
"F04": ("an independent archive writer over zlib", "Zip64, encryption, other methods, prefixed data and copying an archive object are not claimed; an error is sticky. Extraction stays inside a scratch directory and names that leave it must be refused; the parent of the scratch directory is a scratch directory too."),
"F05": ("zlib's own gzip reader (inflateInit2 with 31)", "One member only."),
"I01": ("RFC 3986 appendix B and a component model", "Two '@' or a port that is no number are not judged; '?' with an empty query cannot be represented; the authority is kept undecoded."),
"I02": ("the definition of LEB128, byte by byte", "All widths to 64 bits; every power of two and its neighbourhood exhaustively."),
"I03": ("the concatenation of what was sent, cut independently", "Loopback sockets on a port the kernel picks. Reopening from inside an arrival handler and empty packets are not claimed."),
"I04": ("bitwise definitions, zlib's crc32", "-"),
"N01": ("long double sums and textbook formulas, with tolerances derived from the operation counts", "Rotations about unit axes; half turns may go either way round; finite values of moderate size; scaling only of matrices with a diagonal linear part; the volume of a flat box counts z as 1 by design."),
"N02": ("exact rational arithmetic for counters; ranges and tallies for draws", "Statistical quality is not claimed. 'Same seed, same numbers' is claimed for a fresh thread."),
"N03": ("textbook formulas in long double, and the mirror relations between the variants of a family", "Arguments from 0 to 1."),
"S01": ("a map from entity to record", "An exception thrown while an existing record is assigned may leave it partly assigned; only the absence of new records is claimed."),
"S02": ("a set of live entities with records and announcements", "The order of deferred creations against destructions is not claimed; destroying twice at once is the caller's error."),
"A01": ("a map of settings, and the file after a restart", "Settings that are not registered again after a restart are dropped on the next save; changing a setting's type between runs and files damaged other than by cutting are not claimed."),
"A02": ("std::tuple", "-"),
"A04": ("a table of names", "The name of an object that holds a value without a name is not asked for. Names with white space are not read from streams."),
"A03": ("a list of lines per thread", "The message under construction is shared per thread across loggers, and severity and category stick, by design."),
}
