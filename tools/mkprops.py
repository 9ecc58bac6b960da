#!/usr/bin/env python3
"""Writes properties.jsonl (the table below is its source)"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "MBN number encoding is canonical, minimal and reversible",
  "Every signed and unsigned 64-bit value is encoded as the shortest sequence of 7-bit groups described in the public header, the size function returns exactly that length, and nothing outside of those bytes is written. A value padded to any size between its natural length and 10 bytes is the same sequence preceded by groups filled with sign bits. Decoding the encoded bytes (minimal or padded, alone or followed by other data, one number after another) returns the original values and consumes exactly the encoded bytes.",
  ["inputs"], "all 2^64 values, signed and unsigned, all padded sizes up to 10, any sequence of numbers",
  "Tests encode a table of about 20 values; the sign bit corner cases depend on the exact number of significant bits of the value and the padded size.",
  ["src/gutil_datapack.c", "include/gutil_datapack.h"],
  [("size calculation and group extraction", "gutil_{signed,unsigned}_mbn_{size,encode,encode2}"), ("sign extension of padding", "gutil_signed_mbn_encode2")],
  observe=["bytes written to the buffer", "return values"])
p("C02", "MBN decoders accept exactly the well-formed input",
  "A number is decoded if and only if the input starts with a complete sequence of at most 10 groups whose value fits into 64 bits with all unused bits equal to the sign (zero if unsigned), and the decoded value and the number of consumed bytes are those of that sequence. Anything else is rejected and leaves the position in the input where it was. No byte past the end of the input is ever read, the output pointer may be NULL, and the whole-buffer variant additionally requires that nothing follows the number.",
  ["inputs"], "all byte strings",
  "Tests try about 30 hand-written byte strings; truncation, over-long runs and the meaning of unused bits in 10-byte numbers depend on combinations of bits.",
  ["src/gutil_datapack.c"],
  [("continuation flag, limit of the number of bits and check of the unused bits", "gutil_{signed,unsigned}_mbn_decode"), ("end of data check", "gutil_{signed,unsigned}_mbn_decode2")],
  observe=["return value, decoded value, range position", "AddressSanitizer"])
p("C03", "TLV packing is reversible and malformed TLV data is rejected",
  "Encoding an item writes exactly its declared size and reading items back returns the same tags and values, pointing inside of the input. Single item decoding succeeds exactly for a tag from 1 to INT_MAX followed by a length which fits into the remaining input (otherwise zero is returned and the position doesn't move). Decoding of a whole message returns the mask of the found tags (at most the first 31 requested ones count) with all missing values cleared, or the error code for the first duplicate or unknown tag (unknown ones may be skipped by request) or for malformed leftovers; no input leads to access outside of the buffers.",
  ["inputs"], "all byte strings, all lists of tags, both flag values, NULL or non-NULL outputs",
  "Tests decode about 10 small messages; lengths near 2^64, more than 31 tags and combinations of duplicates, unknown tags and trailing garbage are not sampled.",
  ["src/gutil_datapack.c"],
  [("bounds checks", "gutil_tlv_decode"), ("mask, duplicate and unknown tag handling", "gutil_tlvs_decode"), ("encoder", "gutil_tlv_encode, gutil_tlv_size")],
  observe=["return codes, values, range position", "AddressSanitizer"])
p("C04", "Ring buffer behaves as a double-ended queue",
  "After any sequence of operations the ring buffer contains exactly the elements put and not yet removed, in order: put appends at the end, the put_front variant prepends, get and get_last remove from the corresponding end, drops remove up to the requested number of elements from the corresponding end and report how many, and indexed access, size and the flattened array (which is valid until the next operation and doesn't change the contents) show that order. Reserving space, compacting, flattening and changing the limits or the free function never change, lose, duplicate or reorder elements.",
  ["histories"], "all sequences of ring operations, any initial allocation and limit, any number of elements",
  "The contents wrap around at positions which depend on the whole history; tests use a few short sequences and never mix front and back operations with reallocation of a wrapped buffer.",
  ["src/gutil_ring.c", "include/gutil_ring.h"],
  [("start/end indices modulo allocation", "gutil_ring_put, gutil_ring_put_front, gutil_ring_get, gutil_ring_get_last"), ("unwrapping", "gutil_ring_flatten, gutil_ring_reserve, gutil_ring_compact")],
  state=[("start/end/alloc/size", "position of the data in the circular storage", "struct gutil_ring")],
  observe=["return values of the API", "gutil_ring_data_at, gutil_ring_flatten"])
p("C05", "Ring buffer size limit and element ownership",
  "A ring with a size limit refuses an element when it already has that many (whatever was reserved or happened before), can_put tells exactly whether that many more elements fit, lowering the limit below the current size drops the excess, and reserving more than the limit is refused. The free function current at that time is called exactly once for each element which is removed by clear, drop, lowering the limit or the last unref (front to back, in no particular order when dropping from the back), and never for elements which are returned to the caller or refused. NULL ring is tolerated as an empty one which accepts nothing.",
  ["histories"], "all sequences of ring operations with any limits (including none and zero), free functions installed and replaced at any point",
  "Limits interact with the allocated size and wraparound; tests check one limit per test and count free calls in two sequences.",
  ["src/gutil_ring.c", "include/gutil_ring.h"],
  [("limit", "gutil_ring_can_put, gutil_ring_reserve, gutil_ring_set_max_size, gutil_ring_put"), ("free function calls", "gutil_ring_drop, gutil_ring_drop_last, gutil_ring_clear, gutil_ring_unref")],
  observe=["return values, free function calls"])
p("C06", "History keeps the right window of samples",
  "History holds only samples submitted within the last max_interval microseconds relative to the current time and never more than max_size of them (the oldest go first), a value submitted at the time of the latest one (or if the clock went back) replaces it, and adding returns the resulting median. Reported size is the number of the samples in that window, the reported interval is the time elapsed since the oldest of them (zero if there are none), and clearing leaves none.",
  ["histories"], "all sequences of additions, queries and clock steps, any size and interval limits, any int values",
  "Expiry happens inside of any call depending on the clock; tests run a handful of fixed sequences with sizes up to 5.",
  ["src/gutil_history.c", "include/gutil_history.h"],
  [("expiration and eviction", "gutil_int_history_flush, gutil_int_history_add"), ("replacement of the last sample", "gutil_int_history_add")],
  state=[("first/last/entries", "circular array of samples", "struct gutil_int_history")],
  observe=["gutil_int_history_size, _interval, _median with an injected clock"])
p("C07", "History median is the time-weighted average of the window",
  "For two or more samples the median is the area under the piecewise linear graph of the samples divided by the time between the first and the last one (to the precision of integer arithmetic: within 1.5 of the exact value, and always between the smallest and the largest sample), for one sample it's that sample and for none it's the provided default.",
  ["inputs", "histories"], "all windows of samples with any int values, as long as twice the area under the graph fits into 63 bits",
  "Tests check four windows with small positive values; overflow, negative values and rounding need large or mixed-sign samples.",
  ["src/gutil_history.c"],
  [("trapezoid sums", "gutil_int_history_median, gutil_int_history_calculate_median")],
  observe=["return values of gutil_int_history_median and gutil_int_history_add"])
p("C08", "Idle queue runs each queued callback exactly once, in order",
  "Every callback which has been queued and not cancelled is invoked by the main loop exactly once, in the order of submission and never from within the queueing call (and not earlier than in the next iteration of the main loop if it was queued by another callback of the same queue); a cancelled one (by tag or altogether, or because the queue has been freed) is never invoked, and in either case its data destructor is called exactly once, after the callback if that was called. Cancelling by tag removes exactly the oldest pending callback with that tag and tells if there was one, and the contains query is true exactly when such callback is pending. Callbacks and destructors may add, cancel, free or unref the queue or query it, and callbacks may run nested main loop iterations, without upsetting any of that.",
  ["histories", "schedules"], "all sequences of operations made outside and inside of callbacks, interleaved with main loop iterations",
  "Tests queue two or three callbacks; re-entrant modifications at different points of the run loop multiply the number of histories.",
  ["src/gutil_idlequeue.c", "include/gutil_idlequeue.h"],
  [("FIFO of items, idle source", "gutil_idle_queue_add_tag_full, gutil_idle_queue_run"), ("cancellation", "gutil_idle_queue_cancel_tag, gutil_idle_queue_cancel_all, gutil_idle_queue_free")],
  state=[("first/last/source_id", "pending items", "struct gutil_idle_queue")],
  observe=["order of callback and destructor invocations"])
p("C09", "Idle pool releases each pooled item exactly once when drained",
  "Each item added to the pool stays alive until the pool is drained explicitly, by an idle callback of the main loop, or because the pool is destroyed or loses its last reference, and at that point its destructor is called exactly once (so that for reference counted items exactly one reference, the caller's or the extra one, is dropped). Adding returns the added item, NULL items and items added to the NULL pool follow the same rule of not being leaked or destroyed twice. Destructors may add more items, drain or unref the pool and query it; items added from a destructor are released too.",
  ["histories", "schedules"], "all sequences of pool operations, including those made from item destructors, interleaved with main loop iterations",
  "Tests add one item of each kind; draining re-entered from a destructor, destroyed pools and shared pool pointers combine into many histories.",
  ["src/gutil_idlepool.c", "include/gutil_idlepool.h"],
  [("drain", "gutil_idle_pool_drain"), ("idle source", "gutil_idle_pool_add"), ("shared pool", "gutil_idle_pool_get, gutil_idle_pool_destroy")],
  observe=["destructor calls, reference counts"])
p("C10", "Shared and default idle pools are single per pointer and per thread",
  "The shared pool getter returns the same pool for the same pointer until that pool goes away (drained and not referenced by anyone else, or destroyed), at which moment the pointer is cleared and the next request creates a new one. The default pool is the same object for all calls made by one thread while it exists, different threads have different ones, and the items are released (by the thread which added them) when the main loop of that thread becomes idle, when the pool is drained explicitly or at the latest when the thread exits after its main context is gone.",
  ["histories", "schedules"], "any number of threads and any interleaving of getting, adding, draining and exiting",
  "Tests get the default pool in one thread at a time.",
  ["src/gutil_idlepool.c"],
  [("thread-specific pool", "gutil_idle_pool_get_default"), ("shared pointer", "gutil_idle_pool_get, gutil_idle_pool_finalize")],
  observe=["identity of pools, destructor calls"])
p("C11", "Int array edits are equivalent to edits of a plain list",
  "Construction, appending, prepending, insertion at any position (a position past the end extends the array up to there), change of the count, removal by value, index or range (clamped to the array, out of range removals do nothing), search and sorting leave the array with exactly the contents and the count of the same edit of a plain list; the fast removals may only change the order of what remains, and growing the count keeps the existing elements (the new ones are not specified). Sorted order is numeric for all int values and sorting keeps all elements. Results of removal and search report what was actually found, and freeing hands out or releases the data exactly once.",
  ["histories", "inputs"], "all sequences of edits with arbitrary positions, counts and int values",
  "Tests edit arrays of at most a dozen small values; arithmetic on positions, counts and int values fails only for extreme ones.",
  ["src/gutil_intarray.c", "include/gutil_intarray.h"],
  [("edits", "gutil_int_array_insert_vals, gutil_int_array_remove_range, gutil_int_array_set_count, gutil_int_array_remove_all_fast"), ("comparison", "gutil_int_array_sort_ascending/descending")],
  observe=["data and count fields, return values"])
p("C12", "Immutable int vectors never change and own their data properly",
  "An immutable vector (and each slice of it) always shows the same values from creation to the last unref, regardless of what happens to the data it was copied from or to other vectors sharing its storage. A slice shows exactly the requested range clamped to the parent (an empty result is NULL). The release function of the wrapped data is called exactly once, after the last reference to the vector or any of its slices is gone, and extracting the data with the last reference yields the same values in memory which the caller can free.",
  ["histories"], "all sequences of creating, slicing, extracting and releasing vectors of any origin (copied, taken, static, wrapped)",
  "Ownership depends on how the vector was created and on who still shares it; tests extract data from one kind.",
  ["src/gutil_ints.c", "include/gutil_ints.h"],
  [("slices", "gutil_ints_new_from_ints"), ("data extraction", "gutil_ints_unref_to_data"), ("release", "gutil_ints_finalize")],
  observe=["data, release function calls, AddressSanitizer, allocation balance"])
p("C13", "Int vector equality, hash and comparison are consistent",
  "Equality is exactly sameness of contents (empty is NULL, equal only to itself), equal vectors have equal hashes, and comparison is a total order which is zero exactly for equal vectors, antisymmetric, transitive, and places a proper prefix (and the empty one) before the longer vector. The results depend only on the contents and not on the way or place where those are stored, and search finds the first occurrence of exactly the values which are there.",
  ["inputs"], "all pairs and triples of int vectors",
  "Laws relate arbitrary pairs and triples; tests compare three vectors.",
  ["src/gutil_ints.c"],
  [("comparison", "gutil_ints_compare, gutil_ints_equal, gutil_ints_hash"), ("search", "gutil_ints_find")],
  observe=["return values"])
p("C14", "String vector edits are equivalent to edits of a plain list",
  "Adding one or more strings, removing by position or by value (the first or all occurrences), searching from either end and access by index give on a NULL-terminated string vector the same results as on a plain list of strings, NULL vector being the empty list (and removals may leave an empty vector). Removed strings are freed unless the caller asked otherwise, the remaining ones are not touched, and out of range positions or NULL arguments change nothing.",
  ["histories", "inputs"], "all string vectors and sequences of edits, including NULL and empty vectors and strings",
  "Tests use vectors of up to 5 strings with a few removals.",
  ["src/gutil_strv.c", "include/gutil_strv.h"],
  [("edits", "gutil_strv_add, gutil_strv_addv, gutil_strv_remove_at, gutil_strv_remove"), ("search", "gutil_strv_find, gutil_strv_find_last")],
  observe=["contents, return values, AddressSanitizer, allocation balance"])
p("C15", "String vector sorting, search, de-duplication, stripping and equality",
  "Sorting in either direction yields an ordered permutation of the strings, and the binary search in a vector sorted in the same direction finds an occurrence of the string exactly when there is one. Removal of duplicates keeps exactly the first occurrence of each string in the original order, stripping removes leading and trailing white space of each string and nothing else, and two vectors are equal exactly when they have the same strings in the same order (NULL and empty ones are equal).",
  ["inputs"], "all string vectors of any length with any bytes, including duplicates and empty strings",
  "Tests sort vectors of 2-6 strings; comparison of bytes above 127, many duplicates and boundary positions are not sampled.",
  ["src/gutil_strv.c"],
  [("comparison functions", "gutil_strv_sort, gutil_strv_bsearch"), ("in-place edits", "gutil_strv_remove_dups, gutil_strv_strip, gutil_strv_equal")],
  observe=["contents, return values"])
p("C16", "Object vector edits keep order and exactly one reference per entry",
  "Creation, copying, adding, insertion at any position (past the end means the end), appending of a vector, removal by position or by object (the first or all occurrences), search, access and comparison give on a NULL-terminated vector of objects the same results as on a plain list, NULL vector being the empty list. At all times each entry holds exactly one reference to its object, removed entries and freed vectors drop exactly one per entry, and NULL objects and out of range positions change nothing.",
  ["histories"], "all sequences of edits over any set of objects, including duplicates, NULL and empty vectors",
  "Tests check a few fixed edits; reference leaks show up only after particular combinations (duplicates, removal of all).",
  ["src/gutil_objv.c", "include/gutil_objv.h"],
  [("edits", "gutil_objv_insert, gutil_objv_append, gutil_objv_remove, gutil_objv_remove_at")],
  observe=["contents, reference counts, finalization of objects"])
p("C17", "Hex encoding, decoding and dump",
  "Binary data of any size converts to the hex string in the requested case and back without a change; decoding accepts exactly non-empty even-length strings of hex digits in either case (explicit length, or up to the end of string), in the caller's or in a newly allocated buffer, and anything else yields NULL. A dump line describes min(size,16) bytes as hex and printable characters at fixed columns, is zero terminated within the documented buffer size, and reports how many bytes it covers.",
  ["inputs"], "all byte strings, lengths and cases, NULL and negative lengths",
  "Tests convert a few strings; every byte value, every invalid position and every size matter.",
  ["src/gutil_misc.c"],
  [("conversion", "gutil_hex2bin, gutil_bin2hex, gutil_data2hex, gutil_hex2bytes"), ("dump", "gutil_hexdump")],
  observe=["output strings and bytes, AddressSanitizer"])
p("C18", "Strict number parsing",
  "A string is parsed as a number exactly when, with the surrounding white space removed, it's a complete C-style integer in the requested base which fits into the requested type (an unsigned number has no minus sign), and the stored value is then exactly that number. In all other cases (NULL, empty, blank, trailing garbage, out of range) parsing fails and the output is not touched; the output pointer may be NULL.",
  ["inputs"], "all strings, all bases, all four integer types",
  "Boundaries of the four types, prefixes of different bases, signs and white space form a large space; tests try a few strings per function.",
  ["src/gutil_misc.c"],
  [("parsing", "gutil_parse_int, gutil_parse_uint, gutil_parse_int64, gutil_parse_uint64")],
  observe=["return values and outputs"])
p("C19", "Data block, byte range and GBytes helpers",
  "Equality, prefix and suffix tests of data blocks, byte ranges and GBytes agree with comparison of the corresponding byte strings (NULL is treated as described: missing prefix never matches, empty one matches whatever exists), skipping a prefix moves the range exactly over a matching prefix and otherwise doesn't touch it. Concatenation is the concatenation of all arguments, XOR is bytewise over the length of the shorter argument (empty if either is empty), and copies hold the same bytes independently of the source. No helper modifies its arguments or their reference counts beyond what it returns.",
  ["inputs"], "all byte strings and combinations of arguments, including NULL and empty ones",
  "Tests check 2-3 combinations for each helper.",
  ["src/gutil_misc.c"],
  [("comparison", "gutil_data_equal, gutil_data_has_prefix, gutil_data_has_suffix, gutil_bytes_*, gutil_range_*"), ("construction", "gutil_bytes_concat, gutil_bytes_xor, gutil_data_new, gutil_data_copy, gutil_data_copy_as_variant")],
  observe=["return values, AddressSanitizer, allocation balance"])
p("C20", "Log filtering follows module levels, inheritance and options",
  "A message is emitted exactly when the enabled query says so for that module and level, and that is: neither the module (NULL is the default one) nor any ancestor which had to be consulted is disabled, and the level isn't above the module's own level or, if that one is inherited, the level of the nearest ancestor which has one (the default module being the last resort), messages of the always level passing and the none level blocking everything else. Emitted messages go exactly once to the module's own log function or, without one, to the global one. Parsing a command line option accepts exactly [module:]level with a known module and a level name, its abbreviation or number, and then changes only the level of the named (or the default) module.",
  ["inputs", "configurations"], "all trees of modules, levels, flags and log functions, all option strings",
  "Tests check a few levels of one or two modules.",
  ["src/gutil_log.c", "include/gutil_log.h"],
  [("level check", "gutil_log_enabled, gutil_log_check_level, gutil_logv"), ("option parser", "gutil_log_parse_option, gutil_log_parse_level")],
  state=[("GLogModule", "level, flags, parent, log_proc", "include/gutil_log.h")],
  observe=["calls of the log functions, module levels, error messages"])
p("C21", "Log output contains the complete formatted message",
  "Each emitted message becomes exactly one line of the stdout or stderr log: optional time stamp and thread id, the module name prefix unless it is hidden or absent, the warning or error prefix for those two levels, and the message formatted exactly as printf would (with errno being what it was at the time of the call), no matter how long it is; the syslog and GLib outputs get the same complete message exactly once, with the priority of its level: error, warning, notice (message), info or debug; syslog messages have the module name and the thread id too. Dumped data becomes as many such lines as its 16-byte pieces, each with the given prefix and the dump of that piece. Selecting an output by name switches all subsequent messages there, only known names are accepted and others leave it as it was. A message which printf fails to format (e.g. with an invalid wide character) still makes one line, the rest of which is unspecified.",
  ["inputs", "configurations"], "all message lengths and contents, module names, time stamp formats, data sizes and output types",
  "Buffer boundaries are hit only by particular total lengths; tests log a few short messages.",
  ["src/gutil_log.c"],
  [("formatting", "gutil_log_format, gutil_log_stdio"), ("prefix and time stamp", "gutil_log_prefix, gutil_log_set_timestamp_format"), ("dump", "gutil_log_dump")],
  observe=["text written to stdout/stderr"])
p("C22", "Filesystem watches deliver events to the right handlers until removed",
  "Each filesystem event matching the mask of a watch is delivered through the main loop, in the order of occurrence and exactly once per registered handler, with the mask, cookie and name reported by the system (identical consecutive events may be merged by the kernel); handlers which have been removed (or watches which have been destroyed or freed) before the delivery get nothing, and other watches and handlers are not affected. Handlers may add and remove handlers, create, destroy and free watches. When nobody uses watches any more, no descriptors or memory remain allocated (and none which isn't owned is closed), and a watch for a path which cannot be watched is reported as NULL. When the system runs out of space for events, those which it kept are delivered, and so are the ones which happen afterwards.",
  ["histories", "schedules"], "all sequences of filesystem changes, watch and handler operations (also made from handlers) and main loop iterations, for watches on different files and directories",
  "Tests watch one directory and make one or two changes.",
  ["src/gutil_inotify.c", "include/gutil_inotify.h"],
  [("event dispatch", "gutil_inotify_read, gutil_inotify_callback"), ("watch registry", "gutil_inotify_watch_new, gutil_inotify_watch_stop")],
  observe=["handler calls compared with a raw inotify descriptor and with the model of handlers"])
p("C23", "Time change notifications reach all handlers once per change",
  "Every change of the system clock (changes which happen before the main loop notices them count as one) results in exactly one call of each registered handler through the main loop, and handlers removed before that moment aren't called. All users share one watcher while any of them exists; when the last one goes away, all the system resources are released, and the next request starts from scratch. Failure of the system to provide or to set up the timer neither crashes nor produces bogus notifications.",
  ["histories", "fault_sequences"], "all sequences of clock changes, handler operations (also made from handlers), references, main loop iterations and failures of system calls",
  "A test can't change the system clock; the existing one simulates one change with no failures.",
  ["src/gutil_timenotify.c", "include/gutil_timenotify.h"],
  [("timerfd with cancel-on-set", "gutil_time_notify_callback, gutil_time_notify_set_timer"), ("singleton", "gutil_time_notify_new, gutil_time_notify_finalize")],
  observe=["handler calls, stand-ins for timerfd_create, timerfd_settime and read"])
p("C24", "Shared weak references track their object",
  "A weak reference returns a new strong reference to the object it was last pointed to exactly as long as that object is alive, and NULL afterwards or if it was pointed to nothing; it never keeps the object alive by itself. Sharing it between several holders doesn't change that, it exists until the last holder drops it, and operations on a NULL reference are harmless.",
  ["histories", "schedules"], "all sequences of creation, retargeting, sharing and object destruction, also from concurrent threads",
  "Tests check one object in one thread.",
  ["src/gutil_weakref.c", "include/gutil_weakref.h"],
  [("GWeakRef in a reference counted block", "gutil_weakref_new, gutil_weakref_get, gutil_weakref_set, gutil_weakref_unref")],
  observe=["returned objects and their reference counts"])
p("C25", "Reference counting is thread-safe and frees exactly once",
  "Reference counted objects of the library (int arrays, immutable int vectors and their slices, ring buffers, histories, idle queues, idle pools, weak references, time notifiers, filesystem watches) may be referenced and unreferenced from any number of threads at the same time: the object stays valid until the last reference is gone and is then destroyed exactly once, with its destructors seeing everything done before.",
  ["schedules", "histories"], "all interleavings of ref/unref pairs made by several threads",
  "Tests are single-threaded with respect to these objects.",
  ["src/gutil_intarray.c", "src/gutil_ints.c", "src/gutil_ring.c", "src/gutil_history.c", "src/gutil_idlequeue.c", "src/gutil_idlepool.c", "src/gutil_weakref.c", "src/gutil_timenotify.c"],
  [("atomic reference counts", "*_ref and *_unref")],
  observe=["ThreadSanitizer, AddressSanitizer, destructor calls, allocation balance"])
p("C26", "Public headers and version macros are usable in every combination",
  "Each public header compiles on its own and in any order with the others, as C and C++, in debug and release configurations, and every function and variable declared there can be linked with. Version words pack and unpack any valid version without a change, compare like the versions themselves, each version macro up to the current one is a constant expression with the value of its name, and the run-time version is the compile-time one.",
  ["programs", "inputs"], "all combinations and orders of the public headers, languages and configurations; all version triples",
  "Tests are C programs compiled in one configuration and check only two of the version macros.",
  ["include/gutil_version.h", "include/gutil_types.h", "include/gutil_log.h", "src/gutil_version.c"],
  [("include guards, G_BEGIN_DECLS, version macros", "include/*.h"), ("version variables", "src/gutil_version.c")],
  observe=["compiler and linker exit status", "values of the macros"])
p("C27", "Signal, source, object and pointer helpers do exactly what they say",
  "Disconnecting a list of handler ids disconnects exactly those (zero ids are skipped) and zeroes the list, removing or clearing a source removes exactly that source and zeroes the stored id, and the answer tells whether there was anything to remove. The object helpers add or drop exactly one reference, pointer vector length, emptiness and release agree with the list of its non-NULL elements, duplicated memory is an independent copy, and the NULL-tolerant string length is that of the string. NULL or zero arguments do nothing.",
  ["inputs", "histories"], "all lists of handlers and sources, all memory blocks and vectors, NULL included",
  "Tests check one handler, one source and a few vectors.",
  ["src/gutil_misc.c", "include/gutil_misc.h"],
  [("helpers", "gutil_disconnect_handlers, gutil_source_remove, gutil_source_clear, gutil_object_ref, gutil_object_unref, gutil_ptrv_*, gutil_memdup, gutil_strlen0")],
  observe=["signal deliveries, main loop sources, reference counts"])
p("C28", "Log configuration from the environment",
  "At startup the environment variables set the default log level (an integer not less than -1), and turn time stamps and thread ids in the log on (a positive integer) or off (zero). Any other value (not a complete integer, out of range, negative) is ignored and leaves the built-in setting, and whatever the values are, the process starts and the log works according to the resulting settings.",
  ["configurations"], "all values of the three environment variables",
  "The environment is read before main(), a unit test can only see one setting per process.",
  ["src/gutil_log.c"],
  [("constructor", "gutil_log_init")],
  observe=["output of a child process started with that environment"])

p("C29", "Logging and assertion macros do what the configuration says",
  "A logging macro whose level isn't above the compile-time maximum passes exactly one message to the log with that level, the module of the current file (NULL if none) and the formatted arguments evaluated exactly once, subject to run-time filtering; above the maximum it's a no-op which doesn't evaluate anything. Assertions are checked and evaluated only if enabled (debug configuration or the assertion level within the maximum), verification macros evaluate their expression exactly once in any configuration and report a failure only if assertions are enabled. All of them are single statements, usable in C and C++, and the module definition macros produce an initialized module with the given name and parent.",
  ["programs", "configurations"], "all programs using these macros with any module, maximum and assertion level, debug setting, language",
  "Tests are C programs compiled in one (debug) configuration.",
  ["include/gutil_log.h", "src/gutil_log.c"],
  [("macros", "GERR, GWARN, GINFO, GDEBUG, GVERBOSE, GASSERT, GVERIFY_*, GERRMSG, GLOG_ENABLED, GLOG_MODULE_DEFINE*")],
  observe=["messages received by the log function, evaluations of the arguments"])

p("C30", "Debug build never complains about valid use",
  "In the debug configuration none of the internal assertions of the library fails (such a failure is reported to the log as an error), and GLib has nothing to warn about, no matter which valid operations are performed on its objects, in what order, by how many threads, from which callbacks and under which failures of the system. Other than that, the debug build does exactly the same as the release one.",
  ["operation histories", "callbacks", "schedules", "faults"], "all valid histories of operations with rings, histories, idle queues and pools, filesystem watches, time notifications and weak references",
  "Failed assertions only print something, tests do not look at that.",
  ["src/gutil_ring.c", "src/gutil_history.c", "src/gutil_idlequeue.c", "src/gutil_idlepool.c", "src/gutil_inotify.c", "src/gutil_timenotify.c", "src/gutil_weakref.c"],
  [("assertions", "GASSERT in the library sources"), ("report", "gutil_log_assert")],
  observe=["messages received by the log function in the debug build"])
p("C31", "Log help text agrees with what the log accepts",
  "The generated description of log options lists every level exactly once, from the lowest to the highest, by its number and name together with an explanation, and both the number and the name are accepted by the option parser as that very level; the level which is in effect unless it's changed (and no other one) is marked as the default, no matter what the current level is. If a list of modules is given (it may be empty), the name of each one follows, complete and on a line of its own, in the order of the list, and is accepted by the option parser as a module name. Neither the modules nor the current levels are changed.",
  ["inputs"], "all lists of modules with any names, levels, flags and parents, any current default level",
  "Tests generate the description for one or two modules and only compare it with a fixed string.",
  ["src/gutil_log.c", "include/gutil_log.h"],
  [("description", "gutil_log_description"), ("option parser", "gutil_log_parse_option, gutil_log_parse_level")],
  observe=["the text returned by gutil_log_description, levels set by gutil_log_parse_option"])
p("C32", "Simultaneous logging by several threads loses and mixes nothing",
  "Messages (and data dumps) logged by any number of threads at the same time, while the logging configuration isn't being changed, all arrive, each exactly once, as whole lines or messages which aren't interleaved with others, with the prefix, module name, time stamp and thread id of the thread which has logged it, and messages of each thread in the order in which they were logged. The threads may also parse options for their own modules and query the levels at the same time, without affecting each other.",
  ["schedules", "inputs"], "all interleavings of messages of any length, dumps, descriptions and options for own modules, made by several threads, with any output and any combination of time stamps, thread ids and names",
  "Tests log from a single thread.",
  ["src/gutil_log.c"],
  [("formatting and output", "gutil_log_stdio, gutil_log_syslog, gutil_log_glib, gutil_log_format"), ("dump", "gutil_log_dump2"), ("options", "gutil_log_parse_option, gutil_log_description")],
  observe=["text written to stdout/stderr, syslog and GLib messages, ThreadSanitizer, AddressSanitizer"])
p("C33", "Independent operations may run in parallel",
  "Operations which have no arguments in common do not affect each other when they are made by several threads at the same time: all functions which pack and unpack data, parse and format numbers and hexadecimal data, compare and combine byte blocks, handle string vectors, integer vectors and arrays, object vectors, rings, histories, idle pools, idle queues, weak references, or parse log options for their own modules, return the same results as when they are called by a single thread. The library keeps no hidden state shared by them, except for what is safely shared (such as the empty integer vector).",
  ["schedules", "inputs"], "all interleavings of operations made by several threads on their own data",
  "Tests are single-threaded; hidden state shared by the calls is harmless there.",
  ["src/gutil_datapack.c", "src/gutil_misc.c", "src/gutil_strv.c", "src/gutil_ints.c", "src/gutil_intarray.c", "src/gutil_objv.c", "src/gutil_ring.c", "src/gutil_history.c", "src/gutil_idlepool.c", "src/gutil_idlequeue.c", "src/gutil_weakref.c", "src/gutil_log.c"],
  [("absence of mutable static data", "all modules"), ("shared empty vector", "gutil_ints_new, gutil_ints_unref")],
  observe=["results of the calls, ThreadSanitizer, AddressSanitizer"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
