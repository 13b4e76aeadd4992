#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Locks exclude: one writer, or readers only, with visibility",
 "For spinlock and for shared_spinner of every lock-word width, at no point of any schedule does one thread hold the lock exclusively while another holds it exclusively or shared; a try operation that reports failure acquires nothing and changes nobody's ownership. Everything written while holding the lock is visible to the next holder, and once every holder has released, a waiting or later lock, lock_shared, try_lock or try_lock_shared on the otherwise idle lock succeeds.",
 ["schedules", "histories"], "every interleaving of lock/unlock/lock_shared/unlock_shared/try_*/timed calls by any number of threads on one lock, for 8/16/32/64-bit lock words",
 "The repository has no lock test at all; locks are only exercised through the map tests, whose threads rarely collide and never with the read-write lock.",
 ["seq/lock.hpp"], [("exchange/acquire, store/release", "spinlock"), ("write / need_lock / reader-count bits, compare_exchange and fetch_add/undo", "shared_spinner")],
 [("d_lock", "lock word: free, writer bit, waiting-writer bit, reader count", "seq/lock.hpp")],
 ["return of each lock call", "payload accesses made inside critical sections"])

prop("C02", "Concurrent map and set: each single-key operation is atomic",
 "Under any interleaving of threads, every insert/emplace/try_emplace/insert_or_assign/emplace_or_visit, erase (with or without predicate), visit/cvisit, contains and count on concurrent_map and concurrent_set takes effect exactly once, at one instant between its call and its return, on a single abstract key-to-value map; its result and what its functor sees are those of that instant. Functors on one key never overlap (mutating with anything), and no key is ever lost, duplicated or resurrected, also while the table grows, is rehashed, reserved or cleared, at every concurrency level including the shared ones.",
 ["schedules", "histories"], "all interleavings of 2-4 threads of single-key operations, with growth/rehash/clear in flight, for every shard and lock-type setting",
 "Existing tests run a few real-thread loops and compare final contents; they never force an interleaving inside growth, and never use the shared lock levels.",
 ["seq/concurrent_map.hpp", "seq/internal/concurrent_hash_table.hpp", "seq/lock.hpp"],
 [("per-bucket lock plus re-check of the hash mask", "ChainingHashTable::get_node"), ("rehash holds every bucket lock until the new array is published", "ChainingHashTable::rehash_internal"), ("single-bucket phase under the rehash lock", "get_node_global_lock")],
 [("d_buckets/d_values/d_hash_mask", "current bucket array", "ChainingHashTable"), ("d_locks", "grow-only lock array", "SharedLockArray")],
 ["call and return of each operation", "values seen in visitors"])

prop("C03", "Concurrent bulk operations see and change each element exactly once",
 "visit_all/cvisit_all call the functor exactly once for each element present throughout the call, never for a key absent throughout, and stop and return false as soon as the functor returns false; erase_if removes exactly elements for which the predicate returned true and returns their number; clear leaves no element that was there before it and not re-inserted; merge moves each element whose key the destination lacks exactly once and returns the number moved; size() equals the number of elements whenever no writer is active. Copying, comparing, and the variants taking an execution policy give the same results, at every concurrency level.",
 ["schedules", "inputs", "histories"], "all contents, predicates and interleavings with concurrent single-key operations and growth",
 "Tests call these only single-threaded or check only totals; the const visiting paths, early stop and interleaving with growth are not covered.",
 ["seq/concurrent_map.hpp", "seq/internal/concurrent_hash_table.hpp"],
 [("rehash lock held during traversal, bucket lock per bucket", "ChainingHashTable::visit_all / erase_if"), ("erase-and-reinsert under the source bucket lock", "ChainingHashTable::merge")],
 [("d_size", "number of elements of a sub-table", "ChainingHashTable")], ["return values, visited elements, quiescent contents"])

prop("C04", "Concurrent map operations always finish",
 "Any finite set of threads calling any operations of concurrent_map/concurrent_set whose functors return always runs to completion under every fair schedule: no deadlock, no unbounded wait for an event that can no longer happen, no crash. This includes operations concurrent with clear, rehash and reserve, comparing a container with itself, merging in both directions at once, swapping, and every concurrency level including the shared ones.",
 ["schedules", "configurations"], "all fair schedules of finite programs over the whole concurrent interface",
 "A test that hangs only under one interleaving passes every ordinary run; the shared-lock levels and self-operations are never run.",
 ["seq/concurrent_map.hpp", "seq/internal/concurrent_hash_table.hpp", "seq/lock.hpp"],
 [("waiting for the bucket array", "get_node / get_node_global_lock"), ("unlock of every lock taken, on the exception path too", "rehash_internal"), ("deadlock-free double locking", "swap / merge / operator==")],
 [("d_in_rehash", "a rehash is running", "ChainingHashTable")], ["completion of every call"])

prop("C05", "devector and tiered_vector behave as a sequence of values",
 "After any history of operations, devector and tiered_vector hold exactly the sequence of values obtained by applying the same operations to a mathematical sequence: push/pop/emplace at both ends, insert/erase of one element, a count or a range at any position (also when the argument aliases an element), assign, resize and resize_front, clear, shrink_to_fit, reserve. size, indexing, at (out of range throws), front/back, both iteration directions, iterator arithmetic, for_each and comparisons agree with that sequence, and each returned iterator or index designates the element the operation specifies.",
 ["histories", "inputs", "configurations"], "all operation histories and positions, for trivially copyable, relocatable and ordinary element types and every bucket-size setting",
 "Tests replay a few fixed scripts against std::deque; wrap-around, bucket-boundary and bucket-size-change combinations depend on the whole history.",
 ["seq/devector.hpp", "seq/tiered_vector.hpp"],
 [("free space at both ends, shortest-side moves", "DEVectorData"), ("circular buffers, push-front/pop-back between buckets, bucket size change", "CircularBuffer / BucketManager")],
 [("start/end/capacity", "window of the buffer", "DEVectorData"), ("bucket array, bucket size, begin index", "tiers", "BucketManager")],
 ["size, operator[], iterators and returned iterators after each operation"])

prop("C06", "sequence keeps order, and stable addresses and iterators",
 "After any history of operations, seq::sequence iterates, in both directions, exactly the order produced by its push_front/push_back/emplace/insert/erase/resize/assign/sort/splice-like operations, insert(value) adds the value exactly once somewhere, and size agrees. An element keeps its address, and every iterator and reference to it stays valid and designates it, until that element itself is erased or the operation is one documented to relocate elements.",
 ["histories", "inputs"], "all histories mixing insertions and erasures at both ends and in the middle, with slot reuse, for both layouts",
 "Tests compare contents after a few scripted phases and never follow iterators across long insert/erase histories with slot reuse.",
 ["seq/sequence.hpp"],
 [("64-slot chunks with an occupancy bitmap, free-chunk list", "sequence::Data / list_chunk")],
 [("used bitmap, prev/next, free chunk list", "occupied slots", "list_chunk")], ["iteration, addresses and saved iterators after each operation"])

prop("C07", "flat_set/map/multiset/multimap are exact sorted collections",
 "After any history of operations, flat_set and flat_map hold exactly one element per distinct inserted key and flat_multiset and flat_multimap every inserted element, in the order of the comparator, with the mapped values the operations specify. Insertion of one value, with a hint, by range (sorted or not, with duplicates, empty target), emplace/try_emplace/insert_or_assign/operator[], erase by key, position, range and predicate, merge, extract/replace, and find/contains/count/lower_bound/upper_bound/equal_range by iterator or position, also heterogeneous, return what that sorted collection dictates; equal elements keep their insertion order where the container is declared stable.",
 ["histories", "inputs", "configurations"], "all histories, key distributions, comparators and the Stable/Unique settings",
 "Tests compare with std::set on a few random fills; duplicates in ranges, hints, multi-key positions and bucket-boundary cases are sampled thinly.",
 ["seq/flat_map.hpp", "seq/tiered_vector.hpp"],
 [("bucket-level then in-bucket binary search", "flat_tree / tiered_vector lower_bound"), ("append, sort, merge, unique for ranges", "flat_tree::insert range")],
 [("underlying tiered_vector", "sorted elements", "flat_tree")], ["returned iterators/positions/bools/counts and contents"])

prop("C08", "radix_set and radix_map are exact sorted collections of their keys",
 "After any history of insertions and erasures, radix_set and radix_map hold exactly one element per distinct key and iterate, forward and backward, in the key order (numeric order for integers, floats and tuples, lexicographic order for strings and other data/size keys), whatever the keys share as prefixes, lengths or bit patterns. insert, emplace, try_emplace, insert_or_assign, hinted and range insertion, erase by key, iterator and range, find, contains, count, lower_bound, upper_bound, equal_range and prefix ranges return what that sorted collection dictates.",
 ["histories", "inputs"], "all histories and key sets, including long shared prefixes, embedded zero bytes, negative and extreme numbers, dense and sparse distributions",
 "Tests use random fills and one worst-case string family; directory splitting, level merging and rebalancing on erase depend on the bit patterns of the whole key set.",
 ["seq/radix_map.hpp", "seq/internal/radix_tree.hpp"],
 [("bit-consuming directories, leaf burst, level merging, prefix compression, vector node at maximal depth", "radix_tree.hpp"), ("directory removal on erase", "radix_tree.hpp")],
 [("directory tree", "variable-arity directories and leaves", "RadixTree")], ["results and full iteration after operations"])

prop("C09", "ordered_set/map: insertion order, unique keys, stable elements",
 "After any history of operations, ordered_set and ordered_map hold exactly one element per distinct key, iterate in insertion order as modified by push_front/emplace_front/push_back/sort/stable_sort, and find/contains/count/insert/try_emplace/insert_or_assign/operator[]/at/erase agree with that collection for any hash function, however bad, and any load factor. Elements keep their address and iterators stay valid until erased, also across rehash; after direct access to the underlying sequence, hash-based calls throw until rehash(), which removes duplicates keeping the first and restores lookup.",
 ["histories", "inputs", "configurations"], "all histories and hash functions (perfect, clustering, constant), all max load factors",
 "Tests use good hashes and one linear hash; distance overflow, tombstones and their reversal by rehash need long clustered histories.",
 ["seq/ordered_map.hpp", "seq/sequence.hpp"],
 [("robin hood probing, backward shift, tombstones after distance overflow", "SparseFlatNodeHashTable"), ("dirty flag", "SparseFlatNodeHashTable")],
 [("buckets of (distance, tiny hash, node)", "index over the sequence", "SparseFlatNodeHashTable")], ["results, iteration order, element addresses"])

prop("C10", "Unordered hash containers hold exactly the inserted keys for any hash",
 "For any history of operations and any hash function (colliding partially or totally, or identity), radix_hash_set/map, and concurrent_set/map used from one thread at any concurrency level, hold exactly one element per distinct key with the mapped value the operations specify. insert/emplace/try_emplace/insert_or_assign/emplace_or_visit/operator[]/at, range insertion, erase by key, iterator or predicate, find/visit, contains, count, size, iteration or visit_all, reserve/rehash/clear, merge and comparison return what that set dictates, each element being reached exactly once.",
 ["histories", "inputs", "configurations"], "all histories and hash functions, with and without a less-than for collision nodes",
 "Tests use good hashes plus a linear one; overflowing buckets, exhausted hash bits and chain erasure need adversarial hashes and long histories.",
 ["seq/radix_hash_map.hpp", "seq/internal/radix_tree.hpp", "seq/concurrent_map.hpp", "seq/internal/concurrent_hash_table.hpp"],
 [("leaf nodes with tiny hashes, vector node when bits are exhausted", "radix_tree.hpp"), ("chained dense nodes, erase by moving the last element of the chain", "ChainingHashTable::erase_from_bucket / erase_from_dense")],
 [("leaf arrays / bucket chains", "elements by hash", "radix_tree.hpp, concurrent_hash_table.hpp")], ["results and contents"])

prop("C11", "Elements and memory are constructed, destroyed and freed exactly once",
 "For every container (devector, tiered_vector, sequence, flat_*, radix_*, radix_hash_*, ordered_*, concurrent_*, tiny_string, hold_any), whatever the history: between operations the number of live element objects attributable to the container equals the number of elements it reports, no element is used or destroyed after destruction nor overwritten without destruction, and no element of a non-relocatable type is moved by raw copying. After destruction of the container every element is destroyed and every block obtained from its allocator has been returned once, with the size it was requested with.",
 ["histories", "inputs", "configurations"], "all operation histories of each container, relocatable and non-relocatable elements, stateful allocators",
 "The *_destroy tests count live objects at the end of one script each; leaks or double destruction on rarely taken paths are not reached.",
 ["seq/devector.hpp", "seq/tiered_vector.hpp", "seq/sequence.hpp", "seq/flat_map.hpp", "seq/radix_map.hpp", "seq/radix_hash_map.hpp", "seq/ordered_map.hpp", "seq/internal/radix_tree.hpp", "seq/internal/concurrent_hash_table.hpp", "seq/tiny_string.hpp", "seq/any.hpp"],
 [("construct_ptr/destroy_ptr and is_relocatable paths", "all containers"), ("allocator rebind and deallocate with the allocated size", "all containers")],
 [("live objects, outstanding blocks", "ledger kept by the element and allocator types of the check", "harness types")], ["element and allocator ledgers after each operation"])

prop("C12", "A throwing element or allocator never corrupts a container",
 "If a copy, move, comparison, hash, user functor or allocation throws during any container operation, the exception reaches the caller and the container stays usable and destructible: no leak, no double destruction, it holds only valid elements and its ordering, uniqueness and size stay consistent (basic guarantee). Operations documented as strong - insertion of single elements in sequence and ordered_set/map, devector and its operations when elements move without throwing, tiny_string like std::string, hold_any construction, concurrent map single-element insertion - leave the previous contents unchanged.",
 ["fault_sequences", "histories"], "every point at which an element operation or an allocation can throw, in every operation and state",
 "Almost no test throws at all.",
 ["seq/devector.hpp", "seq/tiered_vector.hpp", "seq/sequence.hpp", "seq/flat_map.hpp", "seq/ordered_map.hpp", "seq/internal/radix_tree.hpp", "seq/internal/concurrent_hash_table.hpp", "seq/tiny_string.hpp", "seq/any.hpp"],
 [("try/catch rollback and ordering of construction before commit", "all containers")],
 [("element and allocation ledgers", "harness types", "harness types")], ["contents and ledgers after each throw"])

prop("C13", "tiny_string behaves as a string value at every size and capacity",
 "For every character type, static capacity and allocator, after any history of operations a tiny_string equals the character sequence std::basic_string would hold: construction, assign, append, insert, erase, replace, resize, push/pop_back, substr, copy, swap, shrink_to_fit and reserve, including embedded null characters, arguments aliasing the string itself, and lengths crossing the in-place/heap boundary in both directions. It is always null terminated, find/rfind/find_*_of/compare/starts_with/ends_with/relational operators and hashing (also against std::string, string views and C strings) give the results of the same operation on that sequence; at(), substr() and copy() throw std::out_of_range exactly for positions outside it.",
 ["histories", "inputs", "configurations"], "all histories, contents and static sizes; positions and counts including npos and the boundaries",
 "Tests check fixed examples; the in-place/heap transitions interact with each argument form.",
 ["seq/tiny_string.hpp"],
 [("last-byte size encoding, heap switch", "StringHolder / string_internal"), ("search and compare", "tiny_string")],
 [("size/capacity/SSO state", "representation", "StringHolder")], ["contents, size, c_str terminator, results"])

prop("C14", "hold_any is a value: stored, copied, compared, hashed and cast faithfully",
 "A hold_any of any stored type, small or large, relocatable or not, keeps exactly the value given until reassigned; copying yields an independent equal value, moving leaves the source valid, emptiness and type are reported exactly, casting to the stored type (by value, reference or pointer) gives the value, documented conversions give the documented result and unsupported ones throw bad_cast or bad_function_call. Equality is the documented relation (same type and equal, arithmetic values equal, string-like contents equal, both empty), the order is a consistent strict order on comparable values with empty first, and values that compare equal and are hashable have equal hashes so that lookup in hash and sorted containers works with mixed types.",
 ["inputs", "histories"], "all pairs of stored values of the supported type families, and all assignment/copy/move/swap/reset histories",
 "Tests try a handful of values; the relation is over pairs of types and values.",
 ["seq/any.hpp"],
 [("type-erased type info with in-place or heap storage", "any_base / hold_any"), ("conversion and comparison tables", "any.hpp")],
 [("storage and type pointer", "held object", "any_base")], ["results of comparisons, casts, hashes; held value after each step"])

prop("C15", "Sorting and merging algorithms: ordered, stable, nothing lost, any buffer",
 "For every input range, comparator that is a strict weak order, iterator category supported, element type and buffer size including zero, net_sort and net_sort_size produce the stable sort of the range, merge and inplace_merge the stable merge of two sorted ranges, reverse_descending the stable reversal of a descending range, and unique the first occurrences in order. Every element of the input appears in the output exactly once (except those unique removes), nothing outside the range is touched, and no memory is allocated unless an allocating buffer was passed.",
 ["inputs", "configurations"], "all input sequences (run structures, duplicates, lengths) and buffer sizes",
 "Tests sort a few random arrays; stability and small-buffer merges are input-shape dependent.",
 ["seq/algorithm.hpp"],
 [("sorting network on 8-blocks, ping-pong and bidirectional merges, rotation-based in-place merge", "algorithm.hpp")],
 [("temporary buffer", "merge space", "algorithm.hpp")], ["output range, guard elements, allocation count"])

prop("C16", "Formatting lays out exactly the requested text",
 "For every value, format specification and character type, formatting integers, floating point numbers, characters, strings, values with their own output operator, nested formats and sequences/tuples of them yields the exact digits in the requested base with the requested prefix, case and minimum width, placed left, right or centred in the requested field with the fill character and truncated only where documented, concatenated in argument order with the given separator. Writing to a stream, to a string, appending, to_chars with a bounded buffer (never writing past the given end), reusing a format object with new arguments, null placeholders and positional slots all produce that same text, and later use is unaffected by earlier use. split, join and replace over texts give exactly the pieces and occurrences of the text.",
 ["inputs", "histories"], "all values, widths, fills, bases, nestings and reuse sequences",
 "Tests check about a hundred literal strings.",
 ["seq/format.hpp", "seq/charconv.hpp"],
 [("width_format, nested ostream_format, slots", "format.hpp"), ("integer writer", "charconv.hpp")],
 [("format specification", "base, width, fill, alignment", "ostream_format")], ["produced text by every output route"])

prop("C17", "Numbers are printed and parsed exactly and within bounds",
 "For every integer of every width and sign, base 2 to 36 and character type, to_chars writes the exact representation (with the requested prefix, minimum width, sign and case) when it fits in the given range and reports value_too_large without writing past the end when it does not. from_chars consumes exactly the longest numeral of the requested base (after optional leading blanks and sign, and an optional 0x in base 16), returns its value, and reports invalid_argument with nothing consumed when there is none; printing then parsing gives the value back. For floating point, from_chars consumes exactly the longest numeral of the requested format (sign, digits, dot, exponent, inf, nan), with the requested dot and exponent characters, and its value is the one denoted; to_chars writes a numeral of the requested format and precision that denotes the value, or infinity or nan as such, and never writes outside the given range.",
 ["inputs"], "all integers, texts, bases, formats, precisions and buffer sizes",
 "Tests sample random round trips in the default base; limits, prefixes, malformed text and small buffers are barely touched.",
 ["seq/charconv.hpp"],
 [("digit loops, pattern scanning, bounded output", "charconv.hpp")],
 [], ["pointer, error code, value and text returned"])

prop("C18", "Copy, move, swap and assignment transfer contents exactly",
 "For every container, a copy equals its source and is independent of it, a moved-to container holds exactly the source's former elements and the source stays valid and reusable, swap exchanges contents, assignment (also to itself, also from a range or initializer list) replaces everything, and comparison operators agree with the contents. With stateful allocators, propagation traits are obeyed: memory is always returned to an allocator equal to the one it came from, and when allocators differ and do not propagate the elements are transferred one by one.",
 ["histories", "configurations"], "all pairs of states, orders of transfer and subsequent mutation, for equal and unequal allocators",
 "Tests perform each transfer once on one state, with one allocator.",
 ["seq/devector.hpp", "seq/tiered_vector.hpp", "seq/sequence.hpp", "seq/flat_map.hpp", "seq/radix_map.hpp", "seq/radix_hash_map.hpp", "seq/ordered_map.hpp", "seq/concurrent_map.hpp", "seq/tiny_string.hpp", "seq/utils.hpp"],
 [("copy/assign/swap_allocator helpers", "seq/utils.hpp"), ("special members", "all containers")],
 [("ownership of storage", "which object owns which elements", "all containers")], ["contents of both objects, allocator ledger"])

prop("C19", "Text stream readers give the same tokens whatever the buffering",
 "Reading a text through buffer_input_stream, file_input_stream or std_input_stream, with any internal buffer size, delivers the same sequence of words, lines and integers, positions and end-of-stream/failure states as reading it from one contiguous buffer: no character is lost, duplicated or reordered at a buffer boundary, and the last token before the end of the text is delivered.",
 ["inputs", "configurations"], "all texts, read-operation sequences and buffer sizes",
 "No test reads across a buffer boundary in a controlled way.",
 ["seq/charconv.hpp"],
 [("buffer refill and putback in the stream adaptors", "charconv.hpp")],
 [("buffer window and position", "unread text", "input stream adaptors")], ["tokens and states"])

prop("C20", "Floating point conversion accuracy",
 "Printing a floating point value with a precision below 12 gives the digits of printf, and parsing gives the value of strtod up to the documented last-digit deviation.",
 ["inputs"], "all floating point values and precisions",
 "Tests sample random values.",
 ["seq/charconv.hpp"], [("scaled power-of-ten arithmetic", "charconv.hpp")], [], ["text and value"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
