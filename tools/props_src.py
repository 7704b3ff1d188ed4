#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl: `python3 tools/props_src.py` rewrites it."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

# ---------------------------------------------------------------- system-wide
p("S01", "Only thread-safe contents can be shared between threads",
  "A type of this library may be sent to or shared with another thread by safe code only if everything stored in it may be: no container hands a non-thread-safe value (an Rc, a Cell, a non-Sync reference) to a second thread, and no type that keeps unsynchronised shared state is declared thread-safe. Access to state shared through a lock needs that lock.",
  ["programs", "schedules"], "every safe client program and every schedule of its threads",
  "The tests are a handful of programs that happen to store plain values; a data race needs a client program the tests do not contain and a schedule they do not take.",
  ["src/util/cache.rs", "src/util/arena.rs", "src/util/linked_list.rs", "src/db/skip_list.rs", "src/util/unsafe_slice.rs"],
  [("unsafe impl Send/Sync and auto traits", "src/util/cache.rs, whole crate")])
p("S02", "Safe calls never yield dangling or mutably aliased data",
  "A reference, slice, iterator or handle obtained from a safe public call is valid for as long as the borrow checker lets safe code keep it, and no two mutable (or one mutable and one shared) views of the same bytes or element can be obtained at once through safe public calls.",
  ["programs"], "every safe client program",
  "Unit tests are programs that keep views alive correctly; the property speaks about every program the compiler accepts.",
  ["src/util/slice.rs", "src/util/arena.rs", "src/util/linked_list.rs", "src/util/unsafe_slice.rs", "src/util/coding.rs", "src/db/skip_list.rs", "src/util/cache.rs"],
  [("lifetimes in public signatures", "whole crate"), ("raw pointer to reference conversions", "slice.rs, linked_list.rs, arena.rs")])
p("S03", "No operation deadlocks on its own locks",
  "No operation acquires a non-reentrant lock that the same call chain already holds, and the locks of the library are always taken in one global order, so no call of the public API can block forever on the library's own locks.",
  ["schedules", "inputs"], "every call chain of the public API and every interleaving of such chains",
  "A self-deadlock hangs a test rather than failing it and the affected operations are not called by any test; lock-order inversions need two threads in step.",
  ["src/db/mem_table.rs", "src/db/skip_list.rs", "src/util/unsafe_slice.rs", "src/util/cache.rs", "src/util/arena.rs"],
  [("Mutex/RwLock guards and their scopes", "mem_table.rs, skip_list.rs, unsafe_slice.rs, cache.rs")])
p("S04", "Heap memory is freed once, by the owner that allocated it, in its layout",
  "Every block of heap memory is released at most once, through the same allocator and with the same size and alignment with which it was obtained; memory that belongs to the arena or that was merely borrowed is never adopted by an owning container that would free it.",
  ["inputs", "histories"], "every input and every order in which values are dropped",
  "A mismatched layout or double free is undefined behaviour that usually passes silently under the test allocator.",
  ["src/util/coding.rs", "src/util/unsafe_slice.rs", "src/util/arena.rs", "src/util/slice.rs", "src/util/cache.rs"],
  [("Vec/String/Box::from_raw(_parts) and alloc/dealloc call sites", "coding.rs, unsafe_slice.rs, arena.rs, slice.rs, cache.rs")])
p("S05", "Raw typed reads and writes are aligned",
  "Multi-byte values are read from and written to byte buffers and arena memory only in ways that are valid at any address the buffer can have: no operation depends on, or assumes, an alignment the memory was not obtained with.",
  ["inputs", "histories"], "every buffer address and offset, every sequence of arena requests",
  "On x86 a misaligned access silently works, so a test passes although the behaviour is undefined and fails on other targets or under optimisation.",
  ["src/util/coding.rs", "src/util/crc.rs", "src/util/hash.rs", "src/util/arena.rs", "src/db/skip_list.rs"],
  [("pointer casts followed by typed read/write", "coding.rs, crc.rs, skip_list.rs, arena.rs")])
p("S06", "I/O and decoding failures are never swallowed",
  "When a write, flush, sync, read, seek, encode or decode step fails, the operation that issued it fails too and reports the failure to its caller; a write that accepts only part of its data is either completed or reported, never taken for a full write.",
  ["fault_sequences", "inputs"], "every failure of every underlying I/O or codec call, including partial writes",
  "Tests write to healthy files that never fail and never accept partial data.",
  ["src/db/log_writer.rs", "src/db/log_reader.rs", "src/db/builder.rs", "src/db/version_edit.rs", "src/table/format.rs", "src/table/filter_block.rs", "src/db/mem_table.rs"],
  [("? propagation and write_all", "log_writer.rs emit_physical_record, builder.rs, format.rs, filter_block.rs")])
p("S07", "Text values are always valid UTF-8",
  "Every str or String the library returns or displays holds valid UTF-8, whatever bytes the underlying key, slice or buffer holds: bytes that are not valid UTF-8 produce an error, a replacement or a documented panic, never a malformed string.",
  ["inputs"], "every byte string used as key, value or slice content",
  "The tests only store ASCII text; the unchecked conversions are wrong only for other bytes.",
  ["src/util/slice.rs", "src/util/unsafe_slice.rs", "src/util/comparator.rs"],
  [("conversions from bytes to str/String", "slice.rs, unsafe_slice.rs, comparator.rs")])
p("S08", "Every loop of the library terminates",
  "Every loop in the library makes progress towards its exit on every iteration, so that no call of an implemented operation spins forever, whatever its arguments.",
  ["inputs"], "every argument of every implemented operation",
  "A loop that fails to advance only for some arguments (a large offset, an empty input) is not reached by the sampled arguments.",
  ["src/table/filter_block.rs", "src/util/coding.rs", "src/db/log_writer.rs", "src/db/log_reader.rs", "src/util/cache.rs", "src/db/skip_list.rs", "src/util/random.rs", "src/util/hash.rs"],
  [("loop counters and cursors", "every function with a loop")])
# ---------------------------------------------------------------- coding
p("C01", "Checked encoding and decoding stay inside the buffer",
  "The checked put and get operations of the encoder and decoder never read or write a byte outside the caller's buffer (growing it when it is a vector), for any offset, length argument or buffer content; a value that does not fit or an input that is too short is answered with an error, never with an out-of-bounds access or an arithmetic wrap-around.",
  ["inputs", "histories"], "every buffer kind and size, every cursor position, every value and length argument",
  "Tests use buffers that are large enough and lengths that are small; the bounds check matters for the others.",
  ["src/util/coding.rs"],
  [("check_length! before each raw access", "src/util/coding.rs put_*/get_*/skip"), ("vec_resize!", "src/util/coding.rs")],
  [("offset / limit", "cursor and end of the readable bytes", "Encoder, Decoder")])
p("C02", "Integers are encoded in LevelDB's format and decode to themselves",
  "Fixed-width integers are stored little-endian in exactly 4 or 8 bytes and varints as 7-bit groups, least significant first, with the high bit set on every byte but the last, in exactly the number of bytes the length function reports; decoding the bytes an encoder produced gives back the value for every value of the type.",
  ["inputs"], "every 32-bit and 64-bit value",
  "Tests sample about a dozen values; the encoder has a separate branch per length and the decoder a loop per byte.",
  ["src/util/coding.rs"],
  [("varint_length, uncheck_encode_*, uncheck_decode_*", "src/util/coding.rs")])
p("C03", "The cursor moves by exactly the bytes consumed, and not on error",
  "After a successful put or get the cursor has advanced by exactly the number of bytes written or read, so consecutive calls are contiguous; a call that returns an error leaves the cursor and the buffer unchanged.",
  ["histories", "inputs"], "every sequence of codec calls, including failing ones",
  "Tests check a few successful sequences; the error paths are never followed by another call.",
  ["src/util/coding.rs"],
  [("self.offset updates", "src/util/coding.rs put_*/get_*/skip")])
# ---------------------------------------------------------------- log
p("D01", "Log records are framed so that no fragment crosses a block boundary",
  "Every record handed to the log is written as one FULL fragment or a FIRST, MIDDLE*, LAST sequence of non-overlapping fragments that together cover the record once and in order; each fragment with its 7-byte header lies inside one 32 KiB block, and a block tail too short for a header is zero-filled, for every record size and every position in the block.",
  ["inputs", "histories"], "every record length and every sequence of earlier appends",
  "A test appends a few short records; block boundaries and multi-block records depend on the accumulated position.",
  ["src/db/log_writer.rs"],
  [("add_record fragment loop", "src/db/log_writer.rs"), ("block_offset bookkeeping", "src/db/log_writer.rs emit_physical_record")])
p("D02", "The log reader survives arbitrary file contents",
  "Reading a log never panics, never reads outside the bytes actually obtained from the file, and never loops without consuming input, whatever bytes the file holds: damage is reported as a corruption error, and the end of the file - clean or in the middle of a torn record - as end of log.",
  ["inputs", "crash_points", "fault_sequences"], "every file content, including torn and corrupted tails, and short reads",
  "The reader test reads one healthy file; torn tails and corrupted lengths are the inputs a log reader exists for.",
  ["src/db/log_reader.rs"], [("read_next, read_buf, check_crc", "src/db/log_reader.rs")])
p("D03", "Log writer and reader agree on header and checksum",
  "The writer stores, and the reader interprets, the fragment header as a 4-byte little-endian masked CRC32C over the type byte followed by the payload, a 2-byte little-endian payload length and the type byte, with the same four type codes; a fragment whose checksum does not match is never returned as data when checking is on.",
  ["inputs", "histories"], "every record payload and type",
  "Writer and reader are never run against each other by a passing test.",
  ["src/db/log_writer.rs", "src/db/log_reader.rs", "src/util/crc.rs"],
  [("header layout and CRC", "log_writer.rs emit_physical_record, log_reader.rs check_crc")])
p("D04", "An append is acknowledged only after all of it reached the file",
  "Appending a record reports success only after every byte of every fragment has been handed over completely and in order (header, then payload) and flushed to the underlying file; a failure of any of these steps is reported.",
  ["fault_sequences", "crash_points"], "every failure point of the underlying writer",
  "Tests never make the underlying file fail.",
  ["src/db/log_writer.rs"], [("emit_physical_record write/flush sequence", "src/db/log_writer.rs")])
p("D05", "An acknowledged write survives a crash",
  "Once a write has been acknowledged with durability requested, reopening the database after a crash at any later point shows it, and shows no write that was never issued.",
  ["crash_points", "histories"], "every crash point",
  "No test crashes the process, and the database write path is not implemented yet.",
  ["src/db/db.rs", "src/db/log_writer.rs", "src/db/log_reader.rs"], [("write-ahead log before memtable", "src/db/db.rs (not implemented)")])
# ---------------------------------------------------------------- cache
p("E01", "A cache entry is never used after it is released",
  "An entry that leaves the cache is unlinked from both the lookup table and the recency list before its memory is released, is not touched afterwards, and a value handed to a client stays usable after eviction or erasure.",
  ["histories"], "every sequence of insert, lookup, erase, prune and eviction",
  "A use after free usually reads stale but plausible memory, so a test passes; the failing cases need collisions or a particular order of removals.",
  ["src/util/cache.rs"], [("HandleTable::remove, LRUCache::{erase,lru_remove,prune,insert}", "src/util/cache.rs")])
p("E02", "Cache usage equals the charges held and respects capacity",
  "The reported charge of the cache equals the sum of the charges of the entries that can still be looked up after any sequence of operations, each entry being counted once when it enters and subtracted once when it leaves; after an insertion enough old entries have been dropped that usage does not exceed the capacity.",
  ["histories", "inputs"], "every sequence of operations and every charge and capacity",
  "Tests insert equal charges of one; counting drifts only on the paths they do not take.",
  ["src/util/cache.rs"], [("usage updates at every link and unlink site", "src/util/cache.rs LRUCache")])
p("E03", "A cache key maps to at most one, the latest, value",
  "Inserting under a key that is already cached replaces the old entry, so that lookups return the most recently inserted value and an erased key stays absent, also across table growth and hash collisions.",
  ["histories"], "every sequence of inserts and erases, including colliding hashes and growth",
  "Tests use few distinct keys and never grow the table with duplicates present.",
  ["src/util/cache.rs"], [("HandleTable::{insert,find_pointer,remove,resize}", "src/util/cache.rs")])
p("E04", "Every access to a cache shard happens under that shard's lock",
  "Operations on a shared cache touch a shard's table and recency list only while holding that shard's lock, in exclusive mode whenever they modify it, and each key is always routed to the same shard.",
  ["schedules"], "every interleaving of operations from several threads",
  "The tests are single-threaded.",
  ["src/util/cache.rs"], [("ShardLRUCache methods", "src/util/cache.rs")])
# ---------------------------------------------------------------- skip list / memtable
p("K01", "Skip-list insertion links every level and loses no node",
  "Inserting a new element links it at every level of its height: at each level the predecessor's old successor becomes the new node's successor and the new node becomes the predecessor's successor; no node already in the list becomes unreachable and a refused duplicate changes nothing.",
  ["histories", "inputs"], "every sequence of insertions and every random height",
  "Heights are random, so a given test run exercises only a few level patterns; a link lost at an upper level does not show at level 0.",
  ["src/db/skip_list.rs"], [("SkipList::insert", "src/db/skip_list.rs")])
p("K02", "Iterators report validity, position and key consistently",
  "An iterator is valid exactly when it stands on an element, never on the head or tail sentinel; the key can only be read while valid, and seeking to the first or last element lands on the smallest or largest element, or on an invalid position when there is none.",
  ["histories"], "every list content and sequence of iterator moves",
  "The skip-list tests are commented out.",
  ["src/db/skip_list.rs"], [("DataIterator for Iter", "src/db/skip_list.rs")])
p("K03", "Skip-list search follows the comparator and sees every element",
  "Containment and insertion agree on the comparator's order at every level, and the elements of the list are sorted and unique after any sequence of insertions.",
  ["histories", "schedules"], "every insertion sequence",
  "Tests insert a few keys in one order.",
  ["src/db/skip_list.rs"], [("search loop of insert/contains", "src/db/skip_list.rs")])
p("M01", "Memtable entries have LevelDB's layout and fit their allocation",
  "A memtable entry is exactly varint32(user key length + 8), user key, 8-byte little-endian (sequence << 8 | type), varint32(value length), value; the memory requested for it is exactly the number of bytes written, for every key and value length.",
  ["inputs"], "every key and value length, sequence number and type",
  "No test adds to a memtable; a one-byte shortfall appears only at a varint length boundary.",
  ["src/db/mem_table.rs"], [("MemTable::add", "src/db/mem_table.rs")])
p("M02", "A lookup key is well formed and its parts are slices of it",
  "A lookup key holds varint32(user key length + 8), the user key and the 8-byte packed sequence and type, written inside the memory reserved for it; the memtable key is all of it, the internal key is everything after the length prefix, and sequence numbers above 2^56-1 are never packed silently.",
  ["inputs"], "every user key length and sequence number",
  "No test builds a lookup key.",
  ["src/db/db_format.rs"], [("LookupKey::new, internal_key, pack_sequence_and_type", "src/db/db_format.rs")])
# ---------------------------------------------------------------- arena
p("A01", "Arena allocations are disjoint, large enough and counted",
  "Each arena request returns memory of at least the requested size that overlaps no earlier allocation and stays valid until the arena is dropped; every block obtained from the system allocator is counted in the memory usage and released exactly once, when the arena is dropped.",
  ["histories", "inputs"], "every sequence of request sizes",
  "Tests make four requests; overlaps arise at block boundaries and with particular size sequences.",
  ["src/util/arena.rs"], [("allocate, allocate_aligned, allocate_fallback, allocate_new_block, Drop", "src/util/arena.rs")])
# ---------------------------------------------------------------- filters
p("B01", "The bloom filter has no false negatives",
  "A filter built over a set of keys answers that it may contain each of those keys, for every key set and every bits-per-key setting: building and querying derive the same probe positions from the same hash, modulo the same filter length, with the same probe count.",
  ["inputs", "configurations"], "every key set and bits-per-key setting",
  "Tests query at most a few thousand generated keys for one setting.",
  ["src/util/filter_policy_bloom.rs", "src/util/hash.rs"], [("create_filter_with_len, key_may_match", "src/util/filter_policy_bloom.rs")])
p("B02", "The bloom filter's false-positive rate is bounded",
  "With n bits per key the false-positive rate stays near the theoretical rate (about 1 % for 10 bits per key).",
  ["inputs"], "random key sets", "It is a statistical statement.",
  ["src/util/filter_policy_bloom.rs"], [("probe count k", "src/util/filter_policy_bloom.rs")])
p("F01", "A filter block keeps every filter and a correct offset array",
  "A finished filter block consists of the filters in order, then one 4-byte little-endian start offset per filter, then the position of the offset array and the base shift; adding an offset or finishing never overwrites filter bytes already produced, and each key added is passed once to exactly one filter.",
  ["inputs", "histories"], "every sequence of blocks and keys",
  "The filter-block test prints the result of one small case.",
  ["src/table/filter_block.rs"], [("FilterBlockBuilder", "src/table/filter_block.rs")])
# ---------------------------------------------------------------- version edit
p("V01", "A version edit records and encodes exactly what was set",
  "Each setter makes exactly its own field present; encoding writes each present field once under its own tag followed by that field's value, writes nothing for absent fields, and includes every deleted file and new file; clearing makes every field absent again.",
  ["inputs", "histories"], "every combination of fields set",
  "Tests set one field at a time; 2^5 presence combinations and lists of files are not covered.",
  ["src/db/version_edit.rs"], [("VersionEdit setters, encode_to, clear", "src/db/version_edit.rs"), ("Tag", "src/db/version_edit.rs")])
# ---------------------------------------------------------------- crc, hash
p("R01", "The checksum is CRC-32C of exactly the bytes given",
  "The checksum of a byte string is its CRC-32C (Castagnoli), whatever its length and wherever it lies in memory; extending the checksum of a prefix with the rest gives the checksum of the whole, and unmasking undoes masking for every 32-bit value.",
  ["inputs", "configurations"], "every byte string, every address alignment, every split",
  "Tests compute a few fixed vectors of one length; block, word and tail loops only meet for other lengths and alignments.",
  ["src/util/crc.rs"], [("CRC::extend, mask, unmask, tables", "src/util/crc.rs")])
p("H01", "Equal bytes hash equally, whatever type carries them",
  "The hash of a value depends only on its bytes and the seed: a slice, string, string reference, byte array or vector with the same bytes hashes to the same 32-bit value, every byte takes part, and no byte outside the value is read.",
  ["inputs"], "every byte string and seed",
  "Tests hash a few strings whose length exercises some remainders.",
  ["src/util/hash.rs"], [("ToHash impls and Hash::hash", "src/util/hash.rs")])
# ---------------------------------------------------------------- status, comparator, misc
p("T01", "Error kinds, codes and predicates stay consistent",
  "Each error kind has its own numeric code, the conversion from code to kind inverts the conversion from kind to code and rejects every other code, and each constructor and predicate concerns exactly its own kind; record types and tags likewise map to distinct codes and back.",
  ["inputs"], "every kind and every integer code",
  "Tests check some kinds; a swapped or duplicated code in the others passes.",
  ["src/util/status.rs", "src/util/options.rs", "src/db/version_edit.rs", "src/db/db_format.rs"],
  [("LevelError::{get_value,try_from,is_*}, Tag, ValueType, CompressionType", "status.rs, version_edit.rs, db_format.rs, options.rs")])
p("Q01", "Byte-string comparison is the lexicographic order everywhere",
  "Comparing two byte strings gives the lexicographic order of their unsigned bytes with a proper prefix smaller, always gives an answer, and agrees with equality and with the prefix test, for every pair of byte strings.",
  ["inputs"], "every pair of byte strings",
  "Tests compare a few ASCII strings.",
  ["src/util/comparator.rs", "src/util/slice.rs"], [("BytewiseComparator::compare, Slice eq/partial_cmp/starts_with", "comparator.rs, slice.rs")])
p("Q02", "Shortened separators and successors stay in range",
  "For start < limit the shortest separator s satisfies start <= s < limit and is no longer than start, and the short successor of a key is not smaller than the key, for every pair of byte strings including prefixes, empty strings and 0xff bytes; neither operation panics.",
  ["inputs"], "every pair of byte strings",
  "Tests check five pairs; prefix pairs and 0xff bytes panic or break the order.",
  ["src/util/comparator.rs"], [("find_shortest_separator, find_short_successor", "src/util/comparator.rs")])
p("L01", "Slice operations read and write exactly the addressed bytes",
  "Indexing, sub-slicing, prefix removal, merging and conversions of a slice address exactly the bytes named by their arguments, reading and writing agree on the same range, and an out-of-range request panics before touching memory.",
  ["inputs"], "every slice and every range",
  "Tests read a few ranges and never write through one.",
  ["src/util/slice.rs", "src/util/unsafe_slice.rs"], [("Index/IndexMut impls, as_sub_ref, remove_prefix, sub_slice, to_slice", "slice.rs, unsafe_slice.rs")])
p("N01", "The doubly linked list keeps both directions and its length consistent",
  "After any sequence of insertions and removals the list's length equals the number of elements reachable forwards and backwards, each element is owned once, and removal unlinks the element from both neighbours before freeing it.",
  ["histories"], "every sequence of operations",
  "Tests push and remove a few elements and mostly read forwards.",
  ["src/util/linked_list.rs"], [("add_*/remove_*/push/poll", "src/util/linked_list.rs")])
p("X01", "Random numbers stay in their declared ranges",
  "The generator never leaves its valid state range, uniform(n) returns a value below n, one_in and skewed stay within their documented ranges, for every seed and argument.",
  ["inputs", "histories"], "every seed and every number of draws",
  "Tests pin two draws of one seed.",
  ["src/util/random.rs"], [("Random::{create,next,uniform,skewed,one_in}", "src/util/random.rs")])
p("G01", "Histogram operations account for every sample",
  "Adding a sample updates minimum, maximum, count, sum, sum of squares and exactly one bucket, the bucket whose limits contain it, for every value; clearing resets every statistic and merging combines every statistic of both histograms.",
  ["inputs", "histories"], "every sample value and every sequence of add, clear and merge",
  "Tests add a few values; a forgotten field or a value at a bucket limit is not observed.",
  ["src/util/histogram.rs"], [("Histogram::{add,clear,merge}", "src/util/histogram.rs")])
p("J01", "A built table file is complete and synced before it is announced",
  "Building a table consumes every entry of the input iterator, reading an entry only while the iterator is valid; success is reported only after the file has been finished, synced and closed without error.",
  ["inputs", "fault_sequences"], "every iterator content and every failure of the file",
  "No test builds a table; the table builder is unfinished.",
  ["src/db/builder.rs"], [("BuildTable::build_table", "src/db/builder.rs")])
p("Z01", "Database reads return the latest preceding write",
  "Get returns the value of the latest preceding put or delete of the key, across concurrent clients, flushes and compactions.",
  ["histories", "schedules"], "every history of client calls",
  "The database operations are not implemented.",
  ["src/db/db.rs", "src/db/mem_table.rs"], [("DB trait", "src/db/db.rs (no implementation)")])
p("Z02", "A sorted table returns exactly the entries it was built from",
  "Reading a finished table through its index and blocks yields every entry that was added, in order, and nothing else.",
  ["inputs"], "every sorted sequence of entries",
  "Table reading and block building are not implemented.",
  ["src/table/table.rs", "src/table/table_builder.rs", "src/table/block_builder.rs", "src/table/format.rs"], [("TableBuilder, BlockBuilder, Table", "src/table (todo!)")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
