#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

OPS="src/trie_ops.rs"; PT="src/partial_trie.rs"; NB="src/nibbles.rs"; HS="src/trie_hashing.rs"; SB="src/trie_subsets.rs"

p("C01","A trie is an exact map from keys to values under any history",
 "After any sequence of inserts, bulk loads and deletes over keys of 0 to 64 nibbles (of mixed lengths, where one key may be a prefix of another) and non-empty values, a lookup returns exactly the last value stored under that very key and not deleted since, and nothing for every other key. A delete returns the value it removed, or nothing (leaving the trie unchanged) when the key holds no value. None of these operations panics on a trie without hash nodes, and the caching and the non-caching trie types answer alike.",
 ["histories","inputs"],"every operation sequence (insert / bulk insert / build from entries / delete / lookup), every key set of 0..=64 nibbles incl. prefix-related and odd-length keys, every non-empty value, both trie types",
 "The tests only insert (and once delete half of) random, mostly full-length keys; prefix-related keys, lookups of prefixes/extensions of stored keys, deletes that leave a branch value behind, and interleavings are not sampled.",
 [OPS,PT],[("recursive insert with node splitting","src/trie_ops.rs:insert_into_trie_rec"),("recursive delete with branch/extension collapsing","src/trie_ops.rs:delete_intern, collapse_ext_node_if_needed"),("lookup","src/trie_ops.rs:trie_get_intern")],
 ["PartialTrie::get","PartialTrie::insert","PartialTrie::extend","PartialTrie::delete","FromIterator"])

p("C02","The root hash is the Ethereum MPT root of the contents",
 "For every history of inserts and deletes, the hash reported for a trie equals the Merkle Patricia root that the Ethereum yellow paper defines for the current key/value contents, whatever the key lengths, value lengths or order of operations. The same holds for every sub-trie: its hash is the Keccak-256 of its RLP node encoding, and children are inlined exactly when that encoding is shorter than 32 bytes. Both trie types report the same hash.",
 ["histories","inputs"],"every contents map and history leading to it; every value length (RLP length-form boundaries, 32-byte inlining boundary) and node shape; both trie types",
 "Hash tests compare against another library on three fixed seeds of random 32-byte values with long keys, so inlined nodes, branch values, short/odd keys, long RLP strings and delete-produced shapes are essentially never hashed.",
 [HS,PT,OPS,NB],[("RLP node encoding and size-dependent hashing","src/trie_hashing.rs:rlp_encode_and_hash_node"),("hex-prefix path encoding","src/nibbles.rs:to_hex_prefix_encoding"),("structure-normalising delete","src/trie_ops.rs:delete_intern")],
 ["PartialTrie::hash on the root and on every node"])

p("C03","A cached hash is never stale",
 "In a hash-caching trie, the hash reported at any moment equals the hash of the trie's contents at that moment, no matter how hash requests, inserts, deletes, direct node edits, cloning, subset extraction, and serialisation were interleaved before. Asking for a hash never changes the contents, and asking twice gives the same answer.",
 ["histories"],"every interleaving of hash queries (whole trie, sub-tries, subset creation) with mutations on the trie and on its clones",
 "Tests hash a trie after straight-line inserts/deletes only; no test mutates one of several clones after a hash was cached, or edits a node after hashing.",
 [PT,HS,SB],[("per-node lazily filled hash cache, shared on clone","src/partial_trie.rs:HashedPartialTrie"),("cache invalidation on mutation","src/partial_trie.rs:insert/extend/delete"),("fresh cache for rebuilt nodes","src/partial_trie.rs:From<Node> for WrappedNode")],
 ["PartialTrie::hash","create_trie_subset"],
 [dict(name="hash cache",meaning="Some(h) only if h is the hash of this node's current contents",where="src/partial_trie.rs:HashedPartialTrie.hash")])

p("C04","Clones and held sub-tries are isolated snapshots",
 "A clone of a trie, or a sub-trie handle taken from it, keeps its contents, structure, enumeration and hash forever, whatever is later done to the original, to other clones, or to itself's siblings. Mutating one handle affects the observable behaviour of that handle only.",
 ["histories"],"every tree of clones with arbitrary mutations, hash requests and subset extractions applied to any of the handles in any order",
 "One test clones after each of 500 inserts and compares contents; it never mutates two clones, never deletes, never uses the caching type and never compares hashes.",
 [PT,OPS],[("copy-on-write nodes behind shared pointers","src/trie_ops.rs:insert_into_trie_rec, delete_intern"),("replace-root on mutation","src/trie_ops.rs:trie_insert, trie_delete")],
 ["Clone, PartialTrie::get/items/hash/== on every live handle"])

p("C05","Enumeration lists exactly the stored entries, each once, in order",
 "Enumerating a trie yields every stored key with its value, and every hash node with the key prefix at which it sits and its hash, each exactly once and nothing else; the key-only and value-only enumerations are the two projections of it in the same order. Entries come in ascending nibble order of their keys, except that the value stored at a key comes after all entries whose keys extend it. Building a new trie from the enumerated entries gives a trie equal to the original. Any number of enumerations of the same trie can run side by side, be abandoned half-way and be started again without disturbing each other, and one that is over stays over.",
 ["inputs","histories"],"every trie reachable by inserts/deletes, with or without hash nodes, every key shape",
 "Enumeration is tested as a set on one random key set without prefix-related short keys and without hash nodes below extensions after deletes; order and exact multiplicity are never checked.",
 [OPS],[("explicit-stack depth-first iterator with key bookkeeping","src/trie_ops.rs:PartialTrieIter")],
 ["PartialTrie::items","PartialTrie::keys","PartialTrie::values","FromIterator"])

p("C06","Equal contents mean equal tries, whatever the history",
 "Two tries that hold the same entries compare equal and have the same node structure and hash however they were reached: any insertion order, overwrites, bulk loading, and inserts that were later undone by deletes leave no trace. Two tries that differ in any entry compare unequal. Every reachable trie is in canonical form: no extension leads to a leaf, an extension or an empty node, and every branch holds at least two entries (children or its own value).",
 ["histories"],"every pair of histories ending in the same (or minimally different) contents",
 "Only self-equality and inequality of two unrelated 100k-entry tries are tested; permutation/undo invariance and post-delete canonical shape are not.",
 [OPS,PT],[("node splitting on insert","src/trie_ops.rs:place_branch_and_potentially_ext_prefix"),("collapsing on delete","src/trie_ops.rs:delete_intern, try_collapse_if_extension"),("structural equality","src/partial_trie.rs:PartialEq for Node")],
 ["== on tries","public node structure","PartialTrie::hash"])

p("C07","Hash nodes can stand in for any large sub-trie",
 "If any set of disjoint sub-tries whose node encodings are at least 32 bytes is replaced by hash nodes holding their hashes, the root hash does not change and all entries outside the replaced parts are still found and enumerated, while lookups inside them find nothing. The same partial trie results from inserting the remaining entries and the hashes, each hash under the key prefix of the replaced node, in any order.",
 ["inputs","histories"],"every trie, every antichain of replaceable nodes (branches, extensions, leaves, the root), every insertion order of the mixed entries",
 "Two tests replace fixed root children of a wide branch; nodes below extensions, leaves, nodes next to branch values and rebuilding through inserts in different orders are not covered.",
 [OPS,HS,PT],[("hash node encoding","src/trie_hashing.rs:rlp_encode_and_hash_node, append_to_stream"),("hash entries placed behind extensions","src/trie_ops.rs:create_node_from_insert_val")],
 ["PartialTrie::hash/get/items on the replaced trie","PartialTrie::insert with a hash"])

p("C08","A subset trie keeps the root hash and answers for its keys",
 "For every trie and every collection of keys (present or absent, of any length from 0 to 64 nibbles, in any order, with repeats), extracting a subset succeeds unless a key runs into a hashed-out part, and the subset has the root hash of the original. A lookup of each requested key in the subset gives the same answer as in the original, inserting or deleting a requested key never runs into a hash node, and for any other key the subset gives either the original answer or none. Extraction leaves the original unchanged.",
 ["inputs"],"every base trie (with or without hash nodes) and key collection, both trie types",
 "Subset tests use keys that exist and random full-length keys (or a hand-made trie of five keys); absent keys ending inside an extension, keys shorter than a path, key prefixes and small inlined nodes are not covered.",
 [SB],[("touched-node marking along the lookup path","src/trie_subsets.rs:mark_nodes_that_are_needed"),("rebuild with hash nodes","src/trie_subsets.rs:create_partial_trie_subset_from_tracked_trie")],
 ["create_trie_subset","PartialTrie::get/hash on the result"])

p("C09","A subset trie keeps exactly the nodes it needs",
 "In an extracted subset, every node visited when looking up a requested key is present unchanged, and every other node is hidden: the topmost unvisited node of each unvisited region is replaced by a single hash node carrying its hash whenever its encoding is at least 32 bytes. Nodes whose encoding is shorter stay in the trie as they are, and existing hash nodes are preserved.",
 ["inputs"],"every base trie and key collection",
 "A single hand-made trie checks which nodes remain; the size rule, values in branches, mismatching extensions/leaves and pre-existing hash nodes are unchecked.",
 [SB,HS],[("touched flag and size-dependent replacement","src/trie_subsets.rs:create_partial_trie_subset_from_tracked_trie"),("marking","src/trie_subsets.rs:mark_nodes_that_are_needed")],
 ["public node structure of the result"])

p("C10","Batch subset extraction equals extracting each subset alone",
 "Extracting several subsets of one trie in a single call gives, position by position, the same tries as extracting each key collection separately, whatever the number, order, overlap or emptiness of the collections. It fails exactly when at least one of the separate extractions fails, and leaves the base trie unchanged.",
 ["inputs","histories"],"every base trie and every list of key collections",
 "The batch test checks only that requested leaves are present and hashes agree, which also holds when later subsets keep leftovers of earlier ones.",
 [SB],[("shared tracking tree, reset between key sets","src/trie_subsets.rs:create_trie_subsets, reset_tracked_trie_state")],
 ["create_trie_subsets vs create_trie_subset"],
 [dict(name="touched flags",meaning="true iff visited by a key of the current collection",where="src/trie_subsets.rs:TrackedNodeInfo.touched")])

p("C11","Updating a subset trie gives the same root as updating the full trie",
 "Take any full trie, extract a subset for a collection of keys, and apply the same inserts, overwrites, deletes and lookups of those keys to both: every operation returns the same result on both, and after every operation both tries have the same root hash. The only exception is a delete that would leave a hashed-out node as the sole remaining entry of a branch, which the partial trie does not have the data for.",
 ["histories","inputs"],"every full trie, key collection and operation sequence over these keys",
 "No test mutates a subset trie at all; the purpose of the library (replaying a block on a partial trie) is exercised only by downstream users.",
 [SB,OPS,HS],[("subset extraction","src/trie_subsets.rs"),("insert/delete next to hash nodes","src/trie_ops.rs:insert_into_trie_rec, collapse_ext_node_if_needed")],
 ["PartialTrie::insert/delete/get/hash on subset and full trie in lock-step"])

p("C12","Hashed-out parts are never silently read or changed",
 "A lookup of a key at or below a hash node finds nothing; an insert or delete of a key at or below a hash node, and the insert of a hash under a key where the trie already has a value, hash or node, is refused by a panic and leaves the trie exactly as it was. Requesting a subset for a key that continues below a hash node returns an error, while one that ends exactly at it succeeds. Operations whose key path does not reach a hash node are never refused.",
 ["inputs","histories"],"every partial trie, every key relative to its hash nodes (above, at, below, beside), every operation kind",
 "One test asks for a subset of a root hash node; refusal of inserts/deletes, the unchanged-after-refusal guarantee and keys beside or above hash nodes are untested.",
 [OPS,SB],[("panic on hash traversal","src/trie_ops.rs:insert_into_trie_rec, delete_intern"),("panic on placing a hash over a node","src/trie_ops.rs:create_node_if_ins_val_not_hash"),("error on hash traversal","src/trie_subsets.rs:mark_nodes_that_are_needed")],
 ["PartialTrie::get/insert/delete","create_trie_subset"])

p("C13","Nibble sequences behave as sequences of at most 64 nibbles",
 "Every operation on a nibble sequence (indexing, ranges, popping, pushing, truncating, splitting, merging, reversing, finding the first difference, comparing a common prefix, emptiness) gives the result of the same operation on a plain list of nibbles, for every content, length 0 to 64 and argument in range, and every result can be used in further operations. Truncating by more than the length gives the empty sequence, and taking nibbles from the back yields them last-first. Two sequences are equal, and hash equally, exactly when they list the same nibbles: leading zeros count.",
 ["inputs","histories"],"every nibble sequence of length 0..=64, every in-range argument, every chain of operations",
 "Tests use the four-nibble value 0x1234 almost exclusively; leading zeros, lengths near 16/32/64 (word boundaries of the packed form) and chained operations are not sampled.",
 [NB],[("packed 512-bit representation with masks and shifts","src/nibbles.rs:Nibbles"),("mask construction","src/utils.rs:create_mask_of_1s")],
 ["public Nibbles methods"],
 [dict(name="count/packed",meaning="only the low 4*count bits are used, the rest are zero",where="src/nibbles.rs:Nibbles")])

p("C14","Key conversions are exact and reversible",
 "Converting integers, big- or little-endian byte strings, 256-bit hashes and hex strings to nibble sequences yields exactly the nibbles of the source: integers without leading zeros (or padded to whole bytes on request), bytes and hashes with two nibbles per byte, hex strings with one nibble per digit including leading zeros. Formatting a sequence as hex (lower, upper, default) and parsing it back, converting it to big-endian bytes, and converting it to a 256-bit integer give back the same nibbles. The number of nibbles reported for an integer is that of its hex form without leading zeros. Empty or over-long (more than 33 bytes) byte strings and strings that are not hex are rejected with an error, never a panic.",
 ["inputs"],"every integer of each supported width, every byte string, every 256-bit hash, every string",
 "Tests check a handful of constants (0x1234, 2048, 0); odd digit counts, leading zeros in every position, each integer width, little-endian input and malformed strings are not covered.",
 [NB],[("integer conversion via leading zeros","src/nibbles.rs:impl_to_nibbles"),("byte and hash conversion","src/nibbles.rs:from_bytes, from_h256_common"),("hex parsing and printing","src/nibbles.rs:FromStr, as_hex_str"),("bytes out","src/nibbles.rs:bytes_be, try_into_u256")],
 ["Nibbles::from / from_bytes_be / from_bytes_le / from_h256_be / from_h256_le / FromStr / Display / LowerHex / UpperHex / bytes_be / try_into_u256, ToNibbles"])

p("C15","Hex-prefix encoding is the yellow-paper encoding and decodes back",
 "Hex-prefix encoding of every nibble sequence of 0 to 64 nibbles, with or without the leaf flag, is the byte string the yellow paper defines. Decoding an encoding made without the leaf flag gives back the original sequence, and decoding one made with it gives the original sequence followed by the two terminator nibbles 1,0. Decoding any byte string never panics: it is rejected with an error if it is empty, longer than 33 bytes, or starts with an unknown flag nibble, and accepted otherwise.",
 ["inputs"],"every nibble sequence, both flags, every byte string",
 "Encoding is tested for 0x1234 and 0x12345, decoding for five constants; empty and full-length sequences, leading zeros and arbitrary byte strings are untested.",
 [NB],[("encoder","src/nibbles.rs:to_hex_prefix_encoding"),("decoder","src/nibbles.rs:from_hex_prefix_encoding")],
 ["Nibbles::to_hex_prefix_encoding","Nibbles::from_hex_prefix_encoding"])

p("C16","Out-of-range nibble operations are refused",
 "Reading, popping, ranging or splitting beyond the end of a nibble sequence, pushing or merging beyond 64 nibbles, using a nibble value above 15, and comparing sequences of different length where equal length is required, always panic instead of returning a wrong sequence, in builds with and without overflow checks. A refused in-place operation leaves the sequence unchanged.",
 ["inputs","configurations"],"every nibble sequence of 0..=64 nibbles and every out-of-range argument, checked and unchecked builds",
 "Two should_panic tests check one argument each in the debug build only; release builds, where unsigned underflow wraps silently, are never exercised.",
 [NB],[("bounds assertions","src/nibbles.rs:nibble_append_safety_asserts, merge_nibbles, push_nibbles_front, get_nibble, get_nibble_range, split_at_idx*")],
 ["public Nibbles methods with documented panics"])

p("C17","Values are stored as the exact bytes of what was inserted",
 "A byte string or slice inserted as a value is stored and returned byte for byte; an unsigned integer inserted as a value is stored as its full-width big-endian bytes (1, 2, 4, 8, 16, 32 or 64 bytes by type); a 256-bit hash inserted as a value becomes a hash node. Casting an entry back to a value or hash returns it exactly, and casting to the wrong kind panics.",
 ["inputs"],"every value of every supported integer type, every byte string, every hash",
 "No test inserts anything but byte vectors and hashes; integer values are never converted.",
 [OPS],[("integer-to-value conversions","src/trie_ops.rs:impl_eth_type_from_for_val_variant, impl_prim_int_from_for_val_variant"),("casts","src/trie_ops.rs:ValOrHash::expect_val/expect_hash")],
 ["From conversions into ValOrHash","PartialTrie::insert/get/items"])

p("C18","Serialisation round-trips tries and keys",
 "Serialising any key, node or trie of either type and deserialising it again, through a self-describing or a compact binary format, gives back an equal value with the same entries, lookups, structure and hash, also when hashes had been cached before. The restored trie behaves like the original under further inserts and deletes and shares no state with it.",
 ["inputs","histories"],"every trie (with hash nodes, with and without cached hashes), both trie types, JSON and a binary format, any continuation",
 "There is no serialisation test at all.",
 [PT,NB],[("derived serde implementations including the hash cache","src/partial_trie.rs:HashedPartialTrie, Node, StandardTrie"),("derived serde for keys","src/nibbles.rs:Nibbles")],
 ["serde Serialize/Deserialize"])

p("C19","Trie diffs report a real difference exactly when there is one",
 "Diffing two tries never panics; it reports no difference exactly when the root hashes agree. A reported point names a key prefix under which both tries have a node and these two nodes really differ, and its description of each side (node type, full key, value, hash) is what that trie has there. If somewhere along a common path the tries hold nodes of different type or different key piece, such a structural difference is reported rather than a mere value difference. Of several differences of the reported kind, one with the longest key prefix is reported.",
 ["inputs"],"every pair of tries, equal, slightly different or unrelated, with and without hash nodes",
 "One test compares two single-leaf tries; all other diff tests are unimplemented and ignored.",
 ["src/debug_tools/diff.rs","src/debug_tools/common.rs"],[("lock-step descent with hash comparison","src/debug_tools/diff.rs:find_latest_diff_point_between_tries_rec"),("difference selection","src/debug_tools/diff.rs:DepthNodeDiffState")],
 ["create_diff_between_tries, its fields and printed form"])

p("C20","Path queries report the true lookup path",
 "For every trie and key, a path query never panics, lists from the root on exactly the nodes that a lookup of this key visits, with their types and key pieces, and reports the key as found exactly when a lookup finds a value or the key ends exactly at a hash node. With extra information switched on, it shows the occupied child slots of each branch, the value of a leaf and the hash of a hash node; switches that are off remove just their part.",
 ["inputs"],"every trie, every key (present, absent, prefix of a stored key, running into hash nodes), all output switches",
 "There is no test of path queries (the test module is empty).",
 ["src/debug_tools/query.rs","src/debug_tools/common.rs"],[("recursive descent consuming the key","src/debug_tools/query.rs:get_path_from_query_rec"),("printing","src/debug_tools/query.rs:Display for DebugQueryOutput")],
 ["get_path_from_query and its printed form"])

p("C21","Trie statistics count the nodes that are there",
 "The statistics of a trie give the exact number of empty, hash, branch, extension and leaf nodes in it, the depth of the deepest leaf or hash node, and the average depths of leaves and of hash nodes (depth counted in nodes from the root). Comparing two statistics reports both sides' figures, in order, and their ratio as a percentage; each count is printed with its share of all nodes.",
 ["inputs"],"every trie with and without hash nodes; every pair of tries",
 "One hand-made trie and two leaf/hash totals are checked; depths, extension counts in other shapes and comparisons are not (the depth test is an ignored stub).",
 ["src/debug_tools/stats.rs"],[("recursive counting","src/debug_tools/stats.rs:get_trie_stats_rec"),("comparison and printing","src/debug_tools/stats.rs:compare, Display")],
 ["get_trie_stats / get_trie_stats_with_name / compare, printed form"])

p("C22","Diff points carry their true place",
 "The depth of a reported difference between two tries is the number of nodes above it (0 at the root), and its path lists exactly these nodes from the root on: each branch with the child slot taken and each extension with its nibbles, the same for every kind of node that differs. Both appear in the printed form.",
 ["inputs"],"every pair of tries that differ, at every depth, with and without hash nodes",
 "The only diff test compares two single-leaf tries, where depth is 0 and the path is empty.",
 ["src/debug_tools/diff.rs","src/debug_tools/common.rs"],[("depth and path per recursive call","src/debug_tools/diff.rs:DepthDiffPerCallState"),("path segments and their printing","src/debug_tools/common.rs:NodePath, PathSegment")],
 ["create_diff_between_tries: DiffPoint.depth, DiffPoint.path, printed form"])

p("C23","Errors name what was refused",
 "A refused byte string is reported with its actual length; a refused hex-prefix encoding is reported as empty, with its actual flag nibble, or with its actual bytes and length; a refused subset extraction is reported with the complete key, of those requested, that runs below a hash node, the first one in request order. This holds for the fields of the error and for its message.",
 ["inputs"],"every byte string, every hex-prefix encoding, every partial trie and every list of requested keys, single and batch extraction",
 "The tests check the kind of an error at most, never the details it carries.",
 [NB,"src/trie_subsets.rs"],[("error values and messages","src/nibbles.rs:BytesToNibblesError, FromHexPrefixError"),("subset error","src/trie_subsets.rs:SubsetTrieError, mark_nodes_that_are_needed")],
 ["fields and Display of the public error types"])

p("C24","Tries can be shared between threads",
 "Several threads may at the same time hash, look up, enumerate and take subsets of one shared trie and mutate and hash their own clones of it: every answer is the one that a single thread would get, every hash is the right one also while another thread is computing it for the first time, and the shared trie is unchanged afterwards.",
 ["inputs","histories","schedules"],"every trie, both types, 2 to 4 threads, any mix of reads of the shared trie and mutations of own clones, under the schedules that occur",
 "No test uses a thread, although the tries are Send and Sync and share their nodes and hash caches.",
 [PT],[("hash cache behind a lock","src/partial_trie.rs:HashedPartialTrie"),("shared children","src/partial_trie.rs:WrappedNode")],
 ["PartialTrie::hash/get/items/insert/delete, Clone, create_trie_subset from several threads"])

p("C25","Logging changes nothing",
 "The library writes log records through the `log` facade. Whatever logger is installed and whatever level it asks for, every operation (building, inserting, looking up, deleting, hashing, enumerating, comparing, subset extraction, path queries, statistics, diffs) has the same outcome as with logging off: the same results, the same refusals, the same node structure and hashes; producing a record never panics and never changes the trie.",
 ["configurations","histories"],"every trie with or without hash nodes, every list of operations including refused ones, every log level, a logger that formats each record",
 "The test suite installs a logger only in a few tests and only at the default level, so the arguments of trace records are hardly ever evaluated or formatted.",
 [OPS],[("trace records on every traversal step","src/trie_ops.rs:trie_insert, insert_into_trie_rec, trie_get_intern, trie_delete, delete_intern, try_collapse_if_extension")],
 ["outcomes of all public operations with log level off and with levels error to trace"])

p("C26","A failure of the writer is passed on when printing",
 "When a trie diff, a point of difference, a node path, a node description, a path query result, trie statistics, a comparison of statistics, a nibble sequence (plain, debug, lower and upper hex) or an error is printed into a writer that reports a failure for some piece of the text, printing reports the failure, whichever piece it was and whether or not the writer accepts later pieces; if the writer does not fail, printing does not either, and printing the same value again gives the same text.",
 ["inputs","fault_sequences"],"every printable value of the library over every trie pair, key and set of output switches; one failing write at any position, all writes failing from a position on, a writer that is full",
 "Tests print into strings only, which never fail.",
 ["src/debug_tools/diff.rs","src/debug_tools/query.rs","src/debug_tools/stats.rs","src/debug_tools/common.rs",NB],[("Display implementations","src/debug_tools/*.rs, src/nibbles.rs")],
 ["fmt::Result of write! with the library's values"])

p("C27","Tries put together from nodes are as good as any other",
 "A trie that a caller puts together from public node values, by any of the constructors and conversions (the trait's constructor, From<Node>, wrapping a node, assigning through a mutable dereference) or out of sub-tries taken from other tries, hashed before or not, equals the trie built by inserting the same entries, has the same hash, answers, enumeration and subsets, and goes on like it under further operations. This also holds if one and the same sub-trie object occurs in several places of the trie or in several tries; the pieces themselves stay as they were.",
 ["inputs","histories"],"every set of entries with or without hash entries, every way of making each node, equal sub-tries shared or not, every continuation",
 "Tests build tries by inserts, or by hand from a few nodes that they then only compare or hash; no test uses one node object in two places.",
 [PT,OPS],[("conversions of nodes","src/partial_trie.rs:impl_from_for_trie_type, From<Node<N>> for WrappedNode, PartialTrie::new"),("traversal of shared children","src/trie_ops.rs, src/trie_hashing.rs, src/trie_subsets.rs")],
 ["equality, hash, get, items, insert, delete, create_trie_subset on assembled tries and on their pieces"])

p("C28","An operation stopped half-way leaves a sound trie",
 "If a bulk or single insert, or an extraction of subsets, is stopped by a panic (of the caller's iterator, of the conversion of a key or value, or because an entry is refused), the trie is still sound: every key has the entry it had before or one handed over before the stop, nothing else is gained or lost, structure, hash, enumeration and lookups agree with these entries, clones made before are unchanged, and the trie can be used further. An extraction that is stopped leaves the trie unchanged. A stop is always passed on to the caller.",
 ["inputs","histories"],"every trie with or without cached hashes, every list of entries and place of the stop, both trie types, any continuation",
 "No test interrupts an operation.",
 [PT,OPS,"src/trie_subsets.rs"],[("bulk insert","src/partial_trie.rs:extend, src/trie_ops.rs:trie_extend, trie_insert"),("extraction","src/trie_subsets.rs:create_trie_subset_intern")],
 ["state after extend, insert, create_trie_subset, create_trie_subsets unwound by a panic"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
