import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Ordered-map semantics of get, put and del",
"After any sequence of puts and deletes, a get returns the value of the latest put of exactly that key (an absent value and an empty value stay distinct) together with that put's sequence number, and nothing for a key never put or deleted since. A put reports the sequence number it replaced (if any) and its own, which is the index of the block it appended; a delete reports the sequence number of the entry it removed, or nothing if the key is absent. This holds for arbitrary byte-string keys and values (empty, containing 0x00 or 0xFF, prefixes of one another, long) and for trees of any height.",
["inputs","histories"],"every finite sequence of put/get/del over arbitrary byte strings, at every tree height",
"The unit tests put and delete about 100 short decimal keys; empty keys, prefix-related keys, tall trees, mixed long histories and absent-versus-empty values are never combined.",
["src/put.rs","src/del.rs","src/tree.rs","src/lib.rs","src/blocks.rs"],
[("binary search in a node and descent to the nearest leaf","src/lib.rs get_index_of_key, nearest_node"),("insert with node split","src/put.rs Tree::put_compare_and_swap, Node::split"),("delete with replacement, rotation and merge","src/del.rs Tree::del_compare_and_swap, repair")],
["return values of Hyperbee::get/put/del","the blocks in the underlying core"])

p("C02","Compare-and-swap: the predicate decides, once, on current data",
"A conditional put calls its predicate exactly once with the current entry for the key (nothing if absent) and the entry that would be written, and stores it only if the predicate returns true; a conditional delete calls its predicate exactly once with the current entry if the key is present and not at all if it is absent, and removes it only on true. When the predicate returns false nothing observable changes (an empty log may gain its header) and the result reports the current entry's sequence number and that nothing was written or deleted. A predicate that panics has the effect of one that rejects, except that the panic reaches the caller: the tree and all its handles stay usable. Plain put and del behave like the conditional ones with a predicate that always accepts.",
["inputs","histories"],"every interleaved history of conditional and plain operations, with arbitrary predicates, on present, absent, replaced and deleted keys at any tree height",
"test_cas and test_del_compare_and_swap exercise one key in a one-node tree and never look at the data handed to the predicate.",
["src/put.rs","src/del.rs","src/hb.rs","src/prefixed.rs"],
[("predicate called before any change","src/put.rs Tree::put_compare_and_swap; src/del.rs Tree::del_compare_and_swap")],
["predicate arguments and call counts","return values","log length and content before and after"])

p("C03","The stored tree is always a well-formed B-tree",
"After every successful mutation the tree stored in the log is a valid B-tree: keys strictly increasing in order, every node except the root holds 4 to 8 keys, an inner node has exactly one more child than keys, all leaves are at the same depth, every reference resolves to an earlier or the same block, and every entry of the map occurs exactly once. A mutation rewrites only nodes on the path it touches and their siblings, so a block carries a number of nodes bounded by a small multiple of the height, all of them reachable from the new root.",
["inputs","histories"],"every tree reachable by any history of puts and deletes",
"The unit tests' check_tree walks trees of at most 100 keys in memory and checks neither the serialized form, minimum fill, uniform depth nor unreachable nodes.",
["src/put.rs","src/del.rs","src/blocks.rs","src/changes.rs","src/lib.rs"],
[("split at the median","src/put.rs Node::split"),("rotation and merge","src/del.rs Side::maybe_rotate, Side::maybe_merge, repair"),("reference update up to the root","src/put.rs propagate_changes_up_tree")],
["decoded blocks of the core after every append"])

p("C04","Append-only history: one block per mutation, old versions intact",
"Every successful put or delete appends exactly one block (the very first write also appends the header before it), no read, no rejected conditional operation and no delete of an absent key appends anything to a log that has its header, and no existing block ever changes. The version equals the number of blocks. Opening the first n blocks of the log at any later time yields exactly the map as it was after the mutation that wrote block n-1.",
["histories","inputs"],"every history and every version n of it",
"No test looks at more than the newest version or counts appended blocks.",
["src/tree.rs","src/put.rs","src/del.rs","src/blocks.rs"],
[("header written before the first mutation","src/tree.rs Tree::get_root, Tree::ensure_header"),("one append per committed change set","src/blocks.rs Blocks::add_changes"),("no-op paths return before any append","src/del.rs Tree::del_compare_and_swap")],
["appends received by the core","contents of a second handle opened on a prefix of the log"])

p("C05","Same bytes in the log as the JavaScript implementation",
"For any sequence of puts and deletes the log is byte for byte the one the JavaScript Hyperbee writes for it: the same header, and per mutation the same key, value and index of nodes in the same order, encoded with the same schema. In particular splits, the choice of replacement key, the order of preference among rotations and merges, and the numbering of nodes inside a block are those of the JavaScript implementation. A delete records the deleted key and no value.",
["inputs","histories"],"every sequence of puts (with or without value) and deletes",
"The comparison with JavaScript in tests/ needs node, npm and network and covers a handful of key sequences.",
["src/blocks.rs","src/put.rs","src/del.rs","src/tree.rs","src/schema.proto"],
[("depth-first numbering of new nodes","src/blocks.rs reorder_nodes"),("order of repairs","src/del.rs repair_one"),("replacement key choice","src/del.rs replace_removed_internal_key_with_a_key_from_leaf")],
["raw blocks appended to the core"])

p("C06","Logs written elsewhere can be read and extended",
"A valid Hyperbee log written by another implementation, including logs with header metadata, batches whose intermediate blocks carry no tree and trees laid out in any valid way, opens with exactly the map it stores: get and traverse return each entry with its sequence number. Further puts and deletes on it behave as on a log written here and keep every earlier version readable.",
["inputs","histories"],"every well-formed log, not only those this implementation produces, followed by any history of operations",
"Tests open only logs this crate wrote itself (or, with node and network, one JavaScript-written directory).",
["src/blocks.rs","src/tree.rs","src/lib.rs","src/schema.proto"],
[("decoding of blocks","src/blocks.rs make_node_vec, BlockEntry::new"),("root is node 0 of the last block","src/tree.rs Tree::get_root")],
["results of get/traverse on handles opened over synthesized logs"])

p("C07","Range traversal is exact, ordered and complete",
"A traversal yields exactly the entries whose key lies within the configured bounds (each bound finite or infinite, inclusive or exclusive), each once, with its current value and sequence number, in ascending key order, or descending when reversed, and then ends. This holds wherever the bounds fall relative to stored keys and nodes (equal to a stored key in a leaf or an inner node, between, below or above all keys, bounds that admit nothing) and for trees of any height.",
["inputs","configurations"],"every tree and every traversal configuration",
"The tests traverse one ten-key tree with bounds 3 and 7 and two or three other values.",
["src/traverse.rs","src/keys.rs","src/tree.rs"],
[("start index of each node's iterator","src/traverse.rs make_child_key_index_iter"),("bounds test","src/traverse.rs TraverseConfig::in_bounds"),("stream state machine","src/traverse.rs Traverse::poll_next"),("infinite keys compare beyond every key","src/keys.rs")],
["items yielded by Hyperbee::traverse"])

p("C08","Traversal configurations are validated exactly",
"Building a traversal configuration succeeds if and only if its explicitly given bounds can admit a key: it fails when both bounds are given and the minimum exceeds the maximum, or they are equal finite values and either is exclusive, or the minimum is positive infinity or the maximum negative infinity; every other combination builds, including explicit infinite bounds that equal the defaults. When fewer than both bounds are given it always builds, with negative infinity, positive infinity, inclusive and not reversed as defaults, and the built configuration carries exactly the given settings.",
["inputs","configurations"],"every combination of bounds, inclusiveness and direction, given or left out",
"The tests try four failing and a dozen passing combinations and no explicit infinite bound together with another.",
["src/traverse.rs"],
[("builder validation","src/traverse.rs validate_traverse_config_builder"),("defaults","src/traverse.rs TraverseConfig, impl Default")],
["result of TraverseConfigBuilder::build and fields of the configuration"])

p("C09","A traversal sees one version, whatever is written meanwhile",
"A traversal yields exactly the entries of the version that was current when it was created, no matter which puts and deletes (successful or failed) happen between or during its steps and no matter how many traversals are open at once. Concurrent writes never make it panic, end early, repeat or skip entries.",
["schedules","histories"],"every interleaving of traversal steps with writes through the same or another handle",
"No test writes while a traversal is open.",
["src/traverse.rs","src/blocks.rs","src/lib.rs","src/put.rs","src/del.rs"],
[("traversal holds its root node","src/traverse.rs Traverse::new"),("nodes handed out by the block cache are private copies","src/blocks.rs BlockEntry::get_tree_node")],
["items yielded by streams interleaved with writes"])

p("C10","Sub-trees are isolated key spaces",
"An operation with key k on a sub-tree with prefix p and separator s has exactly the effect and result of the same operation with key p+s+k on the whole tree, for get, put, del and their conditional forms and for any prefix, separator and key including empty ones. It therefore never touches or sees an entry whose key does not start with p+s, and any number of sub-trees and the whole tree can be used together.",
["inputs","histories","configurations"],"every prefix, separator and key, every interleaving of operations on several sub-trees and the whole tree",
"The tests use one prefix with the default separator and one key.",
["src/prefixed.rs","src/hb.rs"],
[("key prefixing","src/prefixed.rs with_key_prefix")],
["results of Prefixed operations compared with the same operations on the whole tree"])

p("C11","Sub-tree traversal yields exactly the sub-tree's entries",
"Traversing a sub-tree yields exactly the entries whose full key starts with prefix and separator and whose remainder lies within the given bounds, in order (or reversed), each with prefix and separator stripped and with its value and sequence number. It never yields, strips or panics on a foreign key, whatever keys exist next to the sub-tree and whatever bytes prefix and separator consist of, including empty ones and ones ending in 0xFF.",
["inputs","configurations"],"every tree, prefix, separator and traversal configuration",
"The tests traverse one sub-tree with a handful of keys and no hostile neighbours.",
["src/prefixed.rs","src/traverse.rs"],
[("translation of bounds","src/prefixed.rs Prefixed::traverse, increment_bytes"),("prefix stripping","src/prefixed.rs Prefixed::traverse")],
["items yielded by Prefixed::traverse"])

p("C12","Concurrent operations are linearizable",
"Any number of tasks or threads using one tree through any mix of shared handles and sub-trees observe results explained by some order of the operations that respects real time: no acknowledged write is lost, a conditional operation is atomic with its predicate, sequence numbers are unique, and the header is written once. After they finish the log holds exactly one block per successful mutation and replays to the final map.",
["schedules","histories"],"every interleaving of concurrent gets, puts, deletes, conditional operations and traversals at every suspension point",
"Every test is sequential.",
["src/tree.rs","src/put.rs","src/del.rs","src/hb.rs","src/prefixed.rs"],
[("mutations of a tree are serialized","src/tree.rs Tree; src/put.rs; src/del.rs"),("header check and append","src/tree.rs Tree::create_header")],
["call and return events of every operation","the blocks of the core in append order"])

p("C13","A failed operation has no effect",
"When an operation returns an error because the storage failed at any point, the map observed afterwards through the same handle, open traversals and a fresh handle is the one before the operation (or, if the append itself had taken effect before the failure was reported, the one after it), the log has no other block than possibly the header or that one, and retrying once the storage works succeeds normally. Storage errors reach the caller as errors, never as a missing key, a wrong value or a panic.",
["fault_sequences","histories"],"every operation, every storage access within it, every kind of failure there, and every sequence of such failures",
"No test injects a storage failure.",
["src/put.rs","src/del.rs","src/blocks.rs","src/tree.rs","src/traverse.rs"],
[("changes are made on private copies until the append","src/blocks.rs BlockEntry::get_tree_node, Blocks::add_changes"),("only decoded blocks enter the cache","src/blocks.rs Blocks::get")],
["results under injected faults","the map through the same and a fresh handle","the log"])

p("C14","Cancelling an operation at any point is safe",
"Dropping the future of any operation at any suspension point leaves the tree usable: the operation has either taken effect completely or not at all, later operations through the same or other handles neither hang nor fail nor see a partial change, and the log stays well-formed.",
["schedules","histories"],"every operation and every suspension point at which its future can be dropped, also while other operations run",
"No test drops a future that is not finished.",
["src/put.rs","src/del.rs","src/tree.rs","src/blocks.rs"],
[("locks are released by drop","src/tree.rs, src/put.rs, src/del.rs"),("changes are made on private copies until the append","src/blocks.rs")],
["state of tree and log after dropping a future at its k-th suspension"])

p("C15","Every acknowledged write survives reopening and crashes",
"Reopening a tree from its storage directory or core gives the same version and the same map, with the same sequence numbers and values, and further operations continue as if it had never been closed, including a tree that is empty or holds only its header. After a crash at any point the reopened map is the one after the last block that reached the log, so an acknowledged write is never lost and an unacknowledged one is there completely or not at all.",
["crash_points","histories"],"every history, every point of it at which the process stops, and every number of reopenings",
"The storage-directory tests write or read once and need files written by JavaScript; no test reopens after a partial history.",
["src/tree.rs","src/hb.rs","src/blocks.rs"],
[("open from a directory","src/tree.rs Tree::from_storage_dir"),("acknowledgement only after the append","src/put.rs, src/del.rs, src/blocks.rs add_changes"),("root is found from the log alone","src/tree.rs Tree::get_root")],
["maps read after reopening at every block boundary and after torn writes"])

p("C16","A replicating reader sees a true version or an error, never less",
"A reader whose core receives blocks in any order sees, for each operation, the map of the newest version of the writer's log that it knew of at some moment during the operation, or an error naming that data is missing; once the missing blocks have arrived the same handle answers correctly, for the newest length it knows. A read-only tree refuses writes with an error and stays unchanged. Trees connected by a stream, one as initiator and one not, converge to the writer's map and keep following later writes.",
["schedules","histories","fault_sequences"],"every order and timing of block arrival, every set of missing blocks, every interleaving with reads",
"The replication test copies one key between two in-memory cores.",
["src/blocks.rs","src/tree.rs","src/hb.rs"],
[("absence of a block is an error and is not cached","src/blocks.rs Blocks::get"),("length is asked of the core each time","src/tree.rs Tree::version"),("stream hand-over","src/blocks.rs Blocks::add_stream")],
["results of get/traverse on a handle over a sparsely filled core"])

p("C17","Malformed logs give errors, not panics or hangs",
"Reading (get, each step of a traversal, height or print) from a log whose blocks are corrupted in any way (truncated or random bytes, wrong message, node lists of odd length, too few or too many children, references to blocks or nodes that do not exist, references that form a cycle, ways down of any length) returns a result or an error in bounded time and never panics or exhausts the stack. Entries that the damage does not affect stay readable. Where references form a cycle, the number of steps of a traversal, and the time taken by print or by a step of a traversal with bounds, are outside this property.",
["inputs"],"every log content",
"No test opens a log this crate did not write.",
["src/blocks.rs","src/lib.rs","src/traverse.rs","src/error.rs"],
[("decoding with validation","src/blocks.rs make_node_vec, BlockEntry::get_tree_node"),("child lookup","src/lib.rs Children::get_child")],
["results of operations on mutated logs"])

p("C18","Every operation completes with bounded work",
"When storage answers, every operation and every traversal step completes: a task is woken whenever it can make progress and never needs an outside nudge, whatever the number of concurrent operations. A get, put or delete asks the storage for a number of blocks bounded by a small multiple of the tree height, appends only nodes on the touched path, and a traversal asks for each block at most a few times; a traversal that stops early reads only what it needs.",
["schedules","inputs"],"every tree size, every operation and every placement of suspensions",
"The tests run on storage that never suspends, on an executor that hides lost wakeups, and count nothing.",
["src/traverse.rs","src/lib.rs","src/blocks.rs","src/put.rs","src/del.rs"],
[("stream wakes itself between states","src/traverse.rs Traverse::poll_next"),("descent reads one node per level","src/lib.rs nearest_node"),("block cache","src/blocks.rs Blocks::get")],
["polls and wakeups seen by the executor","block reads seen by the core"])

p("C19","The C interface is memory-safe and always calls back once",
"Every accepted C get calls its callback exactly once: for a present key with error code 0, its sequence number and value (an empty buffer if it has none); for an absent key with error code 0, sequence number 0 and an empty buffer; for a failure with a nonzero error code and a message. Buffers and strings handed to the callback are valid until passed to their deallocation functions, all handles can be created, used and closed in the documented order without leak, double free, out-of-bounds or other undefined behaviour, and null, a path that cannot be opened or one that is not text gives a null handle and touches nothing.",
["inputs","histories","schedules"],"every key and value (empty included), every number of concurrent calls and every outcome of the lookup",
"No test calls the C interface.",
["src/external.rs"],
[("callback dispatch","src/external.rs hb_get"),("ownership transfer","src/external.rs c_vec_from_vec, deallocate_rust_buffer, to_c, from_c")],
["callback arguments and counts","Miri and AddressSanitizer reports","allocator balance"])

p("C20","The generated foreign-language interface agrees with the Rust one",
"Through the generated bindings, get, put, delete, version and sub-trees return the same results, leave the same log and raise an error exactly where the Rust interface does, for arbitrary byte strings, with absent and empty values kept distinct, also from concurrent tasks. The default sub-tree configuration is the one-zero-byte separator.",
["inputs","histories"],"every history of calls through the bindings",
"The binding tests need a build of the bindings and try one put and one get.",
["src/ffi.rs","src/prefixed.rs","src/error.rs","src/lib.rs"],
[("forwarding methods","src/ffi.rs Hyperbee, Prefixed"),("records","src/ffi.rs Gotten, Putten")],
["values returned in Python by the generated module","the storage directory it leaves"])

p("C21","Header: written once, first, and preserved",
"Creating a header on an empty log writes one block 0 that carries the protocol name and exactly the given metadata, and reports a length of 1; on any log that has a block it fails with the header-exists error and changes nothing. A first put writes the same header without metadata by itself, and a tree with an explicit header behaves for every later operation like one without; reads never write a header.",
["histories","inputs"],"every order of header creation, reads and writes, every metadata content, also concurrently",
"No test creates a header explicitly or decodes block 0.",
["src/tree.rs","src/schema.proto"],
[("header creation","src/tree.rs Tree::create_header, Tree::ensure_header, Tree::get_root")],
["block 0 of the core","results of create_header"])

p("C22","All handles on one core agree; caching is invisible",
"Handles opened on the same core at different times, with warm or cold caches and used in turn for reads and writes, always return what a fresh handle returns: a completed write through one is seen by the next operation through every other. Results never depend on which operations a handle performed before.",
["histories","schedules"],"every history of operations distributed over handles opened at any time on the same core",
"Every test uses one handle per core.",
["src/blocks.rs","src/tree.rs"],
[("cache keyed by immutable block number","src/blocks.rs Blocks::get"),("newest length asked each time","src/tree.rs Tree::version")],
["results through long-lived handles compared with fresh ones"])

p("C23","Diagnostic height and print describe the stored tree",
"With diagnostics enabled, height returns the number of levels of the stored tree (0 for a tree without a root) and print lists every key in order, one per line, indented by one tab per level below the root. Both only read, and report an error (no root, key not UTF-8, failing storage) instead of panicking.",
["inputs","histories"],"every tree",
"The tests check height on trees of at most one key and print on one three-key leaf.",
["src/lib.rs","src/traverse.rs","src/tree.rs"],
[("height","src/lib.rs Node::height; src/tree.rs Tree::height"),("print","src/traverse.rs print; src/tree.rs Tree::print")],
["return values compared with the tree decoded from the log"])

p("C24","Dropping the last handle releases everything",
"Once every handle, sub-tree and traversal of a tree is dropped, after any history including failed and cancelled operations, the underlying core is released together with its memory and open files, so the same storage can be opened again and repeated opening and closing does not grow resource use. While any of them is alive, the core stays usable through it.",
["histories"],"every history of operations and every order of dropping handles",
"No test observes what remains after a drop.",
["src/blocks.rs","src/lib.rs","src/tree.rs"],
[("ownership of core and cache","src/blocks.rs Blocks, BlockEntry; src/lib.rs Node, Children")],
["strong count of the core after drop","live allocation balance over open/close cycles"])
p("C25","Observation changes nothing",
"Formatting a tree, a sub-tree or an error with Debug or Display, and collecting every log record and span at any level with all their fields, changes no result, no error, no predicate call and no block of the log; it never panics, blocks, deadlocks or grows without end, whatever keys and values are stored, whatever has failed, and also while other operations of the same handle are suspended.",
["inputs","histories","schedules"],"every history, formatted and logged at every point, beside every interleaving",
"The tests install no subscriber and format nothing, so no logging or Debug code runs.",
["src/lib.rs","src/blocks.rs","src/tree.rs","src/traverse.rs","src/prefixed.rs","src/changes.rs"],
[("Debug implementations","src/lib.rs Node, Children, Key, Child; src/blocks.rs BlockEntry, Blocks; src/tree.rs Tree"),("spans and records","src/lib.rs, src/tree.rs, src/blocks.rs tracing macros")],
["results, error texts and log with and without a subscriber","completion of formatting"])

p("C26","Writes to damaged logs",
"On a log with damaged, foreign or malformed blocks, every put, delete and conditional write ends with a result: it succeeds or returns an error and never panics, hangs or consumes unbounded memory. A failed write appends nothing. A successful one appends exactly one readable block with its own key and value, or none if it changes nothing; blocks already in the log are never altered. A write that needs no damaged block has exactly the result and appends exactly the block that it would on the undamaged log.",
["inputs","histories"],"every damage of every block followed by every history of writes",
"The tests only ever read logs that hyperbee itself has just written.",
["src/lib.rs","src/blocks.rs","src/messages.rs","src/tree.rs","src/schema.proto"],
[("decoding and validation of blocks","src/blocks.rs Blocks::get, BlockEntry; src/lib.rs make_node_vec, Children::get_child"),("mutation","src/lib.rs Node::insert; put.rs; del.rs")],
["results of writes","decoded blocks before and after"])

p("C27","Behaviour does not depend on build profile or features",
"The same history gives the same results, errors, predicate calls and the same log, block for block, whether the crate is built with or without optimisation, debug assertions and overflow checks, and whichever cargo features (C interface, bindings, diagnostics) are enabled. Features only add interfaces; in particular every other property holds in a release build too.",
["inputs","histories"],"every history, in every combination of profile and features",
"The tests run in one profile with one set of features.",
["Cargo.toml","src/lib.rs","src/prefixed.rs","src/blocks.rs","src/tree.rs"],
[("conditional code","src/lib.rs cfg(feature) modules; src/tree.rs debug functions; src/prefixed.rs uniffi attributes"),("arithmetic and assertions","src/lib.rs, src/del.rs, src/put.rs")],
["results and blocks of the same seeded history in builds that differ in profile and features"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
