#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    if hook:
        a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "The database and its transactions behave as a map from keys to values",
 "After any sequence of inserts, overwrites and removes, made directly on the database or in transactions that may or may not be committed, lookups return exactly the value last written for the key (any size from 0 to 1023 bytes, byte for byte) and report not-found for every other key. An insert of an oversized value is refused as an invalid argument, removing or reading an absent key is refused as not found, re-inserting an identical value succeeds, and a refused call changes nothing.",
 ["histories", "inputs"],
 "Every sequence of insert/overwrite/remove/commit/read operations, over every relative placement of keys (sharing any number of leading bits) and every value size.",
 "test.c walks one fixed history of random keys with one value size per test; it never reads back a committed value longer than 255 bytes and never enumerates key placements.",
 ["src/tree.c", "src/nodes.c", "src/bits.c", "src/store.c"],
 [("radix insert/remove/get", "src/tree.c urkel_tree_insert, urkel_tree_remove, urkel_tree_get"),
  ("node encoding and value pointers", "src/nodes.c urkel_node_save, urkel_node_mark, urkel_node_write, urkel_node_read"),
  ("bit prefixes", "src/bits.c")])

prop("C02", "The root hash is a function of the contents alone, as documented",
 "The root reported for the database or for a transaction, committed or not, always equals the Merkle root that the documented construction (leaf, branch and skip hashing over the binary radix tree; zeros when empty) assigns to the current set of key/value pairs. It therefore never depends on the order or history of insertions, overwrites, removals, commits or reopenings.",
 ["histories", "inputs"],
 "Every set of key/value pairs within the bound and every operation order that can lead to it, with reads, proofs, commits and reopenings in between.",
 "The tests compare roots along one insertion and one removal order for random keys; they never compare against an independent construction nor against other orders.",
 ["src/tree.c", "src/nodes.c", "src/bits.c", "doc/tree.md"],
 [("node hashing and hash caching flags", "src/nodes.c urkel_node_hash"),
  ("prefix split/join on insert and remove", "src/tree.c, src/bits.c urkel_bits_split, urkel_bits_join, urkel_bits_collide")])

prop("C03", "Every proof the database produces verifies and tells the truth",
 "For any tree state (current, historical or uncommitted), any key and any depth of tree, the produced proof verifies against that state's root and yields exactly the stored value when the key is present, and verifies as non-existence when it is absent. Proof production never fails on an intact database.",
 ["inputs", "histories"],
 "Every tree within the bound (all key placements, depths up to the 256-bit maximum, all value sizes) and every queried key, before and after commit and reopen.",
 "The tests prove a handful of random keys whose trees are shallow; dead ends, long prefixes crossing byte boundaries, deep chains and long values are hardly reached.",
 ["src/tree.c", "src/proof.c", "src/bits.c"],
 [("proof construction", "src/tree.c urkel_tree_prove; src/proof.c urkel_proof_push, urkel_proof_write"),
  ("proof parsing and verification", "src/proof.c urkel_proof_read, urkel_proof_verify")])

prop("C04", "Proof verification is sound and total on arbitrary bytes",
 "For any byte string, key and root, verification ends with success or with one of the documented error codes, never crashing or reading or writing out of bounds, and it succeeds only if the proof really binds the answer to the root: no proof accepted for a root of a genuine tree can report a value other than the one the tree holds for that key, nor absence of a present key, nor presence of an absent one. Malformed encodings are rejected as invalid arguments, and well-formed proofs that do not match are rejected with the documented code of their failing step.",
 ["inputs"],
 "Every byte string within the bounds: all short strings, every truncation, extension, bit flip, field substitution and splice of genuine proofs, and all structured proofs over a small component universe, against every key and root in the universe.",
 "The tests only feed proofs the library itself has just produced, for the matching key and root.",
 ["src/proof.c", "src/bits.c", "src/tree.c"],
 [("proof parsing", "src/proof.c urkel_proof_read"),
  ("proof verification", "src/proof.c urkel_proof_verify"),
  ("public entry", "src/tree.c urkel_verify")])

prop("C05", "Every committed root stays readable forever as an immutable snapshot",
 "Every root ever committed can later be used, in the same session or after any number of reopenings, to read, iterate, prove, start a transaction from, or revert to, and it always yields exactly the contents that were committed under it, whatever was committed since. A root that was never committed is refused as not found and disturbs nothing.",
 ["histories"],
 "Every history of commits, reverts and reopenings within the bound, every earlier root of it (and unknown roots), through every operation that takes a root.",
 "The tests inject one older root once; walking back over several reopenings, duplicate roots, reverts followed by commits, and unknown roots are not tested.",
 ["src/store.c", "src/tree.c"],
 [("root history chain and root cache", "src/store.c urkel_store_read_history, urkel_store_has_history, urkel_store_get_history"),
  ("revert", "src/tree.c urkel_inject, urkel_tx_inject, urkel_tx_create")])

prop("C06", "Transactions are isolated, and commit, clear and inject act atomically",
 "A transaction sees the root it was started from plus its own changes and nothing else, however many other transactions change or commit meanwhile; nothing outside sees its changes until it commits, at which point the database's current state becomes exactly the transaction's contents and the transaction stays usable on top of it. Clearing a transaction makes it identical to a newly created one, injecting a root makes it identical to one created at that root, destroying it discards it, and a failed inject leaves it untouched.",
 ["histories"],
 "Every interleaving, within the bound, of operations on the database and on several open transactions, including reverts of the database.",
 "The tests keep at most one transaction open at a time, and never clear one after the database was reverted.",
 ["src/tree.c"],
 [("transaction lifecycle", "src/tree.c urkel_tx_create, urkel_tx_clear, urkel_tx_inject, urkel_tx_commit, urkel_tx_destroy"),
  ("node ownership between transaction and store", "src/nodes.c urkel_node_destroy, urkel_node_to_hash")])

prop("C07", "Iteration yields each record exactly once in key order",
 "Iterating the database, a historical root or a transaction (including its uncommitted changes) returns every record of that view exactly once, in ascending key order with its exact value, and then reports the end of iteration for good. This holds for every tree shape, up to the deepest possible, and for iterators dropped half way.",
 ["inputs", "histories"],
 "Every tree within the bound, including chains at every depth up to 256 levels, committed, partly committed and uncommitted, with every stopping point.",
 "The tests iterate shallow trees of random keys, where no path exceeds a few dozen levels.",
 ["src/tree.c"],
 [("iterator stack", "src/tree.c urkel_iter_seek, urkel_iter_push, urkel_iter_pop, urkel_iter_next"),
  ("iterator lifetime", "src/tree.c urkel_iterate, urkel_iter_create, urkel_iter_destroy")])

prop("C08", "Committed data survives close and reopen unchanged",
 "After closing and reopening, at any point of any history, the database has exactly the contents and root of the last commit and refuses nothing that worked before; uncommitted changes are gone. Opening and closing without committing never changes what is stored.",
 ["histories", "inputs"],
 "Every history of commits (empty, single-leaf, large, unchanged, emptying), reverts and close/reopen points within the bound, all value sizes and all amounts of data relative to record boundaries.",
 "The tests reopen once or twice with one fixed history; alignment of commit records, empty roots and single-leaf roots at reopen are sampled at best.",
 ["src/store.c", "src/tree.c"],
 [("commit record writing", "src/store.c urkel_store_write_meta, urkel_store_commit, urkel_store_flush"),
  ("recovery at open", "src/store.c urkel_store_recover_state, urkel_store_find_meta, urkel_store_read_root")])

prop("C09", "A crash at any point loses nothing that was committed",
 "If the process is killed at any instant, including during creation, commit, file rollover, close, or a recovery from an earlier crash, or if any suffix of the data not yet acknowledged as committed is lost, cut short or overwritten with garbage, then the database can be opened again and shows exactly the state of the last completed commit or of the one in progress, never anything else. It then keeps working normally: all older roots are readable and new commits succeed and last.",
 ["crash_points", "histories"],
 "Every history within the bound, a kill before and after every system call and within every write at every byte, torn tails of every length with every tail pattern, and second crashes during the ensuing recovery.",
 "The tests cut one byte off a closed database once; they never kill a process and never crash during creation or recovery.",
 ["src/store.c", "src/io_posix.c"],
 [("checksummed commit records", "src/store.c urkel_meta_write, urkel_meta_read"),
  ("recovery", "src/store.c urkel_store_recover_state, urkel_store_find_meta, urkel_store_init_meta, urkel_store_find_index")])

prop("C10", "Storage faults are reported and never corrupt or lose data",
 "When any file operation fails, is interrupted or comes up short (including disk full, too many open files and failing memory mappings), the affected call either still succeeds or reports failure; it never crashes, never returns wrong data, and never reports a key as missing that is present. Contents that were committed before stay intact, the database stays usable once the fault is gone, and a commit reported as failed is not visible afterwards in the running database.",
 ["fault_sequences", "histories"],
 "Every history within the bound, every single file operation in it and every pair of them made to fail with each applicable error or short count, followed by continued use and by reopening.",
 "The tests run with a healthy file system only.",
 ["src/io_posix.c", "src/store.c", "src/tree.c"],
 [("file writes and mapping", "src/io_posix.c urkel_file_write, urkel_file_pread, urkel_file_open"),
  ("flush and retry bookkeeping", "src/store.c urkel_store_flush, urkel_store_write"),
  ("commit failure handling", "src/tree.c urkel_tree_commit, urkel_tx_commit")])

prop("C11", "Spreading the data over many files is invisible",
 "Wherever the limits on file size, write buffering and simultaneously open files make the store roll over to a new file, flush early or close and reopen a file, every operation gives the same answers as without them, and committed data survives reopening. No data file ever exceeds the maximum file size and the number of data files held open stays bounded when committing.",
 ["configurations", "histories"],
 "Every value of the file size, buffer and open-file limits around the record sizes that occur, for every history within the bound, with reopenings at every point.",
 "The limits are 2 GB per file, 64 MB of buffer and 32 files; the tests write well below one file, so no rollover or eviction is ever executed.",
 ["src/store.c"],
 [("rollover", "src/store.c urkel_slab_write, urkel_store_write, urkel_store_write_meta"),
  ("open-file limit", "src/store.c urkel_store_evict, urkel_store_open_file, urkel_store_close_file"),
  ("early flush", "src/store.c urkel_store_needs_flush, urkel_store_flush")],
 hook="limits adjustable at run time")

prop("C12", "Concurrent calls are linearizable",
 "Any number of threads may use one database, and also share transactions and iterators, and every call appears to take effect atomically at some instant between its start and its return. In particular concurrent direct inserts and removes that report success are all in effect afterwards (unless overwritten by a later one), and readers never see a half-made change.",
 ["schedules"],
 "Every interleaving, up to a preemption bound, of two and three threads running short programs over all public operations.",
 "The tests are single-threaded.",
 ["src/tree.c", "src/store.c"],
 [("tree and transaction locks", "src/tree.c urkel_rwlock_* use"),
  ("file table lock", "src/store.c urkel_filemap_*")])

prop("C13", "Concurrent use never deadlocks",
 "However calls from several threads on one database, on shared transactions and on iterators interleave, each call returns as long as every thread destroys its iterators without itself calling a modifying operation while holding one. No schedule leaves a set of threads waiting for each other or for themselves.",
 ["schedules"],
 "Every interleaving, up to a preemption bound, of two and three threads running short programs over all public operations, under both reader- and writer-preferring lock policies where the program itself cannot block on its own iterators.",
 "The tests are single-threaded.",
 ["src/tree.c", "src/store.c"],
 [("lock order and lock upgrade", "src/tree.c urkel_tx_prove, urkel_tx_commit, urkel_tx_create, urkel_tx_root"),
  ("iterator locks", "src/tree.c urkel_iter_create, urkel_iter_destroy")])

prop("C14", "Concurrent use is free of data races",
 "In no schedule of concurrent public calls on one database, shared transactions and iterators do two threads access the same memory without synchronisation, one of them writing. No call aborts or crashes because another thread runs.",
 ["schedules"],
 "Every interleaving, up to a preemption bound, of two and three threads running short programs over all public operations, with happens-before tracked on each.",
 "The tests are single-threaded.",
 ["src/tree.c", "src/store.c", "src/nodes.c"],
 [("lazily computed hashes and lock upgrade", "src/tree.c urkel_tx_root, urkel_tx_prove; src/nodes.c urkel_node_hash"),
  ("lazily opened files", "src/store.c urkel_store_open_file, urkel_filemap_insert"),
  ("root cache", "src/store.c urkel_store_read_history")])

prop("C15", "At most one process has a database open or destroys it at a time",
 "While one process has a database open, every other process's open or destroy of it is refused without changing anything, and once it is closed (or its process dies) it can be opened again. However opens, commits, closes and destroys of several processes interleave, no commit acknowledged to any of them is lost other than by a destroy.",
 ["schedules", "histories"],
 "Every interleaving at system-call granularity, up to a preemption bound, of two and three processes that open, commit, close, destroy or are killed.",
 "The tests use a single process.",
 ["src/store.c", "src/io.c", "src/io_posix.c"],
 [("lock file protocol", "src/store.c urkel_store_init_lock, urkel_store_clear, urkel_store_destroy; src/io.c urkel_fs_open_lock"),
  ("initialisation order", "src/store.c urkel_store_init")])

prop("C16", "Destroying removes exactly the database's own files",
 "Destroying a closed database removes its data, key and lock files and its directory, after which the path can be reused for a fresh, empty database. It never removes, changes or follows anything that is not part of the database, fails with an error when other files are present or nothing is there, and no operation of the library touches any file outside the database directory.",
 ["inputs", "configurations"],
 "Every combination, within the bound, of foreign files and directories (with names near the database's own) inside and around the database, in every database state.",
 "The tests destroy databases that hold only their own files.",
 ["src/store.c", "src/util.c"],
 [("destroy", "src/store.c urkel_store_destroy"),
  ("recognising data files", "src/util.c urkel_parse_u32")])

prop("C17", "Calls leak no memory, descriptors, locks or mappings",
 "Every resource a call acquires is given back: after every transaction, iterator, proof and database has been released, in success and in failure of any step, memory allocated, descriptors open, files mapped and locks held are the same as before. A failed call leaves nothing behind that a caller would have to release.",
 ["histories", "fault_sequences"],
 "Every history within the bound and every single file-operation failure in it, over all public operations, with every argument class that makes them fail.",
 "Valgrind runs over the successful histories of the tests only; no failure path is run.",
 ["src/tree.c", "src/store.c", "src/proof.c", "src/io_posix.c"],
 [("failure paths", "src/tree.c urkel_open, urkel_verify, urkel_tx_commit"),
  ("file and mapping lifetime", "src/io_posix.c urkel_file_open, urkel_file_close; src/store.c urkel_store_clear")])

prop("C18", "Hashing is BLAKE2b-256 for every input",
 "The hash function returns the standard unkeyed 32-byte BLAKE2b digest for every input of every length, including the empty one, independently of the input's alignment in memory.",
 ["inputs"],
 "Every input length over several multiples of the block size, every alignment, with patterns that set each byte and bit position.",
 "The tests hash a few short strings and compare nothing with the standard.",
 ["src/blake2b.c", "src/internal.c", "src/util.c"],
 [("compression and padding", "src/blake2b.c"),
  ("public entry", "src/tree.c urkel_hash")])

prop("C19", "The command-line tool does what its usage says",
 "Every action of the command-line tool, with every combination of its documented options, has the documented effect on the database and prints the documented result; wrong or missing arguments, unknown actions and failing operations print a message and exit non-zero without changing the database. Keys and values given in hexadecimal (or hashed with -H) round-trip exactly.",
 ["inputs", "histories"],
 "Every command line over the actions, options, option positions and argument classes within the bound, in every sequence up to a depth.",
 "No test runs the tool.",
 ["src/urkel.c"],
 [("argument parsing", "src/urkel.c"), ("actions", "src/urkel.c")])

prop("C20", "Any path names the database it says, and over-long ones are refused",
 "Opening and destroying resolve relative paths against the current directory at the time of the call, with '.', '..', repeated and trailing separators handled as usual, so that all spellings of one path reach the same database and later directory changes do not matter. Paths too long to be handled are refused with an error, and no path of any length or shape makes the library misbehave.",
 ["inputs"],
 "Every path over a small alphabet of components and separators up to a length bound, every current directory in the universe, and every path length around the limits.",
 "The tests use a single relative path.",
 ["src/io_posix.c", "src/store.c"],
 [("path resolution", "src/io_posix.c urkel_path_resolve"),
  ("length limits", "src/store.c urkel_store_init_prefix, urkel_store_destroy")])

prop("C21", "A damaged store never crashes the library nor spoils what is intact",
 "If bytes of a database's files are altered, files are cut short, extended, missing, empty, swapped or replaced by those of another database, every call still returns, and none crashes, hangs or accesses memory out of bounds. Opening either fails cleanly or shows the newest commit whose record is intact (the empty state included, if none is); an operation needing only undamaged bytes succeeds with exactly the right result; one needing bytes that are gone or cannot be decoded reports an error other than not-found; and no proof over damaged bytes verifies against a genuine root with a wrong answer.",
 ["fault_sequences", "inputs"],
 "Every single-byte corruption with a set of values at every offset of every file of the database universe, every truncation length, and every file-level permutation, every pointer redirected to every other place, and endless, truncated and looping histories, each followed by every read, write, proof and iteration.",
 "The tests cut one byte off the end of one database.",
 ["src/store.c", "src/nodes.c", "src/tree.c"],
 [("node decoding", "src/nodes.c urkel_node_read, urkel_pointer_read"),
  ("traversal of decoded nodes", "src/tree.c"),
  ("commit record validation", "src/store.c urkel_meta_read, urkel_store_find_meta")])

prop("C22", "The on-disk and proof formats are stable and interoperable",
 "Databases written by the published format (file names, key file, node and value encoding, commit-record layout and alignment) open with the right contents and history, and everything this library writes can be read back by an independent reader of that format. Proofs have exactly the documented encoding: those produced are byte for byte the documented ones, and documented ones are accepted.",
 ["inputs", "histories"],
 "Every history within the bound, in both directions against an independent encoder and decoder, for files and proofs.",
 "The tests only read what the same build has written.",
 ["src/store.c", "src/nodes.c", "src/proof.c", "doc/tree.md", "README.md"],
 [("node and pointer encoding", "src/nodes.c urkel_node_write, urkel_pointer_write"),
  ("commit record", "src/store.c urkel_meta_write, urkel_store_write_meta"),
  ("proof encoding", "src/proof.c urkel_proof_write, urkel_proof_read")])

prop("C23", "No call has undefined behaviour",
 "In no explored execution, successful or failing, does any call read or write outside its buffers or the caller's, use freed or uninitialised memory, overflow arithmetic, or write more to the caller's output arguments than documented. Outputs of calls that report success are always fully defined.",
 ["histories", "inputs", "fault_sequences"],
 "Every history within the bound over all public operations, with every argument class and storage fault, and with caller buffers of exactly the documented sizes.",
 "Valgrind runs over the histories of the tests only, and does not see stack or struct overflows.",
 ["src/tree.c", "src/store.c", "src/nodes.c", "src/bits.c", "src/proof.c", "src/util.c", "src/io_posix.c"],
 [("fixed-size buffers", "src/store.c path buffers; src/tree.c iterator stack; src/bits.c"),
  ("failure paths that leave outputs unset", "src/store.c urkel_store_has_history")])

prop("C24", "A power failure costs at most what was not flushed yet",
 "When the machine loses power at any moment, so that what was written but not flushed to stable storage may be cut off at any length or read back as zeros (directory entries, truncations and the small key file surviving), the database opens again without repair and shows exactly a state that was committed, at least as new as the last commit in a data file that has been completed (a file is flushed before anything of the next one is relied on); all older commits stay readable and writing continues normally. In a build with URKEL_FSYNC no acknowledged commit is lost.",
 ["crash_points", "histories"],
 "Every history within the bound, in both build modes, losing power before any modifying or flushing system call, with every kept length of what was not flushed, cut off or zeroed, and a second failure during recovery.",
 "No test fails the machine, and a missing flush is invisible as long as the operating system lives.",
 ["src/store.c", "src/io_posix.c"],
 [("flush of a completed file at rollover", "src/store.c urkel_store_write"),
  ("flush after each commit (URKEL_FSYNC)", "src/store.c urkel_store_commit, urkel_store_sync"),
  ("recovery of the newest intact commit record", "src/store.c urkel_store_find_meta")])

prop("C25", "Stored data never passes for a commit record",
 "Whatever bytes are stored as keys and values, at whatever place in a file they end up, and wherever a crash cuts off what follows them, recovery never takes them for a commit record: only a record whose magic number and whole 20-byte checksum are right under the whole 32-byte key of this database counts. Every database is created with a key of its own, all of whose 32 bytes come from the system's random numbers or, where there are none, from the time of creation.",
 ["inputs", "crash_points"],
 "Every imitation of a record of a family (unkeyed, under similar or shortened keys, with parts of the checksum, with any byte of a genuine one changed) at every offset to the record grid and with the crash at every relevant place; every random byte changed, in every way the random source can fail.",
 "The tests store short constant values and never crash.",
 ["src/store.c", "src/util.c", "src/io_posix.c"],
 [("validation of a commit record", "src/store.c urkel_meta_read, urkel_store_find_meta"),
  ("keyed checksum", "src/util.c urkel_checksum"),
  ("choice of the key", "src/store.c urkel_store_init_meta; src/util.c urkel_random_bytes; src/io_posix.c urkel_sys_random")])

prop("C26", "The WebAssembly ports behave like the native library",
 "Built for WASI or Emscripten, where there are no memory mappings, threads or file locks, where WASI gives no names of directory entries but only their lengths, and where random numbers come from WASI or are made of UUIDs, the library answers every sequence of calls as the native one does: the same map, roots, proofs, iteration and history, uncommitted, committed, reopened, over many files, after a crash at any point, after failing or short system calls and on damaged files; destroying removes any number of files; no memory that was never written is used; and a database's key is made of random bytes throughout.",
 ["configurations", "histories", "crash_points", "fault_sequences"],
 "The sequences of the other properties, explored on the library compiled as these ports are, over a simulated file system that offers what they have.",
 "The tests are built natively here; the WebAssembly toolchains are not installed, and even there the tests would run single histories without faults.",
 ["src/io_posix.c", "src/store.c"],
 [("reading and writing without mappings", "src/io_posix.c urkel_file_open, urkel_file_pread, urkel_file_write"),
  ("names of files inferred from their lengths", "src/io_posix.c urkel_fs_scandir"),
  ("random numbers", "src/io_posix.c urkel_sys_random")])

prop("C27", "The Windows port behaves like the native library",
 "Built for Windows, where a position belongs to the handle and is shared by all who read from it, where a handle for appending cannot cut a file, where reading at the end may succeed with no bytes, where mapped files cannot be cut and empty ones not mapped, where locks belong to handles, where a removed file may keep its name until it is closed, and where the read-write lock is the library's own, the library answers every sequence of calls as the native one does: the same map, roots, proofs, iteration and history, uncommitted, committed, reopened, over many files, after a crash at any point, after failing or short system calls and on damaged files. Every call returns. Calls of several threads behave as if made one after another, without deadlock or data race. At most one process has a database open, whatever others open, close, destroy or die meanwhile; destroying removes the database, all of it and nothing else; paths mean the directory they name.",
 ["configurations", "histories", "crash_points", "fault_sequences", "schedules"],
 "The sequences, faults, crashes and schedules of the other properties, explored on the library compiled as for Windows, over a stand-in for the system calls it uses there.",
 "The tests are built natively here; on Windows, too, they run single histories in one thread and one process without faults.",
 ["src/io_win.c", "src/io.c", "src/store.c"],
 [("opening, reading, writing and mapping", "src/io_win.c urkel_fs_open, urkel_fs_read, urkel_fs_pread, urkel_file_open, urkel_file_write"),
  ("one process at a time", "src/io_win.c urkel_fs_flock; src/io.c urkel_fs_open_lock, urkel_fs_close_lock"),
  ("read-write lock", "src/io_win.c urkel_rwlock_rdlock, urkel_rwlock_rdunlock, urkel_rwlock_wrlock"),
  ("directories and paths", "src/io_win.c urkel_fs_scandir, urkel_path_resolve")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
