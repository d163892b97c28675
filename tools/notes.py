SEQ = "stateless exhaustive exploration of the compiled library against a reference model"
TECH["C01"] = SEQ + " (all operation sequences up to a depth)"
NOTE["C01"] = "Every sequence of map operations up to the stated depth over every key universe, every contents-to-contents change, every bit position pair and every value size, all lookups compared after each."
TECH["C02"] = SEQ + " (all orders and histories leading to a set of contents)"
NOTE["C02"] = "Roots compared with an independent implementation of the documented construction over all orders, histories, bit positions and contents within the bounds."
TECH["C03"] = SEQ + " (all trees and keys within bounds)"
NOTE["C03"] = "Every proof produced is folded by an independent verifier and verified by the library, over all trees, stages and queried keys within the bounds."
TECH["C04"] = "exhaustive enumeration of proof inputs, each decided by the compiled verifier and by a reference verifier"
NOTE["C04"] = "All short strings, all mutations of genuine proofs of the listed kinds and all structured proofs of a grammar; verdict, error code, answer, and soundness against the tree's contents compared."
TECH["C05"] = SEQ + " (all histories and access orders up to a depth)"
NOTE["C05"] = "Every history of commits, reverts and reopenings up to the depth; every root read back; unknown roots refused."
TECH["C06"] = SEQ + " (all interleavings of operations of several transactions up to a depth)"
NOTE["C06"] = "Every sequence of operations over two and three open transactions and the database up to the depth."
TECH["C07"] = SEQ + " (all trees, stages and stopping points)"
NOTE["C07"] = "Every contents, bit position pair, chain depth and stopping point within the bounds, iterated at each commit stage."
TECH["C08"] = SEQ + " (all histories with reopenings up to a depth)"
NOTE["C08"] = "Every history with reopenings up to the depth, every alignment of commit records, compared through the library and through an independent reader of the files."
TECH["C09"] = "stateless exhaustive exploration of the compiled library over a simulated file system with crash injection (every crash point and every torn write, with later crashes during recovery)"
NOTE["C09"] = "Every history up to the depth killed before and after every modifying system call and at every byte of every write, with two crashes, garbage tails, cut files and commits that failed before; reopened and compared with the last completed or the pending commit, then written on."
TECH["C10"] = "stateless exhaustive exploration of the compiled library over a simulated system interface with fault injection (every failing call, interruption and short transfer)"
NOTE["C10"] = "Every operation sequence up to the depth with every single failing, interrupted or short system call, lasting failures, pairs of failures, and every number of descriptors left; results, later state, retry and reopening compared with the model."
TECH["C11"] = SEQ + " (all values of the store's limits within ranges)"
NOTE["C11"] = "Every file size, write buffer, read buffer and open-file limit in the ranges with every operation sequence up to the depth; compared with the unlimited model, the independent reader of the files and the bounds themselves. Limits are lowered through the URKEL_VERIFY hook."
SCH = "stateless exhaustive exploration of thread schedules of the compiled library under a controlled scheduler (preemption-bounded)"
TECH["C12"] = SCH + ", each checked for a linearization"
NOTE["C12"] = "Every schedule of lock operations (and in one part of function entries and system calls) up to the preemption bound, of all pairs of 23 calls, of programs of two calls and of three threads, and of all pairs with any one system call failing; results, later state and what is on disk must fit one order of the calls."
TECH["C13"] = SCH + ", with reader- and writer-preferring locks"
NOTE["C13"] = "Every schedule up to the preemption bound of all pairs (also with any one system call failing) and triples of 23 calls and of threads holding iterators; a state in which nobody can run is a violation."
TECH["C14"] = SCH + " with happens-before race detection on each schedule"
NOTE["C14"] = "Every schedule up to the preemption bound of pairs, triples and programs of calls, each run under ThreadSanitizer's happens-before tracking with the scheduler's own hand-overs hidden from it."
TECH["C15"] = "stateless exhaustive exploration of process schedules at system-call granularity (preemption-bounded, with kills) over a simulated file system and lock table"
NOTE["C15"] = "Every schedule of system calls up to the preemption bound of all pairs and triples of programs of opening, writing, closing, destroying and dying processes, with the first killed or one of its calls failing at any point; results and remains must fit one order of the calls."
TECH["C16"] = "stateless exhaustive exploration of directory contents and database states over a simulated file system"
NOTE["C16"] = "Every combination of foreign files, directories and links (names near the database's own) inside and around the database, in every database state and at every failing system call; the whole file system compared before and after."
TECH["C17"] = SEQ + " with allocation, descriptor, mapping and lock accounting, under every single storage fault"
NOTE["C17"] = "Every operation sequence up to the depth, every argument class that fails, every single failing or short system call, every malformed proof and damaged store of the lists; nothing may be left once everything is released."
TECH["C18"] = "exhaustive enumeration of inputs, each decided by the compiled hash and an independent one"
NOTE["C18"] = "Every length over several blocks, every alignment, every single bit and byte position and pattern; the independent hash is itself checked against a third implementation."
TECH["C19"] = "stateless exhaustive exploration of command lines and sequences of them, run in process against a reference model of the tool"
NOTE["C19"] = "Every combination of action, documented options, their positions and argument classes within the bounds, and all sequences up to the depth; exit status, output, and the database compared with the model."
TECH["C20"] = "exhaustive enumeration of paths and current directories against a reference resolver"
NOTE["C20"] = "Every path over the component alphabet up to the length bound from every directory, every length around the limits, with the file system compared afterwards."
TECH["C21"] = "stateless exhaustive exploration of the compiled library over every damaged store of a family (fault enumeration)"
NOTE["C21"] = "Every byte with a set of values, every truncation, every pointer redirected, every file-level permutation, pairs of damages; every operation run and judged by a reader that walks the same bytes and knows which of them are vouched for."
TECH["C22"] = SEQ + ", an independent reader and an independent writer of the formats"
NOTE["C22"] = "Every history within the bounds read by an independent decoder, and databases written by an independent encoder in every permitted layout opened and used by the library; proofs compared byte for byte."
TECH["C23"] = SEQ + " under memory, definedness and overflow instrumentation of every execution"
NOTE["C23"] = "Every operation sequence, argument class, storage fault and damaged store within the bounds, executed with every byte's definedness tracked (and, in all other checks, with address and overflow checking), buffers being of exactly the documented size."
TECH["C24"] = "stateless exhaustive exploration of the compiled library over a simulated file system that tracks what has been flushed, with every power failure (point, surviving length, zeroed or cut)"
NOTE["C24"] = "Every history up to the depth, in builds with and without URKEL_FSYNC, failing before every modifying or flushing call, with every choice of what survives of the data not flushed, and after commits with a failing call or flush; reopened, compared with the commits that must and may be there, and written on. Assumes directory entries, truncations and the key file survive in order."
TECH["C25"] = "stateless exhaustive exploration of the compiled library over a simulated file system: all imitations of commit records x offsets x crash places, and all bytes and failures of the random source"
NOTE["C25"] = "Every imitation of a commit record in the family at every offset to the record grid with every crash place; the state shown, later commits and old roots compared. Keys compared over every random byte and every failure of the random source."
TECH["C26"] = SEQ + ", with every crash point and single fault, of the library compiled as its WASI and Emscripten ports over a stand-in for what these offer"
NOTE["C26"] = "The library's sources compiled with the ports' macros (stub headers in mc/wasm; the WASI calls and UUIDs are provided by the simulated system): every sequence of operations, every crash point, every single fault, every damaged byte and every cut of a file within bounds; under ASan+UBSan (WASI) and MSan (Emscripten). Not run: the WebAssembly code itself, for want of a toolchain."
TECH["C27"] = SEQ + ", with every crash point, single and repeated faults, and all schedules of threads and processes within preemption bounds, of the library compiled as its Windows port over a stand-in for Windows"
NOTE["C27"] = "The library's sources compiled with _WIN32 (headers in mc/win; the Windows calls it uses are provided by mc/win.c on the simulated file system, processes and threads, written from Microsoft's documentation): sequences of operations, crash points, faults, damaged bytes, cuts, foreign files, paths and leaks under ASan+UBSan; pairs of calls in two threads with all schedules of lock operations within a bound, also under TSan; pairs of programs of processes. Not run: a Windows compiler or Windows itself, for want of both."
