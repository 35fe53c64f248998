"""Which analyser rules decide which property, on which translation units."""
TOOLS = ["mdbx_chk", "mdbx_copy", "mdbx_dump", "mdbx_load", "mdbx_drop", "mdbx_stat", "mdbx_defrag"]
COMMON = ["LLVM IR produced by clang 18 from the current sources has the semantics of the shipped build",
          "the analysed configuration is engine/config-default.h (the tree's default cmake configuration); thorough adds MDBX_CHECKING=2",
          "indirect calls (comparators, user callbacks, lock operations of foreign platforms) do not modify the tracked fields"]
RULES = {}


NA = {
 "C06": "Whether a failing step has already changed something depends on which of several page operations of a multi-step modification (touch, split, merge, rebalance) ran, on content of pages: an over-approximation "
        "marks practically every error return (measured: a call-graph fixpoint makes all page functions 'may have changed'), although most of them fail before the first change and rightly leave the transaction usable. No sound "
        "static argument separating the two is in reach without a model of page contents. The error bit itself is covered where it matters for refusal: C02 (a failed transaction never modifies) and C22 (publishing).",
 "C08": "Which pages belong to the transaction is run-time state (dirty list membership, page numbers and transaction ids stored in pages, the spill list). That every writable page pointer went through page_touch() or an "
        "allocation is an aliasing question through cursor stacks (mc->pg[] entries are re-used across calls and fixed up by other cursors); the type system of C does not distinguish frozen from modifiable pages, and a points-to "
        "abstraction merges them at once. Confinement of writers of the meta pages is decided in C09, of premature reuse in C11.",
 "C20": "Equality of content, cursors and geometry before and after a nested transaction is a relation between two run-time states over arbitrary histories (lists of pages, shadow copies of cursors); a static check could only confirm "
        "that particular assignments are present, i.e. how it is written rather than what it does.",
 "C21": "Needs the functional correctness of index adjustments (which item a position denotes before and after a split, merge or shift), i.e. data-dependent arithmetic over page contents. The registration of the cursors to be "
        "adjusted is decided in C07.",
 "C28": "Full functional correctness of the B-tree over all sequences of operations and comparison functions: quantifies over contents of pages and histories, no sound static argument in reach bounds it.",
 "C29": "Numerical agreement between counters and content is a data-dependent invariant over the history of the tree (sums over all pages); dataflow over the code cannot express it.",
 "C30": "Sizes, limits and shrink/growth steps are run-time quantities computed from settings, workload and readers of other processes. The parts with a control-flow form are decided elsewhere: lock and map handling of resizing (C03, C05), "
        "reuse of pages (C11), order of truncation and publishing (C04).",
}


def rule(pid, units, technique, explain, note, assume=None, **kw):
    RULES[pid] = dict(units=units, technique=technique, note=note, explain=explain, assume=COMMON + (assume or []), **kw)


rule("C07", [("lib", ["C07"])], "path-sensitive typestate dataflow over LLVM IR",
     "Typestate analysis over every function of the library that stores into a transaction's per-table cursor list: "
     "registration = storing the address of a frame-local (or temporarily registered) cursor, deregistration = storing that "
     "cursor's saved successor back; path-sensitive dataflow with return-code correlation shows that no return is reachable "
     "while a temporary is registered.",
     "All paths of all registering functions, up to infeasible-path pruning; sound for the listed registration idiom (stores into the cursor list), assumes LIFO use of the list.",
     ["a registered temporary is the head of its list until deregistered (the code's own LIFO discipline)"])

rule("C15", [("lib", ["C15"])], "path-sensitive nullness/typestate dataflow over LLVM IR",
     "Every call of an allocator (libc allocators plus every library function whose result may be such a result, derived to a fixpoint) is tracked "
     "through all paths of its function: a dereference, a memory copy/fill or a hand-over to a function that dereferences its argument without "
     "testing it, before the result was compared with null or on a path where it is null, is reported; so is an untested result left in memory at return.",
     "All allocation sites of the library; callee dereference summaries are flow-insensitive (a callee that compares the parameter anywhere is trusted).",
     ["errno is non-zero when it is read after a failed call"])

rule("C19", [("lib", ["C19"])], "loop-structure analysis plus symbolic one-iteration dataflow over LLVM IR",
     "Every natural loop of the library has at least one exit edge that is feasible under the path facts (loop-without-way-out); for every innermost "
     "loop a symbolic walk from header to back edge looks for an iteration that changes nothing its exit conditions depend on, re-reads nothing others "
     "can change and calls nothing that could (iteration-without-progress).",
     "Partial: shows absence of loops that cannot end by construction; does not bound the number of iterations (termination of data-dependent loops is not decided).",
     ["memory reachable by other threads/processes may change between iterations (volatile/atomic loads), ordinary memory does not"])

rule("C24", [("lib", ["C24"])], "path-sensitive dataflow with return-code correlation over LLVM IR",
     "For every function which creates a handle through a pointer-to-handle output parameter: on every path that returns a non-zero code the output cell "
     "is untouched or null/zero; on every path that returns success the handle cell holds a non-null value.",
     "All paths of the creating functions including descent into callees that receive the output pointer.")

rule("C03", [("lib", ["C03"])], "modular lock-balance dataflow (typestate with function contracts) over LLVM IR",
     "Every function which acquires or releases the writer lock, the reader-table lock, the handle/remap mutexes, the registry lock or the debug-log mutex "
     "(directly, or by calling a function with a lock contract) is analysed over all its paths with return-code correlation against its contract "
     "(lock delta as a function of the returned value; default: balanced): leaked, doubled and missing releases are reported at the returning path.",
     "All paths of all lock-touching functions; contracts of callees are themselves checked against their bodies (assume/guarantee).",
     ["the lock-file mapping pointer env->lck_mmap.lck does not change within one call", "pthread_mutex_lock() fails only with the documented codes"])

rule("C01", [("lib", ["C01"])], "interprocedural path-sensitive guard inference (dataflow facts at effect points) over LLVM IR",
     "For every public function with a handle argument all paths are followed, into every callee while a guard is still missing; at each change of the database, "
     "change of handle state, success return and dereference the set of established guards (signature compared with the live value, owner thread compared with the "
     "caller, finished bit known clear, non-null) is compared with the function's row of engine/guards.txt; a release of handle memory requires an overwritten signature.",
     "All public functions and all paths; the required guard set per function is frozen in engine/guards.txt (inferred once from the code and reviewed), functions not listed must meet the default.",
     ["functions that do not report an error code (mdbx_cmp, mdbx_dcmp, plain getters) are outside the statement"])

rule("C02", [("lib", ["C02"])], "interprocedural path-sensitive guard inference (dataflow facts at effect points) over LLVM IR",
     "Every public function is followed along all paths to the first call that can reach a page allocation, page copy or page release, to the first store to canary/sequence "
     "and to its success returns: there the transaction state bits read-only, read-only-nested, finished, failed and has-child must be known clear (through transaction and "
     "cursor arguments, including shadowed cursors); the functions that put a transaction into such a state must have set the bit on every success return.",
     "All modifying entry points, all paths, all combinations of state bits (bit-precise facts).",
     ["page contents change only through the page allocation/copy/release primitives (see C08)"])

rule("C32", [("lib", ["C32"])], "bit-precise path-sensitive dataflow over LLVM IR",
     "For every public function with a flag word the set of flag bits that are known zero is computed at every change of database or handle state and at every success return, and "
     "must include all bits the function refuses according to engine/guards.txt.",
     "All 2^32 flag words of the listed functions (bit-level abstraction, no sampling).")

rule("C05", [("lib", ["C05"])], "path-sensitive error-propagation dataflow over LLVM IR",
     "Every call of an error-returning function (library functions found by a fixpoint over return values, plus the I/O, mapping and locking functions of libc) is followed on all "
     "paths to the returns of its function: a return where the call may have failed while success is reported is a finding, unless the drop is listed with a reason in "
     "engine/errors_accepted.txt (best-effort steps; particular codes that are an answer, such as ENOENT when deleting).",
     "All call sites of all functions except the listed ones; an error stored into memory counts as recorded (its later use is not followed).",
     ["system calls report failure by -1 and errno; errno is then non-zero"])

rule("C13", [("lib", ["C13"]), ("cxx", ["C13X"])], "constant propagation through the table and dispatch code, compared with the declared enumerations and a specification table",
     "For each declared error code the message function is evaluated symbolically with that code as constant argument (text exists, distinct, names the code), the C++ exception thrown for it is "
     "compared with engine/tables.txt; for each declared option the fields reported by the getter and written by the setter are compared; for each declared cursor request the navigation steps "
     "reachable with that request as constant are compared with engine/tables.txt, and undeclared requests/options must be refused.",
     "All declared error codes, options and cursor requests; the expected exception type and navigation steps are a frozen specification table.")

rule("C04", [("lib", ["C04"])], "path-sensitive typestate dataflow (event order automaton) over LLVM IR",
     "The publishing function dxb_sync_locked() is analysed along all its paths for each of 20 combinations of the mode flags: at the write of the meta page a data flush with a checked "
     "result must have happened (or nothing was left to flush), the steady signature is only given after it, and success is returned only after the meta page was flushed itself. The same order automaton is "
     "run over meta_sync(), meta_override(), meta_wipe_steady(); the committing function must submit all dirty pages before publishing; every function which writes data pages must account them as unsynced; "
     "osal_fsync()/osal_msync() must perform the system call each mode demands; a forced synchronisation must not end with success while something is unflushed or the newest meta is not steady.",
     "All paths of the listed functions x all mode flag combinations that the library distinguishes. The order inside the kernel and the device is assumed as documented.",
     ["fsync/fdatasync/msync return success only after the data is durable", "a write through the O_DSYNC descriptor is durable on return"])

rule("C09", [("lib", ["C09"])], "path-sensitive typestate dataflow plus exhaustive constant propagation through the meta decision table (LLVM IR)",
     "dxb_sync_locked(): for 20 mode combinations the sequence invalidate / set first id / fill geometry, trees, canary, retired / set second id / sign is enforced by an automaton over the stores to the "
     "target meta page (including release ordering and completeness), the target must be the one chosen by meta_tail() (or the recent one only if it already holds the same transaction). The choice itself is decided "
     "by propagating each of the 216 combinations of (txnid, steady) of three meta pages through meta_tap(), its table and meta_recent/prefer_steady/tail(). meta_snap() must have compared both ids and derive steadiness from the signature. "
     "Stores into the mapped meta pages are confined to the update functions.",
     "All paths, all mode combinations, all relative orders of three metas. The recovery-only writers (meta_override, meta_unsteady) are covered for flushing in C04.",
     ["readers use meta_snap()/coherency checks as analysed"])

rule("C22", [("lib", ["C22", "C22G"])], "path-sensitive typestate dataflow and guard inference over LLVM IR",
     "dxb_sync_locked() and txn_basal_commit(): on every path on which a write, flush or resize may have failed after the shared state (pending meta, file) was touched, the environment carries the fatal mark when an error is "
     "returned and success is not returned. Guard inference: every public function which starts, renews, commits or synchronises a transaction or changes settings succeeds or changes something only where that mark is known to be clear.",
     "All paths of the publishing functions x 20 mode combinations; all public entry points which check the environment.")

rule("C25", [("lib", ["C25"])], "path-sensitive event-order dataflow over LLVM IR",
     "The copy functions are followed along all paths for every relevant combination of copy flags and both kinds of destination: the place of the meta pages is overwritten by an "
     "invalid stub first; every byte range is written to the place it was read from, starting behind the meta pages, until the last used page; the meta pages hold the snapshot's geometry, trees "
     "and transaction id and never the source's root page number; the snapshot is verified to be intact after the last read; content is flushed before and after the meta pages are written; "
     "the writing thread wakes its producer when it fails, is joined, and its error is returned; a new file is created exclusively unless overwriting was requested, locked, closed, and removed "
     "after a failure; the writing primitives never accept a short write.",
     "All paths of copy2fd, copy_asis, copy_with_compacting, the writing thread, copy2pathname, the entry points, osal_write/pwrite/pwritev and osal_openfile. The tree walk of the compacting "
     "copy is covered only through its result (that each page is put at the number stored in its parent is not decided).",
     ["errno is non-zero when it is read after a failed call", "descriptors returned by a successful open are not -1"])

rule("C23", [("lib", ["C23"])], "exhaustive access audit over LLVM IR (atomicity, order, width, multi-step updates) against a reviewed table",
     "Every load, store, compare-exchange and block access of the library whose address is derived from the lock-file structures is classified: it must be a single atomic access of the "
     "field's full width, loads at least acquire, stores at least release, exchanges both; a store whose value is computed from a load of the same field is a multi-step update. Accesses that may be "
     "plain or unordered (made under the lock that guards the field, on the own slot, or before others can see the file) are listed per field, kind and function in engine/shared_access.txt.",
     "All accesses whose address is syntactically derived from the typed lock structures (pointers re-derived through integers are not followed); statistics counters are exempt; the table was reviewed once and frozen.",
     ["naturally aligned accesses of up to 8 bytes are untorn on the supported platforms"])

rule("C10", [("lib", ["C10"])], "path-sensitive event-order dataflow over LLVM IR",
     "The functions that take, publish, move, park and give back a reader slot are followed along all paths: a slot is reserved only under the reader-table lock at a place that is free, its owner is "
     "recorded before the table length that makes it visible; the snapshot id is published (ordered) and the cached oldest id invalidated before the freshness of the snapshot is re-checked, and success is "
     "only possible after that re-check; the slot is cleared and the cache invalidated on every end, reset or failure; a parked slot is only continued after its mark was exchanged back atomically and the snapshot "
     "was not taken away; a clone is registered before it is trusted. All callers are checked to give the slot back when they fail.",
     "All paths of the slot functions and of their callers; the memory model is that of the ordered accesses checked by C23.",
     ["seq_cst/acq_rel fences in the IR order the accesses as in the C11 model"])

rule("C17", [("cxxhdr", ["C17"]), ("cxx", ["C17"])], "path-sensitive result-consumption dataflow over LLVM IR of the C++ binding, compared with a table of documented mappings",
     "Every call of the C API made by the C++ binding (all inline functions of mdbx.h++, instances of its member templates, and mdbx.c++) is followed along all paths, into the helper functions which receive the code: a "
     "normal return is allowed only if the code is success on that path, is itself returned or stored for the caller, or equals a code that engine/cxx_mapped.txt documents as an answer of this function (and the bool "
     "answered is the documented one, separately for the throwing and the non-throwing mode). The classification primitives of mdbx::error are evaluated for each class of codes.",
     "All functions of the binding that call the C API; member templates in one instance each. Exceptions leave by the normal C++ mechanism (not analysed).",
     ["a call of a [[noreturn]] function never returns"], totals={"call_sites": 140, "functions": 110, "primitive_evaluations": 60})

rule("C18", [(t, ["C18"]) for t in TOOLS], "interprocedural path-sensitive error-propagation dataflow over LLVM IR of each tool",
     "From main() of each tool all paths are followed into its own functions; every result of a library call that may be a failure is kept until the process ends: an exit or return from main() with a "
     "possibly zero status while such a result is outstanding (or was overwritten by calling the function again) is a finding, unless the code is listed in engine/tools_accepted.txt. For mdbx_chk a zero status "
     "additionally requires that the number of counted problems is known to be zero.",
     "All library calls reachable from main() of the seven tools, all paths; the rescue modes (which continue after errors by definition) are excluded; failures of output streams are outside the statement.",
     ["clean-up calls at the end (closing, aborting) do not decide about the outcome"], totals={"calls_of_the_library": 80})


rule("C26", [("lib", ["C26"])], "modular lockset analysis with call-graph propagation and path-sensitive typestate over LLVM IR",
     "Every change of the table of handles (names, states, sequence numbers, comparison functions, their count, the list of released names) is looked up in every function; along all paths it must be made while the "
     "handle mutex is held, or in a function whose every call is made so (the need propagates to the callers up to the API), or where the environment is exclusive (creation, opening, closing). Along all paths of the "
     "functions which change a handle: its name, position and comparison functions change only while its state is not valid, its sequence number is changed afterwards and to another number, success is never answered "
     "with a handle left poisoned, and a new handle is taken only below the maximum count.",
     "All functions which store to the table, all their callers, all paths. The lock-free fast path of dbi_open (reading) and the contents of mutable bits in the transaction's own copies are not covered.",
     ["the mutex of the handle table provides mutual exclusion"])
rule("C27", [("lib", ["C27"])], "path-sensitive dataflow (bounds and outcomes of comparisons) over LLVM IR, partial evaluation over all table kinds",
     "Along all paths of cursor_put_checklen(), the only way from the API to the insertion: the key and the value are handed over only after their lengths were found within both limits of the table, integer keys and "
     "values to have 4 or 8 bytes, multi-values of fixed size to be as long as those present, and what is handed over has the checked length. No function calls it after it may already have changed pages; no key given by a "
     "caller reaches cursor_put() otherwise; on every path of cursor_put() to the first change an integer key was compared with the length of the keys present. tbl_setup() is evaluated for each of the 33 kinds of tables: "
     "the limits it sets are the ones of that kind (with the functions they come from). No division by a length which may be zero.",
     "All paths of the functions above, all callers of both. That nodes of the permitted lengths fit into pages is not covered.",
     ["a nested table is given the values which were checked as those of the outer one"])
rule("C31", [("lib", ["C31"])], "path-sensitive typestate dataflow with assumed-outcome analysis over LLVM IR",
     "The lock acquiring functions are followed along all paths for each possible answer of the lock primitive (owner dead, not recoverable, deadlock, success): after 'owner dead' the recovery (cleanup of the "
     "dead process's reader slots, refusal when the owner was this process or the environment is damaged, pthread_mutex_consistent) must happen before success is reported, and the lock must not be kept when it "
     "failed; the locks must be created robust and process-shared; the cleanup must free exactly the slots whose owner is found dead, under the reader-table lock, and invalidate the cached oldest reader; "
     "the setup of the lock file reinitialises it only as the exclusive owner.",
     "All paths of osal_ipclock_failed/lock, lck_rdt_lock, lck_txn_lock, lck_init, mvcc_cleanup_dead, lck_op, lck_setup_locked x all answers of the primitive.",
     ["the operating system reports the death of the owner of a robust mutex (EOWNERDEAD) and file locks vanish with their owner"])

rule("C33", [("lib", ["C33"])], "path-sensitive typestate dataflow per configuration over LLVM IR",
     "dxb_setup() is followed along all paths in four configurations (exclusive, exclusive read-only, shared, recovery): a return with success is possible only where the head meta page was found steady and valid, "
     "or valid and written in the current boot; the rollback overwrites only the newest weak meta with the steady meta whose validity was checked; the header is initialised only when the file size "
     "was found to be zero in read-write mode; the other configurations reach no write to the data file.",
     "All paths of dxb_setup() in four configurations; the content checks inside meta_validate() are taken as the definition of 'valid'.",
     ["the boot id distinguishes boots of the machine"])

rule("C12", [("lib", ["C12"])], "interprocedural path-sensitive invariant analysis (reachability of write primitives) over LLVM IR",
     "Every public function from which a write primitive or a change of the read-only marks can be reached is followed along all paths, into every such callee, under the invariant that "
     "the environment is read-only (environment and transaction carry the read-only mark, no write transaction exists, no writable mapping mode): a write, truncation, extension, punch, msync or writable "
     "mapping that is about the data file is a violation, so is a store which drops a read-only mark (this keeps the invariant) and a use of the absent write transaction; mdbx_env_open() establishes the "
     "invariant (flag word, O_RDONLY handle, no write transaction, mapping without write permission), osal_openfile() is checked to open without write, create or truncate bits for that purpose.",
     "All paths of all public functions; which file a handle belongs to is decided from the environment member it is stored in and followed through parameters.",
     ["a file handle passed by the caller (copying) is not the data file's own"])

rule("C11", [("lib", ["C11"])], "path-sensitive typestate and relational dataflow (loop-inductive minimum over reader slots) over LLVM IR",
     "The search of the oldest snapshot is followed along all paths: it takes back the refresh request first, starts with the first slot and with the last durable snapshot, and at each step to the next slot the "
     "running minimum must be kept or lowered to the snapshot of the slot unless the slot was found free (inductive over the slots); only a value not above this minimum is published or returned, and only when no "
     "reader has registered meanwhile. Every taking of a record of the garbage collection table (gc_alloc_ex, defrag_load_gc) must follow the finding that its number is not newer than the limit and that the "
     "record was not already used, and must be remembered; the limit is only ever assigned from that search. A page is given up for immediate reuse (page_retire_ex) only after it was found not to belong to a "
     "committed snapshot; a reader's slot is changed by others only after the application callback answered so.",
     "All paths of mvcc_shapshot_oldest_rw, gc_alloc_ex, defrag_load_gc, page_retire_ex, mvcc_kick_laggards; all assignments of the limit and of the published oldest snapshot. The merge of a nested transaction's released pages is not covered.",
     ["the number stored with a record of the garbage collection table is that of the transaction which released the pages"])

rule("C16", [("lib", ["C16"])], "path-sensitive value-range and typestate dataflow over LLVM IR, per kind of page",
     "check_page_header() is followed along all paths for each kind of page a caller can ask for: it accepts a page only if its kind is the admissible one, its id and transaction number are those of the snapshot, its "
     "boundaries lie inside the page (or the whole large page inside the used range). The functions which fetch a page from the file look it up only after its number was found below the used range, and answer "
     "success only after this header check (and the complete check when requested). Every caller in the library of a function which answers a page together with an error must have found the error absent (or the page present) "
     "before the first use of the page on each path, and must ask for the kind of page it then uses.",
     "All paths of the fetching functions and of all their callers. Not covered: the deeper content checks inside page_check(), and the direct accesses of the meta, garbage-collection walk and defragmentation code, which "
     "do not fetch through these functions.",
     ["the file is not truncated by others while it is mapped"])

rule("C14", [("lib", ["C14"])], "path-sensitive ownership typestate dataflow over LLVM IR (acquire / hand over / release), with derived release and capture summaries",
     "Every heap block, descriptor and file handle which a function of the library acquires (libc, functions derived to answer a fresh block, functions that leave one in a structure given by the caller) is followed along all paths: "
     "at each return it was released, answered to the caller, or stored in memory that outlives the function (a function which fails keeps nothing it was given); a holder is not released while it still holds something acquired here. "
     "Each member in which such a thing is ever stored must be released somewhere; env_close(), mdbx_env_close_ex() and txn_basal_destroy() release every resource of their object (or find it absent) on every path, and every error return of "
     "mdbx_env_open() after the first acquisition closes what was opened. Nothing is released again, or used, after free()/close() of the same value.",
     "All acquiring and releasing functions, all paths. Not covered here: locks (C03), reader slots (C10), the files of a copy (C25), shared cursors and pages kept in per-transaction lists, and releases which are wrong only together "
     "with the history of an object.",
     ["a function that reports an error does not keep what it was given", "descriptors returned by a successful open are not -1"])
