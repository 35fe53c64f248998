#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))
M = "mdbx.c"
T = "The two existing tests (c_api, c++_api) open one healthy database on a healthy disk and run one short single-threaded scenario; "

p("C01", "Invalid, closed or foreign handles are rejected before anything happens",
  "Every public function that reports an error code and takes an environment, transaction or cursor handle returns an error, without changing the database or any live handle, when a required handle is null, has been closed, or does not carry a live signature. Functions that work with the data of a transaction likewise reject a finished transaction and, unless the environment disabled thread binding, a call from a thread that does not own the transaction. The memory of a handle is released only after its signature was invalidated.",
  ["inputs", "programs", "histories"], "every public entry point x every invalid handle state x every moment of a program's life",
  T + "no test passes a bad handle, and the set of entry points x handle states is never enumerated.",
  [M, "mdbx.h"], [("check_env/check_txn/check_txn_rw/cursor_check family", M), ("guards at the top of each mdbx_* function", M)],
  ["return codes MDBX_EINVAL/EBADSIGN/EPERM/THREAD_MISMATCH/BAD_TXN"])
p("C02", "Read-only, blocked or failed transactions never modify data",
  "A transaction that is read-only, parked, finished, marked as failed, or suspended by a live nested transaction never changes a key, value, named table, canary, sequence or allocation state: every modifying call on it, or on a cursor bound to it, fails before the first change.",
  ["inputs", "programs", "histories"], "every modifying entry point x every combination of the transaction's state bits",
  T + "only one or two 'write in read-only txn' cases are sampled.",
  [M], [("check_txn_rw / cursor_check_rw", M)], ["MDBX_EACCESS/MDBX_BAD_TXN results"])
p("C03", "Locks are balanced on every path: no leaked, double or missing release",
  "Each acquisition of the single-writer lock, the reader-table lock, the per-environment handle and remap mutexes and the process-wide registry lock is released exactly once on every path, success or failure; the only call that leaves the writer lock held on return is one that successfully started a write transaction or explicitly took the lock, and the only calls that drop it are those that end such a transaction or explicitly release it. No path releases a lock it does not hold.",
  ["schedules", "fault_sequences", "programs"], "all control-flow paths, including every error return, through every function that takes or drops one of the locks",
  T + "a leaked lock on an error path needs an injected failure plus a second process/thread to be observed.",
  [M], [("lck_txn_lock/lck_txn_unlock, lck_rdt_lock/unlock, osal_fastmutex_*, rthc_lock/unlock, imports lock/unlock wrappers", M)],
  ["a later writer/reader blocks forever or corrupts shared state"])
p("C04", "Durable commit order: data reaches disk before the meta page that refers to it",
  "When a commit or sync reports success in the fully durable mode, all data pages written by the transaction were submitted and flushed before the new meta page was written, and the new meta page itself was flushed before success was returned; in the relaxed modes exactly the flushes that the mode's documentation allows are omitted. The same ordering holds for the memory-mapped-write variant and the file-write variant.",
  ["crash_points", "configurations", "histories"], "every commit/sync/checkpoint path x every durability mode x every crash point between the individual writes and flushes",
  T + "no test crashes the process or the machine, nor checks the order of write/flush system calls in each mode.",
  [M], [("dxb_sync_locked, txn_write, dxb_msync/osal_msync/osal_fsync/osal_ioring_write, meta_sync", M)],
  ["sequence of pwrite/msync/fdatasync relative to the meta page"])
p("C05", "A failed write, flush or lock operation is never reported as success",
  "If the operating system or an internal step reports an error while the library writes, flushes, resizes, maps, locks or reads the database on behalf of a call, that call does not return success: the error (or a more severe one) is returned to the caller, except for steps that are documented as best-effort.",
  ["fault_sequences", "inputs"], "every call site of an error-returning primitive x every path from the failing call to the API's return",
  T + "no fault is ever injected into a system call.",
  [M], [("err/rc propagation after every osal_*, lck_*, page_*, tree_*, cursor_*, gc_* call", M)], ["return code of the public call"])
p("C06", "A half-done modification can never be committed",
  "When a modifying operation fails after it may already have changed pages or allocation state of the transaction, the transaction is marked as failed, so every later operation except abort is refused and commit cannot publish the partial change.",
  ["fault_sequences", "inputs", "histories"], "every failing path of the operations that modify a transaction",
  T + "mid-operation failures (ENOMEM, MAP_FULL, corrupted page, I/O error) are never provoked.",
  [M], [("MDBX_TXN_ERROR marking in cursor_put/cursor_del/page_*/gc_*/tree_*", M)], ["MDBX_BAD_TXN from later calls"])
p("C07", "Temporary cursors never stay registered after the call that made them",
  "A cursor that an operation creates in its own stack frame and registers with the transaction so that it is kept up to date is always deregistered before the frame is left, on success and on every error path; user cursors stay registered until closed or unbound.",
  ["inputs", "fault_sequences"], "every path through every function that registers a frame-local cursor",
  T + "the dangling registration only matters on rarely taken error exits followed by further use of the transaction.",
  [M], [("txn->cursors[dbi] link/unlink around cx couples", M)], ["later operations dereference a dead stack frame"])
p("C08", "Copy-on-write: pages of a committed snapshot are never modified in place",
  "Every change of page content during a write transaction is applied to a page that belongs to this transaction (freshly allocated, copied, or explicitly un-spilled), never to a page that a committed snapshot or an active reader can still reference.",
  ["histories", "schedules", "programs"], "every call path that reaches a function writing into page contents",
  T + "an in-place overwrite is invisible without a concurrent reader on exactly that page or a crash.",
  [M], [("cursor_touch/page_touch*/page_unspill before node_add/node_del/page writes", M)], ["readers observe changing data"])
p("C09", "Meta page replacement is two-phase and never overwrites the newest steady state",
  "A new meta page is published by first invalidating the target copy, then filling all of its content, and only then making its transaction id valid, and its signature is set only to a value matching what has really been flushed. The page chosen for overwriting is never the most recent one nor the only steady one left, and nothing but the meta-update code writes to the meta pages.",
  ["crash_points", "schedules", "histories"], "all paths that write meta pages x all crash points x concurrent readers",
  T + "a torn or prematurely valid meta page needs a crash or a concurrent reader at that instruction.",
  [M], [("meta_update_begin/meta_update_end, dxb_sync_locked, meta_sync_override/wipe_steady, data_fd meta write sites", M)],
  ["state after crash at each store"])
p("C10", "A reader announces its snapshot before trusting it and is never missed",
  "A reader publishes the transaction id it is going to use in its slot and invalidates the cached oldest id before it re-checks that this snapshot is still current, retrying otherwise, so no writer can reclaim its pages; the slot is reserved under the reader-table lock, its owner is recorded before it can be considered in use, and it is cleared again when the read transaction ends, is reset or fails to start.",
  ["schedules", "crash_points"], "all interleavings of readers starting/ending with a writer scanning the table, and process death in between",
  T + "no test runs a reader concurrently with a writer at all.",
  [M], [("mvcc_bind_slot, ro_seize, txn_ro_start, txn_ro_end, txn_ro_park/unpark", M)], ["reader slot contents, MDBX_MVCC_RETARDED/MDBX_OUSTED"])
p("C11", "Freed pages are reused only when no reader can still need them",
  "Pages released by a transaction are taken back from the garbage collection table for reuse only if that transaction is not newer than the oldest snapshot held by any registered reader (nor newer than the last durable snapshot kept for recovery); the oldest snapshot is computed over every registered reader slot.",
  ["schedules", "histories", "crash_points"], "all histories of readers and writers, all contents of the reader table",
  T + "needs a long-living reader plus a writer that exhausts free space.",
  [M], [("gc_alloc_ex detent comparison, mvcc_shapshot_oldest_rw, txn_gc_detent", M)], ["page reuse vs reader slots"])
p("C12", "An environment opened read-only never writes to the data file",
  "Through an environment opened in read-only mode no public call opens the data file for writing, writes, truncates, extends, punches or msyncs it, or maps it writable, and no meta page is modified; a call that would need a write transaction is refused instead of being carried out.",
  ["programs", "inputs", "configurations"], "every public entry point x every call path to a data-file-modifying system call",
  T + "read-only environments are hardly exercised and file contents are never compared afterwards.",
  [M], [("MDBX_RDONLY checks on the paths to osal_pwrite/ftruncate/msync/mmap PROT_WRITE", M)], ["data file bytes/mtime"])
p("C13", "Every error code, exception and option is known to every table that needs it",
  "Each error code declared by the C API has its own message text, and each one that the C++ API declares an exception type for is converted to exactly that exception type; each environment option accepted by the setter is understood by the getter, and each kind of cursor request declared in the API is dispatched to a handler or explicitly refused.",
  ["inputs"], "every declared enumerator of the public enumerations",
  T + "only a handful of error codes and options are ever produced.",
  [M, "mdbx.h", "mdbx.h++", "mdbx.c++"], [("mdbx_liberr2str, error::throw_exception, mdbx_env_set_option/get_option, cursor_ops", M)], ["strings, exceptions"])
p("C14", "Failed operations release everything they acquired",
  "When opening, creating, copying or starting something fails half-way, every file descriptor, mapping, heap block, reader slot and lock acquired so far by that call is released or is left owned by a handle whose close releases it; nothing is released twice.",
  ["fault_sequences", "inputs"], "every failing path of every function that acquires OS or heap resources",
  T + "no failure is injected, so no error path that must release something is run.",
  [M], [("bailout paths with osal_free/osal_closefile/osal_munmap", M)], ["fd/heap/mapping leak"])
p("C15", "Memory exhaustion is reported, never dereferenced",
  "Every result of a memory allocation made by the library is tested before it is dereferenced or published, and exhaustion surfaces as an out-of-memory error of the public call.",
  ["fault_sequences", "inputs"], "every allocation site x allocation failure",
  T + "no allocation ever fails in the tests.",
  [M], [("null checks after osal_malloc/calloc/realloc, pnl_alloc, page_shadow_alloc, ...", M)], ["crash vs MDBX_ENOMEM"])
p("C16", "A damaged database yields an error code, not a crash or silent misuse",
  "A page that comes from the data file is used by tree operations only after its number was verified to lie inside the snapshot's used range and its header passed validation, and a failure of that verification is propagated as an error before any content of the page is used.",
  ["inputs"], "every page fetch x every possible (also corrupted) database file",
  T + "the tests never open a damaged database.",
  [M], [("page_get_any/page_get_three/page_get_inline/check_page_header", M)], ["MDBX_CORRUPTED/MDBX_PAGE_NOTFOUND"])
p("C17", "The C++ API turns every C error into an exception or an explicit result",
  "Every call that the C++ binding makes into the C API either throws on an error code, maps it to its documented boolean/optional result, or hands the code to its caller; no error code is silently dropped.",
  ["inputs", "fault_sequences"], "every C call made by the C++ binding x every error code",
  T + "few failing calls are made through the C++ API.",
  ["mdbx.h++", "mdbx.c++"], [("error::success_or_throw / boolean_or_throw / throw_on_failure wrappers", "mdbx.h++")], ["exceptions"])
p("C18", "Command-line tools exit non-zero when any database operation fails",
  "Each bundled command-line tool ends with a non-zero exit status when a database operation it depends on fails, so scripts never mistake a failed copy, dump, load, check or drop for success.",
  ["inputs", "fault_sequences"], "every library call made by each tool x every error code",
  "No test runs any of the tools.",
  ["mdbx_chk.c", "mdbx_copy.c", "mdbx_dump.c", "mdbx_load.c", "mdbx_drop.c", "mdbx_stat.c", "mdbx_defrag.c"],
  [("rc/err handling in main() of each tool", "mdbx_*.c")], ["process exit status"])
p("C19", "Every loop that waits or retries can terminate",
  "No public call can spin forever by construction: each loop either changes the state its exit condition depends on, or re-reads state that others may change, and has at least one feasible way out.",
  ["inputs", "schedules"], "all loops of the library",
  T + "a loop with no feasible exit is only noticed when that exact branch runs.",
  [M], [("loop exits", M)], ["call never returns"])
p("C20", "Aborting a nested transaction restores its parent; committing merges it",
  "After a nested transaction is aborted its parent observes exactly the content, tables, cursors, canary and geometry it had before; after it is committed the parent observes exactly the nested transaction's state.",
  ["histories", "programs"], "all sequences of operations in nested transactions",
  T + "nested transactions are sampled only by one or two trivial scenarios.",
  [M], [("nested_* functions", M)], ["content visible through the parent"])
p("C21", "Other cursors of the transaction stay valid when data under them changes",
  "When an operation inserts, deletes, splits, merges or moves data in a table, all other cursors of the same transaction (and its nested-table sub-cursors) positioned in that table still address the same item afterwards or are marked unpositioned; every primitive that replaces, splits, merges or shifts entries of a page walks all tracked cursors of that table.",
  ["histories", "programs"], "all operation sequences with several open cursors",
  T + "one cursor at a time is open in almost all tests.",
  [M], [("loops over txn->cursors[dbi] in page_touch/page_split/page_merge/node_move/cursor_put/cursor_del", M)], ["cursor position"])
p("C22", "Failure to persist a commit is fatal for the environment, not ignorable",
  "When publishing a commit to disk fails after the shared state may already be affected, the environment is marked as failed, the error is returned and every later attempt to start a transaction, to synchronise or to change settings through that environment is refused until it is reopened.",
  ["fault_sequences", "crash_points"], "every failing step of the commit-to-disk sequence",
  T + "disk failures are never injected.",
  [M], [("ENV_FATAL_ERROR marking in dxb_sync_locked and refusal in check_env/txn start", M)], ["MDBX_PANIC"])
p("C23", "Fields shared between processes are only accessed atomically",
  "Every access to the counters, ids and marks in the lock file that other processes read or write concurrently is a single untorn access of the declared width with the ordering the protocol needs, and never a plain multi-step read-modify-write; unordered or plain accesses are made only by the holder of the lock or slot that guards the field, or where the value is only a hint.",
  ["schedules"], "every access site of the shared lock-file structures",
  T + "single-process tests cannot observe torn or reordered accesses.",
  [M, "mdbx-internals.h"], [("mdbx_atomic_uint32_t/uint64_t with atomic_load/store/add/cas helpers", "mdbx-internals.h")], ["torn values"])
p("C24", "On failure no half-made handle is handed out",
  "A function that creates and returns a handle (environment, transaction, cursor, named table) through an output argument stores a usable handle there only when it reports success; on failure the output is null/zero or left untouched, and the half-made object is not reachable.",
  ["inputs", "fault_sequences"], "every creating entry point x every failing path",
  T + "only success paths of these calls are run.",
  [M], [("*ret/*out assignments in mdbx_env_create, mdbx_txn_begin_ex, mdbx_txn_clone, mdbx_cursor_open, mdbx_dbi_open*", M)], ["value of out-argument after failure"])
p("C25", "Backup copy is complete, consistent and durable when it reports success",
  "A copy of a live database is taken within a snapshot that is kept alive for the whole copy, every write of the copy is checked, the meta page of the copy is written last, the result is flushed unless the caller asked not to, and on any failure the call reports an error and does not leave a valid-looking copy.",
  ["crash_points", "schedules", "fault_sequences"], "all copy paths and flags x failures",
  T + "the copy function is not exercised under load, failure or crash.",
  [M], [("copy_asis/copy_with_compacting/copy2fd/copy2pathname", M)], ["copied file"])
p("C26", "Named-table handles are changed only under the handle lock",
  "The environment's table of named-table handles (names, states, sequence numbers and their count) is modified only while the handle mutex is held or while no other thread can have access, so concurrent opens and closes never hand out a wrong handle.",
  ["schedules"], "all interleavings of handle open/close/rename/use",
  T + "no test opens and closes handles concurrently.",
  [M], [("dbi_lock around dbi_open/dbi_close/dbi_update", M)], ["wrong table contents through a handle"])
p("C27", "Oversized or malformed keys and values are refused before anything is written",
  "A key or value whose length violates the limits of the table (maximum, minimum or fixed size) is refused with a size error before the operation changes any page, for every write mode and for nested duplicates.",
  ["inputs"], "all key/value lengths x table kinds x write flags",
  T + "only a few valid lengths are used.",
  [M], [("length checks at the top of cursor_put / cursor_put_checklen", M)], ["MDBX_BAD_VALSIZE"])
p("C28", "Data survives a round trip with correct order",
  "For every sequence of insertions and deletions, lookups and scans return exactly the surviving items in the order defined by the table's comparison function.",
  ["histories", "inputs"], "all operation sequences and key sets",
  T + "a few dozen keys are inserted.",
  [M], [("tree_search/node_search/page_split/rebalance", M)], ["lookup results"])
p("C29", "Size estimates and statistics agree with the content",
  "Range estimates, page and entry counts and geometry reports are numerically consistent with the actual content of the table.",
  ["inputs", "histories"], "all databases",
  T + "only trivial stats are compared.",
  [M], [("tree.items/branch_pages accounting, mdbx_estimate_*", M)], ["reported numbers"])
p("C30", "Growing and shrinking the file never loses data or exceeds the limits",
  "For every sequence of geometry settings and workloads the file size stays inside the configured bounds and every reader keeps access to its snapshot.",
  ["histories", "schedules", "configurations"], "all geometry parameters and workloads",
  T + "a couple of geometries are used.",
  [M], [("dxb_resize, mdbx_env_set_geometry", M)], ["file size, mapping"])
p("C31", "Recovery after the death of a lock owner repairs shared state before it is used",
  "When a process dies while holding one of the shared locks, the next process to obtain that lock re-validates the shared state and removes the dead process's marks before continuing, and gives up with an error when it cannot.",
  ["crash_points", "schedules"], "every lock and every point of the owner's death",
  T + "no process dies in the tests.",
  [M], [("lck_ipclock_failed, mvcc_cleanup_dead", M)], ["EOWNERDEAD handling"])
p("C32", "Unknown or contradictory flags are refused before side effects",
  "The public calls which validate their flag word (opening and re-flagging an environment, beginning and amending a transaction, opening a table, put and replace, deleting an environment, warm-up, copying) refuse every flag bit they do not define with an error before changing the database or any handle, for each of the possible words.",
  ["inputs"], "all 2^32 flag words of each flag-taking function",
  T + "only valid flag words are passed.",
  [M], [("flag mask checks in public functions", M)], ["MDBX_EINVAL"])

p("C33", "Open returns to the last durable snapshot and never overwrites existing data",
  "When the first process opens an environment, the head commit it continues from is either the newest intact durable (steady) commit or a weaker one that was written since the last boot of this machine and is intact; otherwise only the weak commits are rolled back onto the validated durable one, or the open fails with an error. A non-empty file is never initialised anew, and read-only, shared and recovery opens change nothing in the data file.",
  ["crash_points", "inputs"], "every state of the three meta pages and of the file size at open",
  "The two existing tests (c_api, c++_api) open one healthy database that was just created; no crash precedes an open and no file is truncated.",
  [M], [("dxb_setup, meta_override, dxb_read_header", M)], ["mdbx_env_open result and the meta pages after it"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
