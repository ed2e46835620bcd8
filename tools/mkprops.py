#!/usr/bin/env python3
"""Source of properties.jsonl (run from /verif: python3 tools/mkprops.py)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("P01", "Commit and rollback drive modules and logged events exactly once, in order",
  "When a transaction commits, every registered module is prepared, applied and finished exactly once in registration order, and every logged event is applied exactly once in the order it was appended; when it rolls back, modules are undone and every logged event of that attempt is undone exactly once in reverse order, and modules are finished. No event is both applied and undone, no event of an earlier attempt or transaction is ever replayed, and a failing step is reported to the recovery code instead of being silently dropped.",
  ["programs", "fault_sequences", "histories"],
  "For every set of modules, every sequence of appended events (across log growth), every outcome (commit, conflict, error, restart, irrevocable switch) and every position at which a module callback or event callback fails.",
  "The core test drives a handful of fixed transactions with one module; it never varies the number of events against log growth, the failing callback, or the attempt at which the failure happens.",
  ["src/picotm_tx.c", "src/picotm_log.c", "src/picotm_event.c", "src/picotm_module.c", "src/table.c", "src/picotm.c"],
  [("ordered event log", "src/picotm_log.c"), ("commit/rollback phases", "src/picotm_tx.c: picotm_tx_commit, picotm_tx_rollback")],
  ["module callbacks of include/picotm/picotm-module.h"])

p("P02", "Transaction control flow: restart, recovery, retry limit, error reporting",
  "A conflict, an explicit restart or a switch to irrevocability rolls the attempt back and re-executes the transaction from its beginning; an error rolls it back and runs the recovery code exactly once with the reported status, error code or errno and recoverability; leaving the transaction without error commits exactly once. The number of restarts is reported correctly, and a transaction that keeps conflicting runs irrevocably after a bounded number of restarts. After any outcome the same thread can run further transactions that behave as if it were the first.",
  ["histories", "programs", "fault_sequences"],
  "For every sequence of transactions on a thread and every sequence of outcomes (commit, conflict, each error kind, restart from execution or recovery, irrevocable) of their attempts.",
  "Tests take each path once in isolation; the combinations of outcomes over successive attempts and transactions are not enumerated.",
  ["src/picotm.c", "src/picotm_tx.c", "include/picotm/picotm.h", "src/picotm-error.c"],
  [("mode dispatch in begin", "src/picotm.c: __picotm_begin"), ("thread-local error", "src/picotm.c")])

p("P03", "An irrevocable transaction runs alone and is never rolled back by others",
  "While a transaction is irrevocable no other transaction is executing, and an irrevocable transaction is never aborted by a conflict with another transaction. A transaction that requests irrevocability eventually becomes irrevocable, and its effects are applied exactly once; revocable transactions resume afterwards.",
  ["schedules"],
  "For every interleaving of up to three threads running revocable transactions, explicitly irrevocable transactions and transactions that become irrevocable by the retry limit.",
  "Tests run irrevocable transactions under whatever schedule the OS picks; a window in which exclusivity is lost is a few instructions wide.",
  ["src/picotm_lock_manager.c", "src/picotm_lock_owner.c", "src/picotm_os_rwlock.c", "src/picotm_tx.c"],
  [("exclusivity lock", "src/picotm_lock_manager.c: picotm_lock_manager_make_irrevocable, _wait_irrevocable")])

p("P04", "No deadlock, no lost wake-up, no leaked lock",
  "Under every schedule, every group of transactions contending for the same locks terminates: no set of transactions waits for each other forever, no waiting transaction misses its wake-up, and waiting transactions are eventually served or restarted. After a transaction has committed, aborted or been recovered, all locks it held are free for any other transaction.",
  ["schedules"],
  "For every interleaving of up to three threads over up to three locks (reader, writer, upgrade), including transactions old enough to wait instead of restarting.",
  "Waiting only starts for transactions running for over a second, so the tests hardly ever enter the waiting code; deadlocks and lost wake-ups need exact interleavings.",
  ["src/picotm_lock_manager.c", "src/picotm_lock_owner.c", "src/picotm-lib-rwlock.c", "src/picotm-lib-rwstate.c", "src/picotm_os_cond.c", "src/picotm_os_mutex.c"],
  [("waiter list and wake-up", "src/picotm_lock_manager.c"), ("lock word with waiter index", "src/picotm-lib-rwlock.c")])

p("P05", "Reader/writer locks give mutual exclusion and consistent lock states",
  "At any time a picotm lock is held either by one writer or by any number of readers, never both; an upgrade succeeds only for the sole reader; a failing acquisition reports a conflict and leaves the caller's lock state as it was; a release makes the lock available again. The per-transaction lock state always agrees with what the lock grants.",
  ["schedules", "programs"],
  "For every interleaving and every program of lock, upgrade and unlock operations of up to three threads, and up to the maximum number of readers.",
  "No test exercises the lock directly, and reader-counter saturation, upgrade races and release races are schedule dependent.",
  ["src/picotm-lib-rwlock.c", "src/picotm-lib-rwlock.h", "src/picotm-lib-rwstate.c", "include/picotm/picotm-lib-rwlock.h", "include/picotm/picotm-lib-rwstate.h"],
  [("atomic lock word", "src/picotm-lib-rwlock.c"), ("lock-state machine", "src/picotm-lib-rwstate.c")])

p("P06", "Shared state is initialised once, used only while alive, and cleaned up once",
  "Objects shared through picotm's reference-counting and global-state helpers are initialised exactly once before any user sees them, are never observed uninitialised or after clean-up, and are cleaned up exactly once when the last reference is gone; initialisation errors are reported and leave the object unused. Conditional references that do not match leave the object unchanged.",
  ["schedules", "fault_sequences"],
  "For every interleaving of up to three threads acquiring, conditionally acquiring and releasing references, with and without initialisation failure, including full thread start-up and release.",
  "The first-use/last-release race happens once per process start or exit in the tests.",
  ["src/picotm-lib-shared-ref-obj.c", "include/picotm/picotm-lib-shared-ref-obj.h", "include/picotm/picotm-lib-shared-state.h", "include/picotm/picotm-lib-global-state.h", "include/picotm/picotm-lib-thread-state.h", "include/picotm/picotm-lib-ref.h", "include/picotm/picotm-lib-spinlock.h"],
  [("reference counter with init/uninit hand-off", "src/picotm-lib-shared-ref-obj.c"), ("spinlock", "include/picotm/picotm-lib-spinlock.h")])

p("P07", "Concurrent look-ups in a shared tree map agree on one value per key",
  "All threads looking up the same key in a shared tree map obtain the same value, the value is never torn or partially constructed, different keys never share a value, and clean-up visits each stored value exactly once while every created value that is not stored is destroyed. A look-up without a creator never creates a value.",
  ["schedules", "programs", "fault_sequences"],
  "For every interleaving of up to three threads' look-ups of equal, neighbouring and distant keys, including failing creators and failing allocations.",
  "The map is only used indirectly by tests, and the insertion race needs two threads inside the same few instructions.",
  ["src/picotm-lib-shared-treemap.c", "include/picotm/picotm-lib-shared-treemap.h"],
  [("compare-and-swap insertion", "src/picotm-lib-shared-treemap.c")])

p("P08", "Module helper containers behave as maps, lists and counters",
  "The sequential tree map returns for every key the value created for it, creates each at most once, visits every value exactly once in traversals and reports creator failures; the linked list, table and reference-counter helpers follow their documented sequential semantics for every operation sequence, and the address, array and container helpers compute what they document.",
  ["programs", "inputs"],
  "For every operation sequence up to the depth bound over keys that collide and diverge at every level of the tree.",
  "Tests reach these only through higher-level modules with small dense keys.",
  ["src/picotm-lib-treemap.c", "src/picotm-lib-tab.c", "include/picotm/picotm-lib-treemap.h", "include/picotm/picotm-lib-slist.h", "include/picotm/picotm-lib-ref.h", "include/picotm/picotm-lib-tab.h", "include/picotm/picotm-lib-ptr.h", "include/picotm/picotm-lib-array.h"],
  [("radix tree", "src/picotm-lib-treemap.c"), ("table helpers", "src/picotm-lib-tab.c")])

p("P09", "Transactional memory is serializable and never exposes uncommitted data",
  "Under every schedule the committed transactions on shared memory have the effect of some one-after-the-other order consistent with real time, for final memory contents as well as for every value a committed transaction read. A transaction, even one that later aborts, never observes a mix of states that no such order produces, and never another transaction's uncommitted writes.",
  ["schedules", "programs"],
  "For every interleaving (up to the preemption bound) of two and three threads and every small program of loads, stores, load-stores and privatizations over a few shared variables in one or several blocks and frames.",
  "Tests check final sums of long random runs; a rare interleaving that tears a block or lets a stale read commit is not reached or not noticed.",
  ["modules/tm/src/vmem_tx.c", "modules/tm/src/page.c", "modules/tm/src/frame.c", "modules/tm/src/framemap.c", "modules/tm/src/vmem.c", "src/picotm-lib-rwlock.c"],
  [("per-frame reader/writer locks", "modules/tm/src/frame.c"), ("write-back buffers", "modules/tm/src/page.c")])

p("P10", "Transactional memory reads its own writes; commit keeps all, abort keeps none",
  "Within a transaction a load returns the bytes most recently stored by the same transaction, or memory's contents otherwise, for every size, alignment, overlap and mix of load, store, load-store and privatization; after commit memory holds exactly the transaction's stores and writes to privatized memory. After an abort at any point memory is byte-for-byte what it was before, outside the regions the caller asked to discard.",
  ["programs", "inputs"],
  "For every sequence of operations up to the depth bound over offsets and lengths around block boundaries, ended by commit or by abort and retry.",
  "Tests use a few fixed aligned accesses and hardly combine operation kinds on the same block.",
  ["modules/tm/src/vmem_tx.c", "modules/tm/src/page.c", "modules/tm/src/block.h", "modules/tm/include/picotm/picotm-tm.h"],
  [("page buffer with per-byte state", "modules/tm/src/page.c"), ("region loops", "modules/tm/src/vmem_tx.c")])

p("P11", "Transactional lists behave as lists, and aborts leave no trace",
  "Within a transaction every operation on a transactional list returns what a plain sequence would, including iteration in both directions, size and emptiness; after commit the list holds exactly the resulting sequence. After an abort or error at any point the list is exactly as before the transaction.",
  ["programs", "fault_sequences"],
  "For every sequence of list operations up to the depth bound, from every small initial list, split into transactions that commit or abort at any point.",
  "Tests run fixed scripts; undo of mixed insert/erase sequences at all positions is not enumerated.",
  ["modules/txlib/src/txlist.c", "modules/txlib/src/txlist_tx.c", "modules/txlib/src/txlist_entry.c", "modules/txlib/src/txlist_state.c", "modules/txlib/src/txlib_tx.c", "modules/txlib/src/txlib_event.c"],
  [("undo events", "modules/txlib/src/txlist_tx.c")])

p("P12", "Transactional multisets stay sorted search trees, and aborts leave no trace",
  "Within a transaction every operation on a transactional multiset returns what a sorted multiset would, including find, bounds, iteration in both directions, counting of equal keys, size and emptiness; after commit it holds exactly the resulting multiset. After an abort or error at any point the multiset has exactly its previous elements.",
  ["programs", "fault_sequences"],
  "For every sequence of multiset operations up to the depth bound with equal and distinct keys, from every small initial tree shape, split into transactions that commit or abort at any point.",
  "Tests run fixed scripts with few duplicates; tree shapes and undo paths are not enumerated.",
  ["modules/txlib/src/txmultiset.c", "modules/txlib/src/txmultiset_tx.c", "modules/txlib/src/txmultiset_entry.c", "modules/txlib/src/txmultiset_state.c"],
  [("binary search tree with in-place undo", "modules/txlib/src/txmultiset_tx.c, txmultiset_entry.c")])

p("P13", "Transactional queues and stacks keep FIFO/LIFO order across commits and aborts",
  "Within a transaction a transactional queue behaves as a FIFO and a transactional stack as a LIFO container over their committed contents followed by the transaction's own operations; after commit the container holds exactly the result. After an abort or error at any point it is exactly as before.",
  ["programs", "fault_sequences"],
  "For every sequence of push, pop, front/top, back, size and empty operations up to the depth bound over several transactions that commit or abort.",
  "Tests use a handful of fixed scripts, each with either pushes or pops.",
  ["modules/txlib/src/txqueue.c", "modules/txlib/src/txqueue_tx.c", "modules/txlib/src/txqueue_state.c", "modules/txlib/src/txstack.c", "modules/txlib/src/txstack_tx.c", "modules/txlib/src/txstack_state.c"],
  [("transaction-local containers merged at commit", "modules/txlib/src/txqueue_tx.c, txstack_tx.c")])

p("P14", "Transactional containers are serializable under concurrency",
  "When several threads run transactions on shared lists, multisets, queues and stacks, the committed transactions have the effect and return values of some one-after-the-other order; no element is lost, duplicated or seen before its transaction committed, and a container is never structurally damaged.",
  ["schedules", "programs"],
  "For every interleaving up to the preemption bound of two or three threads and small programs on each container type and on pairs of containers.",
  "Container tests with several threads only check that nothing crashes under the schedules that happen to occur.",
  ["modules/txlib/src/txlist_tx.c", "modules/txlib/src/txmultiset_tx.c", "modules/txlib/src/txqueue_tx.c", "modules/txlib/src/txstack_tx.c", "modules/txlib/src/txlib_tx.c"],
  [("per-container locks", "modules/txlib/src/*_tx.c")])

p("P15", "Transactional allocation neither leaks nor frees early or twice",
  "Memory allocated in a transaction that commits stays allocated with the requested size, alignment and contents, and is released by an abort; memory freed in a transaction is released exactly once, at commit, and stays valid and unchanged after an abort. Reallocation preserves the old contents up to the smaller size, and impossible requests fail with an error instead of returning a smaller block.",
  ["programs", "inputs", "fault_sequences"],
  "For every sequence of malloc, calloc, realloc, posix_memalign and free up to the depth bound with every abort point and every failing underlying allocation, and for size arguments around all overflow boundaries.",
  "Tests allocate a few fixed sizes and run valgrind on the committing path only.",
  ["modules/libc/src/allocator/allocator_tx.c", "modules/libc/src/allocator/allocator_log.c", "modules/libc/src/allocator/module.c", "modules/libc/src/stdlib.c", "modules/libc/src/stdlib-tm.c"],
  [("allocate now, free at commit or undo", "modules/libc/src/allocator/allocator_tx.c")])

p("P16", "Transactional string and memory functions compute what the C library does",
  "Every transactional variant of a C string or memory function returns the same result and leaves the same bytes in memory as the C-library function on the same arguments, seeing the transaction's own earlier writes. It reads and writes no memory outside the ranges the C function may access, and an abort restores all destination bytes.",
  ["inputs", "programs"],
  "For all strings up to the length bound over a small alphabet including bytes above 127, all counts, offsets and overlaps, inside transactions that commit or abort, with and without earlier transactional stores to the arguments.",
  "The existing tests cover none of these functions systematically.",
  ["modules/libc/src/string.c", "modules/libc/src/string-tm.c", "modules/libc/include/picotm/string.h", "modules/libc/include/picotm/string-tm.h"],
  [("privatize then call libc", "modules/libc/src/string-tm.c")])

p("P17", "errno is saved and restored around transactions",
  "If a transaction aborts, errno has the value it had when the transaction began, or when it was first saved, no matter which operations ran in between; if it commits, errno is whatever the transaction left. A transaction that retries starts every attempt with the original errno.",
  ["programs", "histories"],
  "For every sequence of errno-saving operations, direct errno modifications and outcomes over several attempts and transactions.",
  "Tests inspect errno on one path only.",
  ["modules/libc/src/error/error_tx.c", "modules/libc/src/error/module.c", "modules/libc/src/errno.c"],
  [("saved errno", "modules/libc/src/error/error_tx.c")])

p("P18", "Regular-file I/O in a transaction equals direct I/O; aborts leave no trace",
  "Within a transaction read, write, pread, pwrite, lseek and fsync on a regular file return the results and data that direct system calls would, seeing the transaction's own writes; after commit the file contents, length and offset equal those of the direct execution. After an abort contents, length and offset are what they were before.",
  ["programs", "fault_sequences"],
  "For every sequence of operations up to the depth bound over offsets around buffer, record and end-of-file boundaries, with every abort point, on one or several descriptors of the same file.",
  "Tests run single operations followed by commit; mixed sequences, holes, short reads and aborts are not enumerated.",
  ["modules/libc/src/fildes/regfile_tx_ops.c", "modules/libc/src/fildes/regfile_tx.c", "modules/libc/src/fildes/seekbuf_tx.c", "modules/libc/src/fildes/iooptab.c", "modules/libc/src/fildes/ioop.c", "modules/libc/src/fildes/fildes_tx.c"],
  [("write set applied in log order", "modules/libc/src/fildes/seekbuf_tx.c, regfile_tx_ops.c")])

p("P19", "Concurrent transactions on one file are isolated and serializable",
  "When several threads run transactions that read, write and seek on the same regular file, through shared or separate descriptors, the data each committed transaction read and the final file contents and offsets are those of some one-after-the-other order. Uncommitted data is never visible to other transactions, and transactions on disjoint parts of a file never block each other forever.",
  ["schedules", "programs"],
  "For every interleaving up to the preemption bound of two or three threads over records, record boundaries, file size and shared offsets.",
  "Tests with several threads check only that the program terminates.",
  ["modules/libc/src/fildes/rwlockmap.c", "modules/libc/src/fildes/rwcountermap.c", "modules/libc/src/fildes/rwcounter.c", "modules/libc/src/fildes/seekbuf.c", "modules/libc/src/fildes/regfile_tx.c", "modules/libc/src/fildes/filebuftab.c", "modules/libc/src/fildes/filetab.c"],
  [("record locks", "modules/libc/src/fildes/rwcountermap.c"), ("file tables keyed by identity", "modules/libc/src/fildes/filebuftab.c, filetab.c")])

p("P20", "Opening, closing and duplicating descriptors is transactional",
  "A descriptor opened, created, piped or duplicated in a transaction is usable in it, stays open after commit and is closed again by an abort; a descriptor closed in a transaction is closed exactly once, at commit, and remains open and usable after an abort. Using a descriptor after the transaction closed it fails with EBADF, and no descriptor is leaked, closed twice or confused with another file that reuses its number.",
  ["programs", "fault_sequences", "schedules"],
  "For every sequence of open, close, dup, dup2, pipe, fcntl and I/O operations up to the depth bound with commit or abort at any point, and for every interleaving of two threads sharing descriptors.",
  "Tests open and close one file per transaction and always commit.",
  ["modules/libc/src/fildes/fd.c", "modules/libc/src/fildes/fd_tx.c", "modules/libc/src/fildes/fdtab.c", "modules/libc/src/fildes/fildes_tx.c", "modules/libc/src/fildes/openop.c", "modules/libc/src/fildes/module.c"],
  [("descriptor state and reference count", "modules/libc/src/fildes/fd.c"), ("deferred close", "modules/libc/src/fildes/fd_tx.c")])

p("P21", "Writes to pipes, FIFOs, sockets and devices appear exactly once, at commit",
  "Data written to a pipe, FIFO, socket or character device in a transaction becomes visible to readers only at commit, exactly once and in program order across writes and descriptors; after an abort nothing of it is ever visible. Operations that cannot be undone make the transaction irrevocable before they take effect.",
  ["programs", "fault_sequences"],
  "For every sequence of writes, sends, reads and other operations on two descriptors up to the depth bound, with commit, abort and retry at every point.",
  "Tests commit one write per transaction.",
  ["modules/libc/src/fildes/fifo_tx_ops.c", "modules/libc/src/fildes/socket_tx_ops.c", "modules/libc/src/fildes/chrdev_tx_ops.c", "modules/libc/src/fildes/pipebuf_tx.c", "modules/libc/src/fildes/sockbuf_tx.c", "modules/libc/src/fildes/fildes_log.c"],
  [("buffered write set", "modules/libc/src/fildes/pipebuf_tx.c, sockbuf_tx.c")])

p("P22", "The working directory follows the transaction and is restored by aborts",
  "Within a transaction getcwd and relative pathnames reflect the transaction's own directory changes; after commit the process is in the last directory chosen, and after an abort in the directory it was in before, for every sequence of changes. Concurrent transactions observe directory changes only after commit.",
  ["programs", "schedules", "fault_sequences"],
  "For every sequence of chdir, fchdir, getcwd and relative-path calls, including failing ones, with commit or abort at any point, and for every interleaving of two threads.",
  "Tests perform one change and commit.",
  ["modules/libc/src/cwd/cwd_tx.c", "modules/libc/src/cwd/cwd.c", "modules/libc/src/cwd/module.c"],
  [("undo by changing back", "modules/libc/src/cwd/cwd_tx.c"), ("directory lock", "modules/libc/src/cwd/cwd.c")])

p("P23", "Locale changes are transactional",
  "Within a transaction setlocale and uselocale return and take effect as outside; after commit the chosen locales are active, and after an abort all categories and the thread's locale are as before, for every sequence of changes. Locale objects created in an aborted transaction are released, and objects freed in one stay valid.",
  ["programs", "schedules"],
  "For every sequence of setlocale (each category and query), newlocale, duplocale, uselocale and freelocale up to the depth bound, committed or aborted, and for every interleaving of two threads.",
  "Tests set one locale and commit.",
  ["modules/libc/src/locale/locale_tx.c", "modules/libc/src/locale/locale.c", "modules/libc/src/locale/locale_log.c", "modules/libc/src/locale/module.c"],
  [("undo log of previous locales", "modules/libc/src/locale/locale_tx.c")])

p("P24", "Error signals inside a transaction lead to recovery, outside to the old handler",
  "A signal that has been acquired from the process and added by a thread aborts the transaction in whose code it is raised on that thread and runs the recovery code with the signal's information, marked as recoverable or not as requested; a recovered transaction can run again, with the signal mask as before. Outside of transactions, in recovery code, and on threads that have not added it, the signal reaches the handler for non-transactional code, and leaves transactions alone. Releasing a signal restores the program's disposition. A signal that arrives within picotm's functions does not disturb them.",
  ["programs", "histories"],
  "For every signal number, every history of acquiring, adding, transactions, recoveries and releases up to the depth bound, and for a signal at every step of the interface functions.",
  "Tests raise each signal once.",
  ["modules/libc/src/signal/sigstate.c", "modules/libc/src/signal/signal_tx.c", "modules/libc/src/signal/module.c"],
  [("signal-handler installation", "modules/libc/src/signal/sigstate.c")])

p("P25", "Transactional casts preserve the value or report out-of-range",
  "For every pair of integer types a transactional cast returns exactly the input value if the destination type can represent it, and otherwise sends the transaction into recovery with the range error. It never returns a changed value and never rejects a representable one.",
  ["inputs"],
  "For every value of the 8- and 16-bit types and every boundary neighbourhood of wider types, over all ordered type pairs.",
  "Tests try a few values per pair; the failing ones are single values at sign and width boundaries.",
  ["modules/cast/src/cast.c", "modules/cast/include/picotm/picotm-cast.h", "modules/cast/include/picotm/picotm-cast-ctypes.h"],
  [("range comparison", "modules/cast/include/picotm/picotm-cast.h")])

p("P26", "Transactional arithmetic returns the exact result or reports a range error",
  "Transactional add, subtract, multiply and divide return the exact mathematical result whenever the type can represent it, and otherwise (overflow, underflow, division by zero) send the transaction into recovery. They never return a wrapped result, never raise a hardware trap and never reject a representable result.",
  ["inputs"],
  "For every operand pair of the 8-bit types, every pair from boundary neighbourhoods of all wider integer types, and a grid of floating-point operands including zeros, subnormals and extremes.",
  "Tests try a few operand pairs; wrong branches show only for particular sign and magnitude combinations.",
  ["modules/arithmetic/include/picotm/picotm-arithmetic.h", "modules/arithmetic/include/picotm/picotm-arithmetic-ctypes.h", "modules/arithmetic/src/arithmetic.c"],
  [("pre-condition checks per type", "modules/arithmetic/include/picotm/picotm-arithmetic.h")])

p("P27", "Transactional math functions match libm and report math errors",
  "Every transactional math function returns the bits libm returns for the same arguments when libm signals no error, and sends the transaction into recovery when libm signals one. An abort restores the floating-point error flags and all result arguments, and errors signalled before the transaction or by another operation are not attributed to a function.",
  ["inputs", "histories"],
  "For every function over a grid of ordinary and exceptional operands, with floating-point flags clear or set beforehand, committed and aborted.",
  "Tests call each function once with one ordinary operand.",
  ["modules/libm/src/math.c", "modules/libm/src/math-tm.c", "modules/libm/src/complex.c", "modules/libm/src/matherr.c", "modules/libm/src/fpu_tx.c", "modules/libm/src/module.c"],
  [("error detection around the call", "modules/libm/src/matherr.c"), ("saved environment", "modules/libm/src/fpu_tx.c")])

p("P28", "Data associated with an address is found again, per thread and shared",
  "Data associated with an address through the pointer-data module is returned by every later look-up of that address, and by no look-up of another one, until it is changed or cleared; it does not depend on how transactions end. Thread-local data is visible to its thread only, shared data to every thread that looks it up. Operations on shared data are atomic: test-and-set replaces exactly the expected value and exactly one of several competing calls succeeds. A failing allocation is reported and changes nothing, and nothing stays allocated once all threads have released the module.",
  ["schedules", "programs", "fault_sequences"],
  "For every operation sequence up to the depth bound over addresses that differ in all parts of the key, with transactions that commit, abort and restart, and for every interleaving of two or three threads on equal and distinct addresses.",
  "No test uses this module directly.",
  ["modules/ptrdata/src/ptrdata.c", "modules/ptrdata/src/ptrdata_tx.c", "modules/ptrdata/src/module.c", "modules/ptrdata/src/picotm-ptrdata.c", "modules/ptrdata/include/picotm/picotm-ptrdata.h"],
  [("shared pointer map", "modules/ptrdata/src/ptrdata.c")])

p("P29", "Resource failures inside a transaction are recovered without partial effects",
  "If memory allocation or another resource acquisition fails at any point inside a transaction, the transaction either completes correctly or is rolled back and reported to its recovery code; it never crashes, hangs, leaks locks or leaves partial effects in memory, containers or files. After the failure other transactions proceed normally.",
  ["fault_sequences", "programs"],
  "For representative transactions over all modules, with each single allocation failing in turn (and each pair in the thorough tier).",
  "The tests never inject an allocation failure.",
  ["src/picotm_tx.c", "src/picotm-lib-tab.c", "modules/tm/src/vmem_tx.c", "modules/txlib/src/txlib_tx.c", "modules/libc/src/fildes/fildes_tx.c", "modules/libc/src/allocator/allocator_log.c"],
  [("error propagation to recovery", "all modules")])

p("P30", "Filesystem and descriptor-attribute calls take effect once or not at all",
  "Directory-entry and file-attribute calls in a transaction (link, unlink, mkdir, mkfifo, mkstemp, stat, fstat, chmod, fchmod and the like) return what the direct call would and report its failures through recovery or the documented return value. Their effects exist exactly once after commit, never partially after an abort.",
  ["programs", "fault_sequences"],
  "For every sequence of such calls up to the depth bound with commit or abort at any point and with existing and missing targets.",
  "Tests call each function once and commit.",
  ["modules/libc/src/fildes/fildes_tx.c", "modules/libc/src/sys_stat.c", "modules/libc/src/unistd.c", "modules/libc/src/stdlib.c", "modules/libc/src/sys_stat-tm.c", "modules/libc/src/unistd-tm.c"],
  [("irrevocable or undoable execution", "modules/libc/src/fildes/fildes_tx.c")])

p("P31", "Formatted output into memory and input from it is transactional and bounded",
  "Transactional snprintf, sscanf, strftime and strptime variants return and store what the C-library functions do for the same format and arguments (string conversions of input need a field width), see the transaction's own writes in string arguments, and write only within the given size. An abort restores every destination.",
  ["inputs", "programs"],
  "For formats combining every supported conversion with flags, width, precision and argument kinds, all destination sizes, committed and aborted.",
  "Tests do not exercise formatted output.",
  ["modules/libc/src/stdio.c", "modules/libc/src/stdio-tm.c", "modules/libc/src/time.c"],
  [("privatize arguments and destination, then call libc", "modules/libc/src/stdio-tm.c")])

p("P32", "Leaving the process from inside a transaction commits it first",
  "exit_tx, _exit_tx, _Exit_tx and abort_tx first commit the transaction and then end the process with the given status or SIGABRT; they never return. All effects of the transaction, including those deferred to commit, and only those, are visible to other processes, and exit handlers run after the commit and can run transactions. If the commit fails, the transaction restarts or recovers and the process does not end.",
  ["programs", "histories"],
  "For every sequence of transactional operations up to the depth bound before the call, with restarts, conflicts, irrevocability and errors before or in the commit.",
  "No test calls these functions.",
  ["modules/libc/src/stdlib.c", "modules/libc/src/unistd.c", "src/picotm.c"],
  [("__picotm_commit() before the C-library call", "modules/libc/src/stdlib.c")])

with open("properties.jsonl", "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
