"""Harnesses of each check."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def h(name, flavor, *mods, **kw):
    return dict(harness=V + "/checks/" + name + ".c", mods=list(mods) or ["core"], flavor=flavor,
                out=name + "-" + flavor + "".join(kw.get("extra", ())), **kw)
CHECKS = {
    "P27": [h("p27", "plain", "libm", extra=["-D_GNU_SOURCE", "-frounding-math", "-DPICOTM_LIBM_HAVE_ASINL=1"])],
    "P26": [h("p26", "plain", "arithmetic")],
    "P25": [h("p25", "plain", "cast")],
    "P01": [h("p01", "asan", "core", extra=["-DPROP=1"])],
    "P02": [h("p01", "asan", "core", extra=["-DPROP=2"])],
    "P10": [h("p10", "asan", "tm")],
    "P03": [h("p03", "mc", "tm", nosan=True)],
    "P04": [h("p05", "mc", "core", extra=["-DPROP=4"], nosan=True)],
    "P05": [h("p05", "mc", "core", extra=["-DPROP=5"], nosan=True)],
    "P06": [h("p06", "mc", "tm")],
    "P07": [h("p07", "mc", "core")],
    "P08": [h("p08", "asan", "core")],
    "P09": [h("p09", "mc", "tm")],
    "P11": [h("p11", "asan", "txlib", extra=["-DPROP=11"])],
    "P12": [h("p11", "asan", "txlib", extra=["-DPROP=12"])],
    "P14": [h("p14", "mc", "txlib", nosan=True)],
    "P16": [h("p16", "asan", "libc", "tm", extra=["-D_GNU_SOURCE", "-fno-builtin"])],
    "P15": [h("p15", "asan", "libc", "tm", extra=["-D_GNU_SOURCE", "-fno-builtin"]), h("p15c", "mc", "libc", "tm", nosan=True)],
    "P31": [h("p31", "asan", "libc", "tm", extra=["-D_GNU_SOURCE", "-fno-builtin"])],
    "P32": [h("p32", "asan", "libc", "tm", extra=["-D_GNU_SOURCE", "-fno-builtin"])],
    "P18": [h("p18", "asan", "libc", "tm", extra=["-D_GNU_SOURCE", "-fno-builtin"])],
    "P22": [h("p30", "asan", "libc", "tm", extra=["-D_GNU_SOURCE", "-fno-builtin", "-DPROP=22"]), h("p22c", "mc", "libc", "tm", extra=["-D_GNU_SOURCE"], nosan=True)],
    "P30": [h("p30", "asan", "libc", "tm", extra=["-D_GNU_SOURCE", "-fno-builtin"])],
    "P23": [h("p23", "asan", "libc", "tm", extra=["-D_GNU_SOURCE"]), h("p23c", "mc", "libc", "tm", extra=["-D_GNU_SOURCE"], nosan=True)],
    "P24": [h("p24", "plain", "libc", "tm", extra=["-D_GNU_SOURCE"]), h("p24", "mc", "libc", "tm", extra=["-D_GNU_SOURCE", "-DTHREADS"])],
    "P29": [h("p29", "asan", "libc", "libm", "tm", "txlib", extra=["-D_GNU_SOURCE", "-fno-builtin"])],
    "P28": [h("p28", "asan", "ptrdata"), h("p28", "mc", "ptrdata", extra=["-DTHREADS"])],
    "P21": [h("p21", "asan", "libc", "tm", extra=["-D_GNU_SOURCE", "-fno-builtin"], redef=["read", "write", "writev", "send", "recv"]), h("p21c", "mc", "libc", "tm", extra=["-D_GNU_SOURCE"], nosan=True)],
    "P20": [h("p20", "asan", "libc", "tm", extra=["-D_GNU_SOURCE", "-fno-builtin"]), h("p20c", "mc", "libc", "tm", extra=["-D_GNU_SOURCE"], nosan=True)],
    "P19": [h("p19", "mc", "libc", "tm", extra=["-D_GNU_SOURCE"], nosan=True)],
    "P17": [h("p17", "asan", "libc", "tm", extra=["-D_GNU_SOURCE", "-fno-builtin"])],
    "P13": [h("p11", "asan", "txlib", extra=["-DPROP=13"])],
}
SCHED = "stateless model checking of the compiled code: all thread schedules up to a preemption bound"
SEQ = "bounded exhaustive enumeration of operation sequences on the compiled code against a reference model"
TECH = {
    "P25": (SEQ, "model_checking", "every provided type pair; 8/16-bit values exhaustively, wider ones near every power of two and limit"),
    "P26": (SEQ, "model_checking", "every type and operation; 8-bit operand pairs exhaustively, wider ones over boundary values"),
    "P27": (SEQ, "model_checking", "every function over special and boundary values x four transaction contexts, libm as the reference"),
    "P01": (SEQ, "model_checking", "module and event counts up to their limits, all commit, rollback and failure points, compared with a reference order"),
    "P02": (SEQ, "model_checking", "all sequences of outcomes (commit, conflict, restart, irrevocable, error, failing step) up to a depth, retry limit"),
    "P10": (SEQ, "model_checking", "operation sequences up to length 3 (4) over 40 bytes with commit, error and conflict at the end; every typed accessor"),
    "P11": (SEQ, "model_checking", "all histories of up to 4-6 list operations and transaction ends over one and two lists, with a failing allocation at every point"),
    "P12": (SEQ, "model_checking", "all histories of up to 4-6 multiset operations and transaction ends over one and two multisets with equal keys, with a failing allocation at every point"),
    "P13": (SEQ, "model_checking", "all histories of up to 6-9 queue and stack operations and transaction ends over one and two containers, with a failing allocation at every point"),
    "P14": (SCHED, "model_checking", "pairs of two-operation transactions on lists, multisets, queues and stacks, and triples, with errors; serializability oracle and race detection"),
    "P08": (SEQ, "model_checking", "operation sequences on tree maps, linked lists, tables and reference counters against plain arrays; failing creators, visitors and allocations"),
    "P15": (SEQ, "model_checking", "all histories of up to 2-4 allocation calls, releases and stores with commit, error and conflict; failing allocation at every point; sizes near every power of two and overflowing products"),
    "P31": (SEQ, "model_checking", "every conversion with all flags, widths, precisions and length modifiers, pairs and triples, every strftime and strptime conversion and pairs, sizes around the output's length, own writes, commit and abort; the C library as the reference; poisoned surroundings"),
    "P32": (SEQ, "model_checking", "all programs of up to two (three) operations x exit_tx, _exit_tx, _Exit_tx, abort_tx x restart, conflict, irrevocability, conflict and error in commit; the parent process checks all effects, the status, the callbacks and an exit handler's transaction"),
    "P18": (SEQ, "model_checking", "all sequences of up to three read, write, pread, pwrite, lseek, fsync and fstat operations on a file x open mode x offset x commit, error, restart, conflict, irrevocability; four operations with a duplicated or second descriptor; two transactions; the same direct calls on a second file as the reference"),
    "P19": (SCHED, "model_checking", "two and three transactions with up to two operations each on one or two files, at positions around record boundaries, with the shared offset, own descriptors and attributes; serial orders on an array model; locks free afterwards"),
    "P20": (SEQ + "; " + SCHED, "model_checking", "all sequences of up to two (thorough: four) operations that open, close, duplicate, modify and use descriptors x commit, error, restart, conflict, irrevocability, _tx and _tm, with failing allocations; the direct calls with descriptors of the same kinds as the reference; two and three threads against all serial orders"),
    "P21": (SEQ + "; " + SCHED, "model_checking", "all sequences of up to two (thorough: four) writes, sends, reads and other operations on pipes, FIFOs, sockets and a device x commit, error, restart, conflict, irrevocability, blocking and non-blocking, with interrupted calls, short writes and failing allocations; the direct calls on channels of the same kinds as the reference, observed after every operation; two and three threads against all serial orders"),
    "P23": (SEQ + "; " + SCHED, "model_checking", "all sequences of up to three (thorough: four) locale operations x commit, error, restart, conflict, irrevocability, with failing allocations and leak accounting, against the same direct calls; two threads against all serial orders"),
    "P24": (SEQ + "; " + SCHED, "model_checking", "all sequences of three operations (thorough: four) on two signals, and three operations after enabling a signal, every signal number, against a table of dispositions; a signal delivered before every step of the interface functions and of a transaction; two and three threads"),
    "P29": (SEQ, "model_checking", "50 operations of all modules, single and in pairs, with every allocation failing in turn, as the first transaction of a thread and after others; the state before and the failure-free run on another thread as reference"),
    "P28": (SEQ + "; " + SCHED, "model_checking", "all sequences of up to three (thorough: four) operations on nine addresses and transaction ends against plain arrays, with failing allocations and leak accounting; two and three threads against all linearizations"),
    "P22": (SEQ + "; " + SCHED, "model_checking", "all sequences of up to three directory changes, look-ups and path operations x commit, error, restart, conflict, irrevocability, with failing allocations; the direct calls in a second tree as the reference; two and three threads against all serial orders"),
    "P30": (SEQ, "model_checking", "every directory-entry, attribute and open operation with existing, missing, linked and malformed targets, alone and in all pairs (triples) x commit, error, restart, conflict, irrevocability, with failing allocations; the direct calls in a second tree as the reference"),
    "P17": (SEQ, "model_checking", "every libc operation that can fail (and some that succeed), alone and in all pairs, x commit, error, conflict, restart and irrevocability x errno at begin; the direct call gives the expected error"),
    "P16": (SEQ, "model_checking", "every function over text lengths, alignments, overlaps, bounds and own earlier writes, with commit and abort; the C library as the reference; poisoned surroundings"),
    "P03": (SCHED, "model_checking", "pairs and triples of transactions of eight kinds; monitor of which transactions execute while one is irrevocable"),
    "P04": (SCHED, "model_checking", "two to four threads over two locks, every outcome, short and long-running (waiting) transactions, more than 15 lock owners"),
    "P05": (SCHED, "model_checking", "all lock programs of length up to 3 on the real lock, shadow record of holders, reader limit, waiter indices"),
    "P06": (SCHED, "model_checking", "reference-counted objects, global and thread state, spinlock and picotm's own state with two and three threads; all sequences of six reference operations"),
    "P07": (SCHED, "model_checking", "two and three threads with up to two look-ups over keys sharing none, some or all levels; failing creators and allocations; several tree shapes"),
    "P09": (SCHED, "model_checking", "two and three threads, preemption bound 1-2, serializability oracle and race detection"),
}
NOT_APPLICABLE = {}
