/* P01 (module callbacks and events) and P02 (control flow), selected by PROP.
 * Sequential: every program of outcomes, event counts and failing callbacks up
 * to the bounds; the callbacks compare themselves with a queue of expected
 * calls that a model of the commit/rollback protocol fills in. */
#include "mc.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include <errno.h>
#include <string.h>

#define MAXM 3
enum { BEGIN, PREPARE, APPLY, UNDO, APPLY_EV, UNDO_EV, FINISH, RELEASE };
static const char* const kname[] = { "begin", "prepare_commit", "apply", "undo", "apply_event", "undo_event", "finish", "release" };

struct call { int kind, mod; unsigned head; uintptr_t tail; };
#define QMAX 512
static struct call Q[QMAX];
static int qh, qt;

static struct { unsigned long id; unsigned mask; bool registered; } M[MAXM];
static int nm;             /* modules used by this execution */
static struct { int mod; unsigned head; uintptr_t tail; } ev[128];
static int nev;
static unsigned seq;
static int tx_restarts;    /* model: restarts of the current transaction */
static bool irrev;         /* model: current attempt is irrevocable */
static int want_recovery;  /* 1: recovery expected, 2: non-recoverable */
static enum picotm_error_status want_status;
static int want_value;
static bool faults_on;
static bool rolling_back_for_recovery;
static bool dead;          /* non-recoverable: stop checking */

static void q(int kind, int mod, unsigned head, uintptr_t tail)
{
    if (!(M[mod].mask & 1u << kind)) return;
    if (qt >= QMAX) mc_fail("harness", "queue overflow");
    Q[qt++] = (struct call){ kind, mod, head, tail };
}

static void q_begin(void) { for (int i = 0; i < nm; i++) if (M[i].registered) q(BEGIN, i, 0, 0); }
static void q_all(int kind) { for (int i = 0; i < nm; i++) if (M[i].registered) q(kind, i, 0, 0); }

static void q_commit(void)
{
    q_all(PREPARE);
    q_all(APPLY);
    for (int i = 0; i < nev; i++) q(APPLY_EV, ev[i].mod, ev[i].head, ev[i].tail);
    q_all(FINISH);
    /* nev is kept: a failing prepare_commit rolls the events back */
}

static void q_rollback(void)
{
    q_all(UNDO);
    for (int i = nev - 1; i >= 0; i--) q(UNDO_EV, ev[i].mod, ev[i].head, ev[i].tail);
    q_all(FINISH);
    nev = 0;
}

static void expect_recovery(enum picotm_error_status st, int v) { want_recovery = 1; want_status = st; want_value = v; }

static void expect_retry(bool make_irrev)
{
    q_rollback();
    tx_restarts++;
    irrev = make_irrev || tx_restarts == 10;
    q_begin();
}

/* a callback was entered */
static void called(int kind, int mod, unsigned head, uintptr_t tail, struct picotm_error* error)
{
    if (dead) return;
    mc_note("%s(module %d, %u)", kname[kind], mod, head);
    mc_outcome(kind * 16 + mod);
    if (qh == qt)
        mc_fail("unexpected callback", "%s of module %d (event %u) where no call is due", kname[kind], mod, head);
    struct call* c = &Q[qh];
    if (c->kind != kind || c->mod != mod || c->head != head || c->tail != tail)
        mc_fail("wrong callback", "%s of module %d (event %u/%lx), expected %s of module %d (event %u/%lx)",
                kname[kind], mod, head, (unsigned long)tail, kname[c->kind], c->mod, c->head, (unsigned long)c->tail);
    qh++;
    if (!error || !faults_on || !mc_fault(kname[kind])) return;
    /* this callback fails */
    int how = 0;
    if (kind == PREPARE) how = mc_choose(3);
    switch (kind) {
    case BEGIN:
        qt = qh;
        for (int i = 0; i < mod; i++) if (M[i].registered) q(FINISH, i, 0, 0);
        expect_recovery(PICOTM_ERROR_CODE, PICOTM_OUT_OF_MEMORY);
        break;
    case PREPARE:
        qt = qh;
        if (how == 0) { q_rollback(); expect_recovery(PICOTM_ERROR_CODE, PICOTM_OUT_OF_MEMORY); }
        else expect_retry(how == 2);
        break;
    default:
        /* applying or undoing cannot be repeated: reported as non-recoverable */
        qt = qh;
        dead = true;
        bool reported_original = want_recovery == 1;
        if (!reported_original) expect_recovery(PICOTM_ERROR_CODE, PICOTM_OUT_OF_MEMORY);
        want_recovery = 2;
        break;
    }
    if (how == 0) picotm_error_set_error_code(error, PICOTM_OUT_OF_MEMORY);
    else if (how == 1) picotm_error_set_conflicting(error, NULL);
    else picotm_error_set_revocable(error);
}

#define MOD(d) ((int)(intptr_t)(d))
static void cb_begin(void* d, struct picotm_error* e) { called(BEGIN, MOD(d), 0, 0, e); }
static void cb_prepare(void* d, int irr, struct picotm_error* e)
{
    if (!dead) mc_check(!!irr == irrev, "prepare_commit flag", "prepare_commit: is_irrevocable=%d in a%s transaction", irr, irrev ? "n irrevocable" : " revocable");
    called(PREPARE, MOD(d), 0, 0, e);
}
static void cb_apply(void* d, struct picotm_error* e) { called(APPLY, MOD(d), 0, 0, e); }
static void cb_undo(void* d, struct picotm_error* e) { called(UNDO, MOD(d), 0, 0, e); }
static void cb_apply_ev(uint16_t h, uintptr_t t, void* d, struct picotm_error* e) { called(APPLY_EV, MOD(d), h, t, e); }
static void cb_undo_ev(uint16_t h, uintptr_t t, void* d, struct picotm_error* e) { called(UNDO_EV, MOD(d), h, t, e); }
static void cb_finish(void* d, struct picotm_error* e) { called(FINISH, MOD(d), 0, 0, e); }
static void cb_release(void* d) { called(RELEASE, MOD(d), 0, 0, NULL); }

static const struct picotm_module_ops full = { cb_begin, cb_prepare, cb_apply, cb_undo, cb_apply_ev, cb_undo_ev, cb_finish, cb_release };
static const struct picotm_module_ops evonly = { .apply_event = cb_apply_ev, .undo_event = cb_undo_ev };
static const struct picotm_module_ops partial = { .prepare_commit = cb_prepare, .undo = cb_undo, .finish = cb_finish };
static const struct { const struct picotm_module_ops* ops; unsigned mask; } kinds[] = {
    { &full, 0xff }, { &evonly, 1 << APPLY_EV | 1 << UNDO_EV }, { &partial, 1 << PREPARE | 1 << UNDO | 1 << FINISH } };

enum { COMMIT, CONFLICT, ERRCODE, ERRNO, SIG, RESTART, IRREV, NOUT };
static const char* const oname[] = { "commit", "conflict", "error code", "errno", "siginfo", "restart", "irrevocable" };

static const int nevs_small[] = { 0, 1, 2, 5 };
static const int nevs_grow[] = { 0, 1, 3, 4, 7, 8, 9, 16, 33 };

struct cfg { const int* nevs; int nnevs; int ntx; int maxabort; bool alloc; bool last_simple; };
static struct cfg cfg;

static void append(int mod)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    unsigned head = seq & 1 ? 0xffff - seq : seq;
    uintptr_t tail = (uintptr_t)seq * 0x9e3779b97f4a7c15ul;
    seq++;
    if (cfg.alloc) mc_alloc_fault = 1;
    picotm_append_event(M[mod].id, head, tail, &e);
    mc_alloc_fault = 0;
    if (picotm_error_is_set(&e)) {
        q_rollback();
        expect_recovery(e.status, 0);
        want_value = e.status == PICOTM_ERRNO ? e.value.errno_hint : (int)e.value.error_hint;
        picotm_recover_from_error(&e);
    }
    ev[nev].mod = mod;
    ev[nev].head = (uint16_t)head;
    ev[nev++].tail = tail;
}

static void register_modules(int variant)
{
    for (int i = 0; i < nm; i++) {
        if (M[i].registered) continue;
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        int k = i == 1 ? variant : 0;
        M[i].id = picotm_register_module(kinds[k].ops, (void*)(intptr_t)i, &e);
        mc_check(!picotm_error_is_set(&e), "register", "module registration failed");
        M[i].mask = kinds[k].mask;
        M[i].registered = true;
    }
}

static void due(const char* where)
{
    if (qh != qt && !dead)
        mc_fail("missing callback", "%s: %s of module %d (event %u) was not called", where, kname[Q[qh].kind], Q[qh].mod, Q[qh].head);
    qh = qt = 0;
}

static int aborts, recoveries, bodies, commits;

static void one_tx(int variant, int tx)
{
    due("before begin");
    tx_restarts = 0;
    irrev = false;
    aborts = recoveries = bodies = commits = 0;
    q_begin();
    bool left = false;
    static volatile int attempt;
    attempt = 0;
    picotm_begin
        if (want_recovery) mc_fail("no recovery", "the transaction was executed although recovery was due");
        due("at attempt start");
        attempt++;
        mc_note("tx %d attempt %d", tx, attempt);
        mc_check(picotm_number_of_restarts() == (unsigned long)tx_restarts, "number of restarts", "number of restarts is %lu, expected %d", picotm_number_of_restarts(), tx_restarts);
        mc_check(picotm_is_irrevocable() == irrev, "revocability", "irrevocable is %d, expected %d after %d restarts", picotm_is_irrevocable(), irrev, tx_restarts);
        mc_check(picotm_error_status() == 0 && !picotm_error_is_non_recoverable(), "stale error", "an attempt starts with error status %d", (int)picotm_error_status());
        nev = 0;
        register_modules(variant);
        bool simple = cfg.last_simple && tx == cfg.ntx - 1 && tx;
        if (simple) faults_on = false;
        int n = simple ? 1 : cfg.nevs[mc_choose(cfg.nnevs)];
        int pat = n && nm > 1 ? mc_choose(2) : 0;
        for (int i = 0; i < n; i++) append(pat ? (i ^ (i >> 1)) % nm : nm - 1);
        int out = aborts < cfg.maxabort && !simple ? mc_choose(NOUT) : COMMIT;
        if (out == IRREV && irrev) out = COMMIT;
        mc_note("outcome: %s", oname[out]);
        mc_outcome(out);
        if (out != COMMIT) aborts++;
        switch (out) {
        case COMMIT: q_commit(); break;
        case CONFLICT: expect_retry(false); picotm_resolve_conflict(NULL); break;
        case RESTART: expect_retry(false); picotm_restart(); break;
        case IRREV: expect_retry(true); picotm_irrevocable(); break;
        case ERRCODE: q_rollback(); expect_recovery(PICOTM_ERROR_CODE, PICOTM_OUT_OF_BOUNDS); picotm_recover_from_error_code(PICOTM_OUT_OF_BOUNDS); break;
        case ERRNO: q_rollback(); expect_recovery(PICOTM_ERRNO, EXDEV); picotm_recover_from_errno(EXDEV); break;
        case SIG: {
            siginfo_t si;
            memset(&si, 0, sizeof si);
            si.si_signo = 11;
            si.si_errno = 3;
            q_rollback();
            expect_recovery(PICOTM_SIGINFO_T, 11);
            picotm_recover_from_siginfo_t(&si);
            break;
        }
        }
    picotm_commit
        if (!want_recovery) mc_fail("unexpected recovery", "recovery code runs without an error, status %d", (int)picotm_error_status());
        due("at recovery");
        mc_note("recovery");
        mc_check((int)picotm_error_status() == (int)want_status, "error status", "recovery sees status %d, expected %d", (int)picotm_error_status(), (int)want_status);
        int v = want_status == PICOTM_ERROR_CODE ? (int)picotm_error_as_error_code() : want_status == PICOTM_ERRNO ? picotm_error_as_errno()
            : picotm_error_as_siginfo_t()->si_signo;
        mc_check(v == want_value, "error value", "recovery sees error value %d, expected %d", v, want_value);
        mc_check(picotm_error_is_non_recoverable() == (want_recovery == 2), "recoverability", "error is%s marked non-recoverable", picotm_error_is_non_recoverable() ? "" : " not");
        if (want_recovery == 2) return; /* nothing is promised any longer */
        recoveries++;
        want_recovery = 0;
        nev = 0;
        if (mc_choose(2) == 0 || aborts > cfg.maxabort) left = true;
        else {
            aborts++;
            tx_restarts++;
            irrev = tx_restarts == 10;
            q_begin();
            mc_note("restart from recovery");
            picotm_restart();
        }
    picotm_end
    if (want_recovery) mc_fail("error dropped", "the transaction ended normally although recovery was due");
    due(left ? "after recovery" : "after commit");
}

static void run(int variant)
{
    qh = qt = nev = 0;
    seq = 1;
    want_recovery = 0;
    dead = false;
    memset(M, 0, sizeof M);
    for (int t = 0; t < cfg.ntx && !dead; t++) one_tx(variant, t);
    if (dead) {
        if (qh != qt) mc_fail("missing callback", "calls still due");
        return;
    }
    q_all(RELEASE);
    picotm_release();
    due("after release");
}

static const struct cfg ev_cfgs[] = {
    { nevs_small, 4, 1, 2, false, false },
    { nevs_small, 4, 2, 1, false, false },
    { nevs_grow, 9, 2, 1, false, true },
    { nevs_grow, 9, 2, 0, false, false },
    { nevs_small, 4, 2, 2, false, true },  /* thorough */
    { nevs_grow, 9, 2, 1, false, false },
};

static void sc_events(int v)
{
    cfg = ev_cfgs[v / 3];
    nm = cfg.nevs == nevs_small ? 3 : 2;
    faults_on = false;
    run(v % 3);
}

static const int nevs_two[] = { 0, 2 };
static void sc_faults(int v)
{
    cfg = (struct cfg){ mc_tier_thorough ? nevs_small : nevs_two, mc_tier_thorough ? 3 : 2, 2, 1, false, true };
    nm = mc_tier_thorough ? 3 : 2;
    faults_on = true;
    mc_fault_budget = mc_tier_thorough ? 2 : 1;
    run(v);
}

static void sc_alloc(int v)
{
    cfg = (struct cfg){ nevs_grow, 9, 2, 1, true, true };
    nm = 2;
    faults_on = false;
    mc_fault_budget = 1;
    run(v);
}

/* control flow only: long outcome sequences, no events */
static const int nevs_one[] = { 1 };
static void sc_flow(int v)
{
    cfg = (struct cfg){ nevs_one, 1, v ? 1 : 2, v ? (mc_tier_thorough ? 7 : 5) : (mc_tier_thorough ? 4 : 3), false, false };
    nm = 1;
    faults_on = false;
    run(0);
}

/* retry limit: only conflicts and restarts, enough to cross the limit */
static void sc_limit(int v)
{
    static volatile int attempts;
    for (int tx = 0; tx < 2; tx++) {
        attempts = 0;
        picotm_begin
            mc_check(picotm_number_of_restarts() == (unsigned long)attempts, "number of restarts", "number of restarts is %lu, expected %d", picotm_number_of_restarts(), attempts);
            bool ir = picotm_is_irrevocable();
            mc_note("attempt %d irrevocable %d", attempts, ir);
            if (attempts >= 64) mc_fail("no escalation", "a transaction that keeps conflicting is still revocable after %d restarts", attempts);
            attempts++;
            if (!ir) {
                int k = v == 0 || tx || attempts > 13 ? 0 : mc_choose(2);
                if (k == 0) picotm_resolve_conflict(NULL);
                else picotm_restart();
            }
        picotm_commit
            mc_fail("unexpected recovery", "recovery without an error");
        picotm_end
        mc_outcome(attempts);
    }
    picotm_release();
}

/* more modules than the table can hold */
static void sc_modules(int v)
{
    int n = 0;
    (void)v;
    nm = 0;
    seq = 1;
    want_recovery = qh = qt = nev = 0;
    dead = true; /* no per-callback oracle here */
    picotm_begin
        for (;;) {
            struct picotm_error e = PICOTM_ERROR_INITIALIZER;
            unsigned long id = picotm_register_module(&full, (void*)0, &e);
            if (picotm_error_is_set(&e)) {
                mc_check(e.status == PICOTM_ERROR_CODE && e.value.error_hint == PICOTM_OUT_OF_MEMORY, "module limit", "wrong error for too many modules");
                break;
            }
            mc_check(id == (unsigned long)n, "module id", "module %d got id %lu", n, id);
            if (++n > 4096) mc_fail("module limit", "module table never fills up");
        }
    picotm_commit
        mc_fail("unexpected recovery", "recovery");
    picotm_end
    mc_check(n >= 8, "module limit", "only %d modules fit", n);
    picotm_release();
}

#ifndef PROP
#define PROP 1
#endif

/* many modules, many events, all values of an event's parameters */
static struct { long applied, undone, wrong; int begun, prep, apply, undo, finish; } big[260];
static long big_n, big_next, big_nmod;
static unsigned big_order;
static int big_mod(long i) { return (int)((i * 7 + i / 251) % big_nmod); }
static uint16_t big_head(long i) { return (uint16_t)(i * 13 + 65530); }
static uintptr_t big_tail(long i) { return ~(uintptr_t)i * 0x9e3779b97f4a7c15u; }
static void big_begin(void* d, struct picotm_error* e) { (void)e; big[(intptr_t)d].begun++; }
static void big_prep(void* d, int irr, struct picotm_error* e) { (void)e; (void)irr; big[(intptr_t)d].prep++; }
static void big_apply_m(void* d, struct picotm_error* e) { (void)e; big[(intptr_t)d].apply++; }
static void big_undo_m(void* d, struct picotm_error* e) { (void)e; big[(intptr_t)d].undo++; }
static void big_finish(void* d, struct picotm_error* e) { (void)e; big[(intptr_t)d].finish++; }
static void big_event(const char* what, long i, uint16_t h, uintptr_t t, void* d)
{
    mc_check(i >= 0 && i < big_n, "extra event", "%s called %ld times for %ld events", what, i + 1, big_n);
    mc_check((intptr_t)d == big_mod(i), "event order", "%s: event %ld of %ld is given to module %ld instead of %d", what, i, big_n, (long)(intptr_t)d, big_mod(i));
    mc_check(h == big_head(i) && t == big_tail(i), "event parameters", "%s: event %ld of %ld has %u, %lx instead of %u, %lx", what, i, big_n, h, (unsigned long)t, big_head(i), (unsigned long)big_tail(i));
}
static void big_apply(uint16_t h, uintptr_t t, void* d, struct picotm_error* e) { (void)e; big_event("apply", big_next++, h, t, d); }
static void big_undo(uint16_t h, uintptr_t t, void* d, struct picotm_error* e) { (void)e; big_event("undo", --big_next, h, t, d); }
static const struct picotm_module_ops big_ops = { big_begin, big_prep, big_apply_m, big_undo_m, big_apply, big_undo, big_finish, NULL };
static void sc_many(int v)
{
    static const long ns[] = { 0, 1, 255, 256, 257, 4096, 65535, 65536, 70000 };
    static const int nmods[] = { 1, 2, 200 };
    unsigned long id[260];
    int end = mc_choose(4);
    big_n = ns[v]; big_nmod = nmods[mc_choose(3)];
    nm = 0; seq = 1;
    want_recovery = qh = qt = nev = 0;
    dead = true;
    memset(big, 0, sizeof big);
    mc_note("%ld events of %ld modules, end %d", big_n, big_nmod, end);
    mc_ctx("%ld events of %ld modules, end %d", big_n, big_nmod, end);
    static volatile int attempts, rec;
    attempts = rec = 0;
    for (volatile int round = 0; round < 2; round++) {
        picotm_begin
            if (!attempts++) for (int i = 0; i < big_nmod; i++) {
                struct picotm_error e = PICOTM_ERROR_INITIALIZER;
                id[i] = picotm_register_module(&big_ops, (void*)(intptr_t)i, &e);
                mc_check(!picotm_error_is_set(&e), "register", "module %d", i);
            }
            big_next = 0;
            for (long i = 0; i < big_n; i++) {
                struct picotm_error e = PICOTM_ERROR_INITIALIZER;
                picotm_append_event(id[big_mod(i)], big_head(i), big_tail(i), &e);
                mc_check(!picotm_error_is_set(&e), "append", "event %ld", i);
            }
            if (end == 1) { big_next = big_n; picotm_recover_from_error_code(PICOTM_GENERAL_ERROR); }
            if (end == 2 && attempts == 1) { big_next = big_n; picotm_restart(); }
            if (end == 3 && attempts == 1) { big_next = big_n; picotm_irrevocable(); }
            big_next = 0;
        picotm_commit
            rec++;
        picotm_end
        if (end == 1) mc_check(rec == round + 1 && big_next == 0, "missing callback", "%ld of %ld events are not undone", big_next, big_n);
        else mc_check(!rec && big_next == big_n, "missing callback", "%ld of %ld events are applied", big_next, big_n);
        int k = attempts;
        for (int i = 0; i < big_nmod; i++) {
            int undone = end == 1 ? k : end >= 2 ? 1 : 0;
            mc_check(big[i].finish == k && big[i].undo == undone && big[i].apply == k - undone && big[i].prep == k - undone, "missing callback", "module %d of %ld: %d attempts, prepared %d, applied %d, undone %d, finished %d times", i, big_nmod, k, big[i].prep, big[i].apply, big[i].undo, big[i].finish);
        }
    }
    picotm_release();
    mc_cases(1);
    mc_outcome(attempts);
}

static const struct mc_scenario sc[] = {
#if PROP == 1
    { "module-limit", sc_modules, 1, MC_NOPREEMPT, 0, 0, 10, 10, "registration beyond the table's capacity" },
    { "many-events", sc_many, 9, MC_NOPREEMPT, 0, 0, 30, 60, "up to 70000 events of up to 200 modules with wide parameters; commit, error, restart and irrevocability" },
    { "events", sc_events, 18, MC_NOPREEMPT | MC_INPROC, 0, 0, 40, 400, "outcomes x number and module of events over two transactions; log growth up to 33 events", 12 },
    { "faults", sc_faults, 3, MC_NOPREEMPT, 0, 0, 60, 600, "every callback fails once (thorough: twice)" },
    { "log-allocation", sc_alloc, 1, MC_NOPREEMPT, 0, 0, 30, 100, "every growth of the event log fails once" },
#else
    { "flow", sc_flow, 2, MC_NOPREEMPT | MC_INPROC, 0, 0, 40, 400, "all outcome sequences of one and two transactions" },
    { "retry-limit", sc_limit, 2, MC_NOPREEMPT | MC_INPROC, 0, 0, 20, 60, "conflicts and restarts beyond the retry limit" },
    { "begin-and-commit-errors", sc_faults, 3, MC_NOPREEMPT, 0, 0, 60, 600, "errors, conflicts and revocability requests raised by modules in begin and commit" },
#endif
};

int main(int argc, char* argv[])
{
    static const char* const as[] = { "sequential: one thread, up to three modules and two transactions",
        "after an error that picotm marks non-recoverable nothing further is checked", NULL };
    return mc_main(argc, argv, PROP == 1 ? "P01" : "P02", sc, sizeof sc / sizeof *sc, as);
}
