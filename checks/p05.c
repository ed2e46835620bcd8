/* P05 (reader/writer locks) and P04 (no deadlock, no leaked lock), selected by
 * PROP.  Threads run transactions that lock picotm locks through the lock-state
 * interface; a shadow record of holders decides exclusion, spurious conflicts
 * and consistency of the lock state. */
#include "mc.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-error.h"
#include "picotm/picotm-lib-rwlock.h"
#include "picotm/picotm-lib-rwstate.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <string.h>

#define NL 2
#define MAXOPS 3
static struct picotm_rwlock lk[NL];
static int writer[NL];          /* holder, -1 none */
static unsigned readers[NL];    /* mask */
static int busy[NL];            /* threads inside an operation on the lock */
static int waits_for[MC_MAXTHREADS];
static unsigned taint[NL];      /* threads whose running operation met others */

/* operations: kind * NL + lock */
enum { RD, WR, UN };
static const char* const kn[] = { "rdlock", "wrlock", "unlock" };
static int prog[MC_MAXTHREADS][MAXOPS], plen[MC_MAXTHREADS];
static bool slow;               /* transactions run for more than one second */
static bool must_get[MC_MAXTHREADS];
static int conflicts[MC_MAXTHREADS];

static void others_see(int t, int l)
{
    /* every operation in progress on this lock has company */
    for (int u = 0; u < MC_MAXTHREADS; u++) if (u != t) taint[l] |= 1u << u;
}

static bool held_by_other(int t, int l) { return (writer[l] >= 0 && writer[l] != t) || (readers[l] & ~(1u << t)); }

static void enter(int t, int l)
{
    taint[l] &= ~(1u << t);
    if (busy[l] || held_by_other(t, l)) taint[l] |= 1u << t;
    busy[l]++;
    others_see(t, l);
}

static void leave(int t, int l) { (void)t; busy[l]--; }

/* returns 0, or the error kind's marker on conflict */
static bool lock_op(int t, struct picotm_rwstate* st, int o, struct picotm_error* err)
{
    int k = o / NL, l = o % NL;
    enum picotm_rwstate_status before = picotm_rwstate_get_status(&st[l]);
    bool r = (readers[l] >> t) & 1, w = writer[l] == t;
    mc_check(before == (w ? PICOTM_RWSTATE_WRLOCKED : r ? PICOTM_RWSTATE_RDLOCKED : PICOTM_RWSTATE_UNLOCKED),
             "lock state", "T%d: lock state %d of lock %d does not match what it holds", t, before, l);
    enter(t, l);
    waits_for[t] = k == UN ? -1 : l;
    if (k == UN) {
        readers[l] &= ~(1u << t);
        if (w) writer[l] = -1;
        unsigned waiting = 0, still = 0;
        for (int u = 0; u < MC_MAXTHREADS; u++) if (u != t && mc_in_timed_wait(u) && waits_for[u] == l) waiting |= 1u << u;
        bool free_now = (r || w) && writer[l] < 0 && !readers[l];
        picotm_rwstate_unlock(&st[l], &lk[l]);
        for (int u = 0; u < MC_MAXTHREADS; u++) if (waiting >> u & 1 && mc_in_timed_wait(u)) still |= 1u << u;
        if (waiting) mc_outcome(1000 + waiting * 16 + still);
        mc_check(!waiting || !free_now || still != waiting, "lost wake-up", "T%d freed lock %d; threads %x were waiting for it and none has been woken", t, l, waiting);
        mc_check(picotm_rwstate_get_status(&st[l]) == PICOTM_RWSTATE_UNLOCKED, "lock state after unlock", "T%d", t);
        leave(t, l);
        return true;
    }
    if (k == RD) picotm_rwstate_try_rdlock(&st[l], &lk[l], err);
    else picotm_rwstate_try_wrlock(&st[l], &lk[l], err);
    enum picotm_rwstate_status after = picotm_rwstate_get_status(&st[l]);
    mc_note("T%d %s %d: %s", t, kn[k], l, picotm_error_is_set(err) ? "conflict" : "ok");
    mc_outcome(o * 2 + picotm_error_is_set(err));
    if (picotm_error_is_set(err)) {
        mc_check(err->status == PICOTM_CONFLICTING, "error kind", "T%d: %s of lock %d failed with status %d instead of a conflict", t, kn[k], l, err->status);
        mc_check(err->value.conflicting_lock == &lk[l], "conflicting lock", "T%d: the conflict names another lock", t);
        mc_check(after == before, "lock state after conflict", "T%d: failed %s changed the lock state from %d to %d", t, kn[k], before, after);
        mc_check(taint[l] & (1u << t), "spurious conflict", "T%d: %s of lock %d failed though no other thread held it or was operating on it", t, kn[k], l);
        mc_check(!w && !(k == RD && r), "conflict on held lock", "T%d: %s of a lock already held that way failed", t, kn[k]);
        leave(t, l);
        return false;
    }
    if (k == RD) {
        mc_check(after == (before == PICOTM_RWSTATE_UNLOCKED ? PICOTM_RWSTATE_RDLOCKED : before), "lock state after rdlock", "T%d: %d -> %d", t, before, after);
        mc_check(writer[l] < 0 || w, "exclusion", "T%d read-locked lock %d while T%d holds it for writing", t, l, writer[l]);
        if (!w) readers[l] |= 1u << t;
    } else {
        mc_check(after == PICOTM_RWSTATE_WRLOCKED, "lock state after wrlock", "T%d: %d", t, after);
        mc_check(!held_by_other(t, l), "exclusion", "T%d write-locked lock %d while others hold it (readers %x, writer %d)", t, l, readers[l], writer[l]);
        readers[l] &= ~(1u << t);
        writer[l] = t;
    }
    leave(t, l);
    return true;
}

static void release_all(int t, struct picotm_rwstate* st)
{
    for (int l = NL; l-- > 0;)
        if (picotm_rwstate_get_status(&st[l]) != PICOTM_RWSTATE_UNLOCKED) lock_op(t, st, UN * NL + l, NULL);
}

/* P05: the transaction goes on after a conflict */
static void direct_fn(int t)
{
    struct picotm_rwstate st[NL] = { PICOTM_RWSTATE_INITIALIZER, PICOTM_RWSTATE_INITIALIZER };
    picotm_begin
        if (slow) mc_clock_advance(2, 0);
        for (int i = 0; i < plen[t]; i++) {
            struct picotm_error err = PICOTM_ERROR_INITIALIZER;
            if (!lock_op(t, st, prog[t][i], &err)) conflicts[t]++;
        }
        release_all(t, st);
    picotm_commit
        mc_fail("unexpected recovery", "T%d in recovery", t);
    picotm_end
    picotm_release();
}

static void reset(int n)
{
    for (int l = 0; l < NL; l++) {
        picotm_rwlock_init(&lk[l]);
        writer[l] = -1;
        readers[l] = 0;
        busy[l] = 0;
        taint[l] = 0;
    }
    memset(conflicts, 0, sizeof conflicts);
    (void)n;
    picotm_begin picotm_commit picotm_end
}

/* all locks are free again: every mode can be acquired */
static void probe(void)
{
    for (int l = 0; l < NL; l++)
        for (int k = 0; k < 2; k++) {
            struct picotm_rwstate s = PICOTM_RWSTATE_INITIALIZER;
            struct picotm_error err = PICOTM_ERROR_INITIALIZER;
            picotm_begin
                if (k) picotm_rwstate_try_wrlock(&s, &lk[l], &err);
                else picotm_rwstate_try_rdlock(&s, &lk[l], &err);
                mc_check(!picotm_error_is_set(&err), "leaked lock", "lock %d cannot be %s-locked after all transactions have ended", l, k ? "write" : "read");
                picotm_rwstate_unlock(&s, &lk[l]);
            picotm_commit picotm_end
        }
}

static void describe(int n)
{
    for (int t = 0; t < n; t++)
        for (int i = 0; i < plen[t]; i++) mc_note("program T%d: %s %d", t, kn[prog[t][i] / NL], prog[t][i] % NL);
}

/* programs over one lock: R W U in all sequences of length 1..3 without
 * useless leading unlocks */
static int progs[64][MAXOPS], pl[64], np;
static void make_progs(void)
{
    for (int len = 1; len <= 3; len++) {
        int n = 1;
        for (int i = 0; i < len; i++) n *= 3;
        for (int c = 0; c < n; c++) {
            int p[3], x = c, held = 0; /* 0 none 1 r 2 w */
            bool useless = false;
            for (int i = 0; i < len; i++) {
                p[i] = x % 3; x /= 3;
                if (p[i] == UN && !held) useless = true;
                if (i && p[i] == p[i - 1] && p[i] != UN) useless = true;
                held = p[i] == UN ? 0 : p[i] == WR ? 2 : held ? held : 1;
            }
            if (useless || p[len - 1] == UN) continue;
            for (int i = 0; i < len; i++) progs[np][i] = p[i] * NL;
            pl[np++] = len;
        }
    }
}

static void set_prog(int t, int p) { memcpy(prog[t], progs[p], sizeof prog[t]); plen[t] = pl[p]; }

static void sc_two(int v)
{
    slow = v >= np;
    int p = v % np, q = mc_choose(np);
    reset(2);
    set_prog(0, p); set_prog(1, q);
    describe(2);
    mc_run_threads(2, direct_fn);
    probe();
}

static void sc_three(int v)
{
    slow = v & 1;
    static const int small[] = { 0, 1, 2, 3 };
    int n = np < 4 ? np : 4;
    reset(3);
    set_prog(0, small[v / 2 % n]);
    set_prog(1, small[mc_choose(n)]);
    set_prog(2, small[mc_choose(n)]);
    describe(3);
    mc_run_threads(3, direct_fn);
    probe();
}

/* more lock owners than fit into small waiter indices */
static sem_t reg_done, reg_never;
static void* reg_main(void* arg)
{
    picotm_begin picotm_commit picotm_end
    sem_post(&reg_done);
    sem_wait(&reg_never);
    return arg;
}

static void register_owners(int n)
{
    sem_init(&reg_done, 0, 0);
    sem_init(&reg_never, 0, 0);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 128 * 1024);
    for (int i = 0; i < n; i++) {
        pthread_t p;
        if (pthread_create(&p, &at, reg_main, NULL)) mc_fail("harness", "pthread_create");
        sem_wait(&reg_done);
    }
}

static void sc_many(int v)
{
    slow = true;
    static const int owners[] = { 14, 15, 16, 31, 14, 31 };
    register_owners(owners[v % 6]);
    reset(2);
    int nt = v >= 4 ? 3 : 2;
    for (int t = 0; t < nt; t++) set_prog(t, mc_choose(2));
    describe(nt);
    mc_run_threads(nt, direct_fn);
    probe();
}

/* reader limit: no number of readers may look like a writer, and readers are
 * refused with a conflict only at the documented limit */
static void sc_many_readers(int v)
{
    (void)v;
    reset(1);
    picotm_begin
        struct picotm_rwstate s[40];
        int n = 0;
        for (; n < 40; n++) {
            picotm_rwstate_init(&s[n]);
            struct picotm_error err = PICOTM_ERROR_INITIALIZER;
            picotm_rwstate_try_rdlock(&s[n], &lk[0], &err);
            if (picotm_error_is_set(&err)) break;
            struct picotm_rwstate w = PICOTM_RWSTATE_INITIALIZER;
            struct picotm_error e2 = PICOTM_ERROR_INITIALIZER;
            picotm_rwstate_try_wrlock(&w, &lk[0], &e2);
            mc_check(picotm_error_is_set(&e2), "exclusion", "write lock granted beside %d readers", n + 1);
            if (n) {
                struct picotm_error e3 = PICOTM_ERROR_INITIALIZER;
                picotm_rwstate_try_wrlock(&s[0], &lk[0], &e3);
                mc_check(picotm_error_is_set(&e3) && picotm_rwstate_get_status(&s[0]) == PICOTM_RWSTATE_RDLOCKED, "upgrade", "upgrade granted beside %d other readers", n);
            }
        }
        mc_check(n >= 8, "reader limit", "only %d readers admitted", n);
        for (int i = 0; i < n; i++) {
            /* released out of order */
            int k = i % 2 ? n - 1 - i / 2 : i / 2;
            picotm_rwstate_unlock(&s[k], &lk[0]);
            struct picotm_rwstate w = PICOTM_RWSTATE_INITIALIZER;
            struct picotm_error e2 = PICOTM_ERROR_INITIALIZER;
            picotm_rwstate_try_wrlock(&w, &lk[0], &e2);
            mc_check(picotm_error_is_set(&e2) == (i < n - 1), "exclusion", "write lock %s with %d readers left", picotm_error_is_set(&e2) ? "refused" : "granted", n - 1 - i);
            picotm_rwstate_unlock(&w, &lk[0]);
        }
        mc_cases(n * 4);
    picotm_commit picotm_end
    probe();
}

/* ------------------------------------------------------------------- P04 -- */

/* a module that holds locks until the transaction ends */
static struct tstate { struct picotm_rwstate st[NL]; unsigned long mod; bool reg; } ts[MC_MAXTHREADS + 1];

static void m_finish(void* d, struct picotm_error* e)
{
    (void)e;
    struct tstate* s = d;
    int t = (int)(s - ts);
    release_all(t, s->st);
}

static const struct picotm_module_ops mops = { .finish = m_finish };

enum { OUT_COMMIT, OUT_CONFLICT_ONCE, OUT_RESTART_ONCE, OUT_IRREVOCABLE, OUT_ERROR, NOUT };
static int outcome_of[MC_MAXTHREADS];
static int nrestarts[MC_MAXTHREADS];

static void module_fn(int t)
{
    struct tstate* s = &ts[t];
    bool rec = false;
    volatile int committed = 0;
    picotm_begin
        if (picotm_number_of_restarts()) mc_yield();
        if (!s->reg) {
            struct picotm_error err = PICOTM_ERROR_INITIALIZER;
            s->mod = picotm_register_module(&mops, s, &err);
            mc_check(!picotm_error_is_set(&err), "register", "picotm_register_module failed");
            for (int l = 0; l < NL; l++) picotm_rwstate_init(&s->st[l]);
            s->reg = true;
        }
        if (slow) mc_clock_advance(2, 0);
        for (int i = 0; i < plen[t]; i++) {
            struct picotm_error err = PICOTM_ERROR_INITIALIZER;
            if (!lock_op(t, s->st, prog[t][i], &err)) {
                mc_check(!picotm_is_irrevocable() || NL == 0, "conflict while irrevocable", "T%d conflicted while irrevocable", t);
                picotm_recover_from_error(&err);
            }
        }
        switch (outcome_of[t]) {
        case OUT_CONFLICT_ONCE: if (!picotm_number_of_restarts()) picotm_resolve_conflict(&lk[0]); break;
        case OUT_RESTART_ONCE: if (!picotm_number_of_restarts()) picotm_restart(); break;
        case OUT_IRREVOCABLE: picotm_irrevocable(); break;
        case OUT_ERROR: picotm_recover_from_error_code(PICOTM_GENERAL_ERROR); break;
        }
        committed++;
    picotm_commit
        rec = true;
        for (int l = 0; l < NL; l++)
            mc_check(writer[l] != t && !(readers[l] >> t & 1), "locks held in recovery", "T%d holds lock %d in its recovery code", t, l);
    picotm_end
    mc_check(rec == (outcome_of[t] == OUT_ERROR), "outcome", "T%d recovery=%d", t, rec);
    for (int l = 0; l < NL; l++)
        mc_check(writer[l] != t && !(readers[l] >> t & 1), "leaked lock", "T%d still holds lock %d after its transaction", t, l);
    nrestarts[t] = committed;
    picotm_release();
}

static void term_reset(int n)
{
    reset(n);
    memset(ts, 0, sizeof ts);
}

static void set2(int t, int a, int b)
{
    prog[t][0] = a; prog[t][1] = b; plen[t] = b < 0 ? 1 : 2;
}

/* two-operation programs over two locks in both orders */
static const int two[8][2] = {
    { RD * NL, RD * NL + 1 }, { RD * NL, WR * NL + 1 }, { WR * NL, RD * NL + 1 }, { WR * NL, WR * NL + 1 },
    { RD * NL + 1, WR * NL }, { WR * NL + 1, RD * NL }, { WR * NL + 1, WR * NL }, { RD * NL, WR * NL },
};

static void sc_term_two(int v)
{
    slow = v & 1;
    int p = (v >> 1) % 8;
    int q = p + mc_choose(8 - p);
    term_reset(2);
    set2(0, two[p][0], two[p][1]);
    set2(1, two[q][0], two[q][1]);
    outcome_of[0] = mc_choose(NOUT);
    outcome_of[1] = slow ? OUT_COMMIT : mc_choose(NOUT);
    describe(2);
    mc_run_threads(2, module_fn);
    probe();
}

static void sc_term_three(int v)
{
    slow = v & 1;
    term_reset(3);
    set2(0, two[(v >> 1) % 8][0], two[(v >> 1) % 8][1]);
    for (int t = 1; t < 3; t++) {
        int p = (int[]){ 1, 3, 6 }[mc_choose(3)];
        set2(t, two[p][0], two[p][1]);
    }
    for (int t = 0; t < 3; t++) outcome_of[t] = t ? OUT_COMMIT : mc_choose(NOUT);
    describe(3);
    mc_run_threads(3, module_fn);
    probe();
}

/* waiters on one lock: long transactions queue up behind a writer */
static void sc_waiters(int v)
{
    slow = true;
    int nt = 3 + v / 4;
    term_reset(nt);
    set2(0, WR * NL, -1);
    for (int t = 1; t < nt; t++) set2(t, ((v >> (t % 2)) & 1 ? RD : WR) * NL, -1);
    for (int t = 0; t < nt; t++) outcome_of[t] = OUT_COMMIT;
    describe(nt);
    mc_run_threads(nt, module_fn);
    probe();
}

/* a module of T0 fails at one of its steps; T1 is not affected */
enum { F_BEGIN, F_PREPARE, F_APPLY, F_UNDO, F_FINISH, NSTEP };
static int f_step, f_nth, f_count[NSTEP], f_after;
static bool f_armed;
static void f_call(int step, struct picotm_error* e)
{
    if (!f_armed) return;
    if (step == f_step && f_count[step]++ == f_nth) picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY);
}
static void f_begin(void* d, struct picotm_error* e) { (void)d; f_call(F_BEGIN, e); }
static void f_prepare(void* d, int ir, struct picotm_error* e) { (void)d; (void)ir; f_call(F_PREPARE, e); }
static void f_apply(void* d, struct picotm_error* e) { (void)d; f_call(F_APPLY, e); }
static void f_undo(void* d, struct picotm_error* e) { (void)d; f_call(F_UNDO, e); }
static void f_finish(void* d, struct picotm_error* e) { m_finish(d, e); }
static const struct picotm_module_ops fops = { .begin = f_begin, .prepare_commit = f_prepare, .apply = f_apply, .undo = f_undo, .finish = f_finish };
static void fail_fn(int t)
{
    if (t) { module_fn(t); return; }
    struct tstate* s = &ts[t];
    picotm_begin
        if (!s->reg) {
            struct picotm_error err = PICOTM_ERROR_INITIALIZER;
            s->mod = picotm_register_module(&fops, s, &err);
            for (int l = 0; l < NL; l++) picotm_rwstate_init(&s->st[l]);
            s->reg = true;
        }
    picotm_commit picotm_end
    f_armed = true;
    volatile int tries = 0, rec = 0;
    picotm_begin
        if (picotm_number_of_restarts()) mc_yield();
        tries++;
        mc_check(tries < 30, "never ends", "the transaction restarts again and again");
        for (int i = 0; i < plen[t]; i++) {
            struct picotm_error err = PICOTM_ERROR_INITIALIZER;
            if (!lock_op(t, s->st, prog[t][i], &err)) picotm_recover_from_error(&err);
        }
        switch (outcome_of[t]) {
        case OUT_CONFLICT_ONCE: if (tries == 1) picotm_resolve_conflict(&lk[0]); break;
        case OUT_RESTART_ONCE: if (tries == 1) picotm_restart(); break;
        case OUT_IRREVOCABLE: picotm_irrevocable(); break;
        case OUT_ERROR: picotm_recover_from_error_code(PICOTM_GENERAL_ERROR); break;
        }
    picotm_commit
        rec = 1 + !!picotm_error_is_non_recoverable();
    picotm_end
    f_armed = false;
    bool failed = f_count[f_step] > f_nth;
    if (failed && (f_step == F_APPLY || f_step == F_UNDO)) {
        /* the transaction is neither done nor undone: all that remains is
         * to tell the program */
        mc_check(rec == 2, "failure not reported", "step %d failed, but recovery got %s", f_step, rec ? "a recoverable error" : "no error");
        return;
    }
    mc_check(rec == (failed || outcome_of[t] == OUT_ERROR), "wrong outcome", "step %d %s, user error %d: rec=%d", f_step, failed ? "failed" : "worked", outcome_of[t] == OUT_ERROR, rec);
    for (int l = 0; l < NL; l++)
        mc_check(writer[l] != t && !(readers[l] >> t & 1), "leaked lock", "T%d still holds lock %d after its transaction", t, l);
    if (f_after) picotm_release();
    else { picotm_begin picotm_irrevocable(); picotm_commit picotm_end picotm_release(); }
}
static void sc_module_fails(int v)
{
    slow = false;
    term_reset(2);
    f_armed = false; memset(f_count, 0, sizeof f_count);
    f_step = v % F_FINISH; f_nth = mc_choose(2); f_after = mc_choose(2);
    set2(0, two[3][0], two[3][1]);
    set2(1, two[6][0], two[6][1]);
    outcome_of[0] = mc_choose(NOUT);
    outcome_of[1] = mc_choose(2) ? OUT_IRREVOCABLE : OUT_COMMIT;
    mc_note("step %d fails at call %d", f_step, f_nth + 1);
    if (f_step == F_APPLY || f_step == F_UNDO) { /* no recovery, so nobody beside */
        describe(1);
        mc_run_threads(1, fail_fn);
        return;
    }
    describe(2);
    mc_run_threads(2, fail_fn);
    probe();
}

#if PROP == 5
static struct mc_scenario sc[] = {
    { "many-readers", sc_many_readers, 1, MC_NOPREEMPT, 0, 0, 5, 5, "readers up to the limit, upgrade and writer refused beside them" },
    { "many-owners", sc_many, 6, MC_RACE, 1, 2, 10, 60, "waiting transactions with more than 15 and 31 lock owners alive", 4 },
    { "lock-two", sc_two, 0, MC_RACE, 2, 3, 30, 400, "two threads, all lock programs up to length 3, short and long-running transactions" },
    { "lock-three", sc_three, 8, MC_RACE, 1, 2, 20, 400, "three threads, short lock programs" },
};
#else
static struct mc_scenario sc[] = {
    { "module-fails", sc_module_fails, 4, MC_RACE, 1, 2, 25, 300, "a module fails at beginning, preparing, applying or undoing a transaction, beside another (irrevocable) transaction" },
    { "waiters", sc_waiters, 8, MC_RACE, 1, 2, 25, 400, "long-running transactions queue up behind a writer, three and four threads" },
    { "term-two", sc_term_two, 16, MC_RACE, 1, 2, 30, 500, "two threads over two locks, every outcome" },
    { "term-three", sc_term_three, 16, MC_RACE, 1, 2, 25, 500, "three threads over two locks", 4 },
    { "many-owners", sc_many, 6, MC_RACE, 1, 2, 10, 60, "waiting transactions with more than 15 and 31 lock owners alive", 4 },
};
#endif

int main(int argc, char* argv[])
{
    static const char* const as[] = { "sequentially consistent interleavings, missing ordering is reported as a data race",
        "waiting times are virtual: a timed wait may end whenever other threads can run", NULL };
    make_progs();
#if PROP == 5
    sc[2].nvariants = 2 * np;
#endif
    return mc_main(argc, argv, PROP == 5 ? "P05" : "P04", sc, sizeof sc / sizeof *sc, as);
}
