/* P03: an irrevocable transaction runs alone and is never rolled back by others */
#include "mc.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-error.h"
#include "picotm/picotm-tm.h"
#include <string.h>

enum { PLAIN, IRREV, LATE_IRREV, CONFLICTS, RESTART1, ERRORS, ERR_RESTART, TWICE, NKINDS };
static const char* const kn[] = { "plain", "irrevocable at once", "irrevocable after its accesses", "conflicting until irrevocable",
    "restarting once", "failing", "failing, restarted from recovery", "irrevocable requested twice" };

static long x, y;
static int nt;
static int kind[MC_MAXTHREADS];
static unsigned active;        /* threads between their transaction's begin and its end */
static int irrev = -1;         /* thread that runs irrevocably */
static int attempts[MC_MAXTHREADS], irrev_attempts[MC_MAXTHREADS], undone_irrev[MC_MAXTHREADS];
static bool own_error[MC_MAXTHREADS];
static int cleared[MC_MAXTHREADS];

static struct mod { int t; bool reg; unsigned long id; bool was_irrev; } md[MC_MAXTHREADS];

static void enter(int t)
{
    bool ir = picotm_is_irrevocable();
    if (irrev >= 0 && irrev != t) mc_fail("not alone", "T%d executes while T%d is irrevocable", t, irrev);
    if (ir && (active & ~(1u << t))) mc_fail("not alone", "T%d became irrevocable while threads %x execute transactions", t, active & ~(1u << t));
    active |= 1u << t;
    md[t].was_irrev = ir;
    if (ir) irrev = t;
}

static void check_alone(int t)
{
    bool ir = picotm_is_irrevocable();
    mc_check(ir == (irrev == t), "irrevocability changed", "T%d: picotm_is_irrevocable() is %d, %s before", t, ir, irrev == t ? "true" : "false");
    mc_check(irrev < 0 || irrev == t, "not alone", "T%d executes while T%d is irrevocable", t, irrev);
    if (ir) mc_check(!(active & ~(1u << t)), "not alone", "T%d is irrevocable while threads %x execute", t, active & ~(1u << t));
}

static void m_undo(void* d, struct picotm_error* e)
{
    (void)e;
    struct mod* m = d;
    if (m->was_irrev && !own_error[m->t])
        mc_fail("irrevocable transaction rolled back", "T%d was rolled back while irrevocable", m->t);
    mc_note("T%d undo", m->t);
}

static void m_apply(void* d, struct picotm_error* e)
{
    (void)e;
    struct mod* m = d;
    check_alone(m->t);
}

static void m_finish(void* d, struct picotm_error* e)
{
    (void)e;
    struct mod* m = d;
    check_alone(m->t);
    active &= ~(1u << m->t);
    if (irrev == m->t) irrev = -1;
    mc_note("T%d finish", m->t);
}

static const struct picotm_module_ops mops = { .apply = m_apply, .undo = m_undo, .finish = m_finish };

static void thread_fn(int t)
{
    volatile int errs = 0;
    volatile int recovered = 0;
    picotm_begin
        enter(t);
        attempts[t]++;
        if (picotm_is_irrevocable()) irrev_attempts[t]++;
        mc_note("T%d attempt %d%s", t, attempts[t], picotm_is_irrevocable() ? " (irrevocable)" : "");
        own_error[t] = false;
        if (!md[t].reg) {
            struct picotm_error err = PICOTM_ERROR_INITIALIZER;
            md[t].id = picotm_register_module(&mops, &md[t], &err);
            mc_check(!picotm_error_is_set(&err), "harness", "register");
            md[t].reg = true;
        }
        if (picotm_number_of_restarts() && !picotm_is_irrevocable() && attempts[t] == 2) mc_yield();
        int k = kind[t];
        if (k == IRREV || k == TWICE) { picotm_irrevocable(); mc_check(picotm_is_irrevocable(), "not irrevocable", "T%d goes on after picotm_irrevocable() without being irrevocable", t); }
        if (k == TWICE) { picotm_irrevocable(); check_alone(t); }
        long v = 0;
        load_tx(&x, &v, sizeof v);
        check_alone(t);
        v++;
        store_tx(&x, &v, sizeof v);
        if (t < 2 && nt == 2) { privatize_tx(&y, sizeof y, PICOTM_TM_PRIVATIZE_LOADSTORE); y += 10; }
        check_alone(t);
        if (k == LATE_IRREV) { picotm_irrevocable(); mc_check(picotm_is_irrevocable(), "not irrevocable", "T%d goes on after picotm_irrevocable() without being irrevocable", t); }
        if (k == CONFLICTS && !picotm_is_irrevocable()) {
            mc_check(attempts[t] < 40, "never irrevocable", "T%d conflicted %d times and is still revocable", t, attempts[t]);
            picotm_resolve_conflict(NULL);
        }
        if (k == RESTART1 && !picotm_number_of_restarts()) picotm_restart();
        if (k == ERRORS || (k == ERR_RESTART && !errs)) { own_error[t] = true; picotm_recover_from_error_code(PICOTM_GENERAL_ERROR); }
        check_alone(t);
    picotm_commit
        recovered++;
        mc_check(!(active >> t & 1), "recovery before the end", "T%d in recovery while its transaction executes", t);
        if (kind[t] == ERR_RESTART && !errs) { errs++; picotm_restart(); }
    picotm_end
    mc_check(!(active >> t & 1), "not finished", "T%d returned but its modules have not been finished", t);
    mc_check(recovered == (kind[t] == ERRORS || kind[t] == ERR_RESTART), "recoveries", "T%d: recovery code ran %d times", t, recovered);
    int want = kind[t] == IRREV || kind[t] == LATE_IRREV || kind[t] == TWICE || kind[t] == CONFLICTS;
    mc_check(irrev_attempts[t] <= 1, "repeated while irrevocable", "T%d executed %d times while irrevocable", t, irrev_attempts[t]);
    mc_check(irrev_attempts[t] == 1 || !want, "never irrevocable", "T%d committed without having been irrevocable", t);
    picotm_release();
}



static void run(void)
{
    x = y = 0;
    active = 0;
    irrev = -1;
    memset(attempts, 0, sizeof attempts);
    memset(irrev_attempts, 0, sizeof irrev_attempts);
    memset(own_error, 0, sizeof own_error);
    memset(md, 0, sizeof md);
    int n = 0;
    for (int t = 0; t < nt; t++) { md[t].t = t; mc_note("T%d: %s", t, kn[kind[t]]); if (kind[t] != ERRORS) n++; }
    picotm_begin
        long v;
        load_tx(&x, &v, sizeof v);
        load_tx(&y, &v, sizeof v);
    picotm_commit picotm_end
    mc_run_threads(nt, thread_fn);
    for (int t = 0; t < nt; t++) mc_outcome(attempts[t] * 2 + irrev_attempts[t]);
    mc_check(x == n && y == (nt == 2 ? 10 * n : 0), "effects", "%d transactions committed, but x=%ld y=%ld", n, x, y);
    /* revocable transactions resume */
    picotm_begin
        mc_check(!picotm_is_irrevocable(), "still irrevocable", "a new transaction is irrevocable");
        long v;
        load_tx(&x, &v, sizeof v);
    picotm_commit picotm_end
}

static void sc_conflicts(int v)
{
    nt = 2;
    kind[0] = CONFLICTS;
    kind[1] = v;
    run();
}

static void sc_two(int v)
{
    nt = 2;
    kind[0] = v;
    kind[1] = mc_choose(NKINDS - 1);
    if (v == CONFLICTS) v = kind[0] = NKINDS - 1;
    if (kind[1] == CONFLICTS) kind[1] = NKINDS - 1;
    run();
}

static void sc_three(int v)
{
    nt = 3;
    static const int k3[] = { PLAIN, IRREV, CONFLICTS, ERRORS };
    kind[0] = (int[]){ IRREV, PLAIN, ERRORS, CONFLICTS, LATE_IRREV, RESTART1, ERR_RESTART, TWICE }[v];
    kind[1] = k3[mc_choose(4)];
    kind[2] = k3[mc_choose(4)];
    run();
}

static struct mc_scenario sc[] = {
    { "irrevocable-two", sc_two, NKINDS - 1, MC_RACE, 2, 3, 32, 500, "two threads, seven kinds of transactions each" },
    { "irrevocable-limit", sc_conflicts, NKINDS, MC_RACE, 1, 2, 12, 300, "a transaction that conflicts until it becomes irrevocable, beside each other kind" },
    { "irrevocable-three", sc_three, NKINDS, MC_RACE, 1, 2, 20, 500, "three threads", 2 },
};

int main(int argc, char* argv[])
{
    static const char* const as[] = { "sequentially consistent interleavings", "pthread reader/writer lock modelled without writer preference", NULL };
    return mc_main(argc, argv, "P03", sc, sizeof sc / sizeof *sc, as);
}
