/* P06: shared state is initialised once, used only while alive, cleaned up once */
#include "mc.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-error.h"
#include "picotm/picotm-tm.h"
#include "picotm/picotm-lib-global-state.h"
#include "picotm/picotm-lib-thread-state.h"
#include "picotm/picotm-lib-shared-ref-obj.h"
#include "picotm/picotm-lib-shared-state.h"
#include "picotm/picotm-lib-spinlock.h"
#include "picotm/picotm-lib-ref.h"
#include "picotm/picotm-lib-ptr.h"
#include <string.h>

/* the shadow lives in functions without instrumentation */
#define SHADOW __attribute__((no_sanitize_thread, noinline)) static

/* ------------------------------------------------- reference-counted object */

static struct obj { struct picotm_shared_ref16_obj ref; int data; } obj;
static int refs, alive, inits, cleanups, init_errors, in_init;
static int fail_init_of = -1, wrong_cond_of = -1; /* thread */

SHADOW bool sh_fail(int t) { if (fail_init_of != t) return false; fail_init_of = -1; return true; }
SHADOW bool sh_will_fail(int t) { return fail_init_of == t; }
SHADOW bool sh_fail_gs(void);
SHADOW void sh_init_begin(void)
{
    mc_check(!alive, "initialised twice", "first-reference function runs while the object is initialised");
    mc_check(!refs, "initialised while referenced", "first-reference function runs with %d references", refs);
    mc_check(!in_init, "initialised concurrently", "two first-reference functions run at once");
    in_init = 1;
}
SHADOW void sh_init_end(int ok) { in_init = 0; if (ok) { alive = 1; inits++; } else init_errors++; }
SHADOW void sh_cleanup(void)
{
    mc_check(alive, "cleaned up twice", "final-reference function runs on an object that is not initialised");
    mc_check(!refs, "cleaned up while referenced", "final-reference function runs with %d references left", refs);
    alive = 0;
    cleanups++;
}
SHADOW void sh_up(void)
{
    mc_check(alive, "reference to uninitialised object", "a reference was granted on an object that is not initialised");
    refs++;
}
SHADOW void sh_use(void) { mc_check(alive, "use after clean-up", "the object was cleaned up while referenced"); }
SHADOW void sh_down(void) { refs--; }

static bool up_cond(struct picotm_shared_ref16_obj* r, void* d, struct picotm_error* e)
{
    (void)r;
    int t = (int)(intptr_t)d;
    if (wrong_cond_of == t + 8) { picotm_error_set_error_code(e, PICOTM_GENERAL_ERROR); return false; }
    return wrong_cond_of != t;
}

static void first_ref(struct picotm_shared_ref16_obj* r, void* d, struct picotm_error* e)
{
    int t = (int)(intptr_t)d;
    struct obj* o = picotm_containerof(r, struct obj, ref);
    sh_init_begin();
    if (sh_fail(t)) {
        sh_init_end(0);
        picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY);
        return;
    }
    o->data = 1;
    mc_point();
    o->data = 42;
    sh_init_end(1);
}

static void final_ref(struct picotm_shared_ref16_obj* r, void* d, struct picotm_error* e)
{
    (void)d; (void)e;
    struct obj* o = picotm_containerof(r, struct obj, ref);
    sh_cleanup();
    o->data = 0;
}

static int rounds[MC_MAXTHREADS], mode[MC_MAXTHREADS];
static int granted[MC_MAXTHREADS];

static void ref_fn(int t)
{
    for (int i = 0; i < rounds[t]; i++) {
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        bool cond = mode[t] & 1;
        bool fails = sh_will_fail(t);
        uint16_t before = 0;
        (void)before;
        picotm_shared_ref16_obj_up(&obj.ref, (void*)(intptr_t)t, cond ? up_cond : NULL, first_ref, &err);
        if (picotm_error_is_set(&err)) {
            mc_check(fails || (cond && wrong_cond_of == t + 8), "unexpected error", "T%d: up failed", t);
            mc_outcome(7);
            continue;
        }
        if (cond && wrong_cond_of == t) { mc_outcome(8); continue; } /* condition not met: no reference */
        mc_check(!(cond && wrong_cond_of == t + 8), "error lost", "T%d: error of the condition was not reported", t);
        sh_up();
        granted[t]++;
        mc_check(obj.data == 42, "uninitialised object", "T%d sees data %d", t, obj.data);
        if (mode[t] & 2) { /* a second reference while holding one: fast path */
            picotm_shared_ref16_obj_up(&obj.ref, NULL, NULL, NULL, &err);
            sh_up();
            sh_down();
            picotm_shared_ref16_obj_down(&obj.ref, NULL, NULL, final_ref);
        }
        mc_point();
        sh_use();
        mc_check(obj.data == 42, "uninitialised object", "T%d sees data %d", t, obj.data);
        sh_down();
        picotm_shared_ref16_obj_down(&obj.ref, NULL, NULL, final_ref);
    }
}

static void ref_run(int nt)
{
    memset(&obj, 0, sizeof obj);
    struct picotm_error err = PICOTM_ERROR_INITIALIZER;
    picotm_shared_ref16_obj_init(&obj.ref, &err);
    refs = alive = inits = cleanups = init_errors = in_init = 0;
    memset(granted, 0, sizeof granted);
    mc_run_threads(nt, ref_fn);
    int g = 0;
    for (int t = 0; t < nt; t++) g += granted[t];
    mc_outcome(inits * 100 + cleanups * 10 + init_errors);
    mc_check(!alive, "not cleaned up", "all references are gone, but the object was not cleaned up (%d initialisations, %d clean-ups)", inits, cleanups);
    mc_check(inits == cleanups && (inits > 0) == (g > 0), "initialisations", "%d initialisations, %d clean-ups, %d references granted", inits, cleanups, g);
    mc_check(picotm_shared_ref16_obj_count(&obj.ref) == 0, "count", "reference count is %d after all references were released", picotm_shared_ref16_obj_count(&obj.ref));
    picotm_shared_ref16_obj_uninit(&obj.ref);
}

static void sc_ref2(int v)
{
    for (int t = 0; t < 2; t++) { rounds[t] = 2; mode[t] = 0; }
    mode[0] = v;
    mode[1] = mc_tier_thorough ? mc_choose(4) : 2;
    fail_init_of = mc_choose(3) - 1;
    wrong_cond_of = mc_choose(3) == 1 ? 0 : -1;
    if (wrong_cond_of == 0 && mc_choose(2)) wrong_cond_of = 8;
    ref_run(2);
}

static void sc_ref3(int v)
{
    for (int t = 0; t < 3; t++) { rounds[t] = t == 0 ? 2 : 1; mode[t] = 0; }
    mode[v % 3] = mc_choose(4);
    fail_init_of = mc_choose(3) - 1;
    wrong_cond_of = v / 3 ? 1 : -1;
    ref_run(3);
}

/* conditional release: a failing condition keeps the reference */
static int keep;
static bool down_cond(struct picotm_shared_ref16_obj* r, void* d, struct picotm_error* e) { (void)r; (void)d; (void)e; return !keep; }

static void sc_ref_seq(int v)
{
    (void)v;
    /* all sequences of up, up(fails), up(cond false), fast up, down, down(cond false) */
    struct picotm_shared_ref16_obj_dummy { int x; } dummy = { 0 };
    (void)dummy;
    memset(&obj, 0, sizeof obj);
    struct picotm_error e0 = PICOTM_ERROR_INITIALIZER;
    picotm_shared_ref16_obj_init(&obj.ref, &e0);
    refs = alive = inits = cleanups = init_errors = in_init = 0;
    int model = 0;
    for (int i = 0; i < 6; i++) {
        int o = mc_choose(7);
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        fail_init_of = wrong_cond_of = -1;
        keep = 0;
        switch (o) {
        case 0: picotm_shared_ref16_obj_up(&obj.ref, 0, NULL, first_ref, &err); model++; refs++; break;
        case 1: fail_init_of = 0;
            picotm_shared_ref16_obj_up(&obj.ref, 0, up_cond, first_ref, &err);
            mc_check(picotm_error_is_set(&err) == (model == 0), "error of initialisation", "up with failing initialiser and %d references: error %d", model, picotm_error_is_set(&err));
            if (model) { model++; refs++; }
            break;
        case 2: wrong_cond_of = 0; picotm_shared_ref16_obj_up(&obj.ref, 0, up_cond, first_ref, &err); break;
        case 3: if (!model) mc_prune(); picotm_shared_ref16_obj_up(&obj.ref, 0, NULL, NULL, &err); model++; refs++; break;
        case 4: if (!model) mc_prune(); refs--; model--; picotm_shared_ref16_obj_down(&obj.ref, 0, NULL, final_ref); break;
        case 5: if (!model) mc_prune(); keep = 1; picotm_shared_ref16_obj_down(&obj.ref, 0, down_cond, final_ref); break;
        case 6: if (!model) mc_prune(); refs--; model--; picotm_shared_ref16_obj_down(&obj.ref, 0, down_cond, final_ref); break;
        }
        mc_check(picotm_shared_ref16_obj_count(&obj.ref) == model, "count", "reference count %d after %d net references", picotm_shared_ref16_obj_count(&obj.ref), model);
        mc_check(alive == (model > 0), "liveness", "object %s with %d references", alive ? "initialised" : "not initialised", model);
    }
}

/* as many references as the counter can hold */
static void sc_many(int v)
{
    static const int ns[] = { 2, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535 };
    memset(&obj, 0, sizeof obj);
    struct picotm_error e0 = PICOTM_ERROR_INITIALIZER;
    picotm_shared_ref16_obj_init(&obj.ref, &e0);
    refs = alive = inits = cleanups = init_errors = in_init = 0;
    fail_init_of = wrong_cond_of = -1;
    keep = 0;
    int n = ns[v], how = mc_choose(3), low = mc_choose(2) ? 1 : 0;
    mc_note("%d references, %s", n, how == 0 ? "with a condition" : how == 1 ? "without condition" : "mixed");
    for (int rep = 0; rep < 2; rep++) {
        for (int i = refs; i < n; i++) {
            struct picotm_error err = PICOTM_ERROR_INITIALIZER;
            picotm_shared_ref16_obj_up(&obj.ref, 0, how == 0 || (how == 2 && i % 2) ? up_cond : NULL, how == 2 && i % 3 == 1 ? NULL : first_ref, &err);
            mc_check(!picotm_error_is_set(&err), "unexpected error", "reference %d", i + 1);
            refs++;
            mc_check(alive && inits == 1 + (rep && !low), "liveness", "%d references, initialised %d times", refs, inits);
            if (refs == n || refs < 300 || !(refs % 255)) mc_check(picotm_shared_ref16_obj_count(&obj.ref) == refs, "count", "reference count %d after %d references", picotm_shared_ref16_obj_count(&obj.ref), refs);
        }
        while (refs > (rep ? 0 : low)) {
            refs--;
            picotm_shared_ref16_obj_down(&obj.ref, 0, how == 1 ? NULL : down_cond, final_ref);
            mc_check(alive == (refs > 0), "liveness", "object %s with %d references", alive ? "initialised" : "not initialised", refs);
        }
    }
    mc_cases(1);
}

/* ----------------------------------------------------- global state macros */

struct gs { int data; };
static int gs_fail;
SHADOW bool sh_fail_gs(void) { if (!gs_fail) return false; gs_fail = 0; return true; }
static void gs_init(struct gs* g, struct picotm_error* e)
{
    sh_init_begin();
    if (sh_fail_gs()) { sh_init_end(0); picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY); return; }
    g->data = 1;
    mc_point();
    g->data = 42;
    sh_init_end(1);
}
static void gs_uninit(struct gs* g) { sh_cleanup(); g->data = 0; }
PICOTM_SHARED_STATE(gstate, struct gs)
PICOTM_SHARED_STATE_STATIC_IMPL(gstate, struct gs, gs_init, gs_uninit)
PICOTM_GLOBAL_STATE_STATIC_IMPL(gstate)

/* thread state that refers to the global state, as modules do */
static int ts_inits[MC_MAXTHREADS], ts_uninits[MC_MAXTHREADS];
struct tstate { struct gs* g; };
static void ts_init(struct tstate* s, struct picotm_error* e)
{
    s->g = PICOTM_GLOBAL_STATE_REF(gstate, e);
    if (picotm_error_is_set(e)) return;
    sh_up();
    ts_inits[mc_tid()]++;
}
static void ts_uninit(struct tstate* s)
{
    (void)s;
    ts_uninits[mc_tid()]++;
    sh_down();
    PICOTM_GLOBAL_STATE_UNREF(gstate);
}
PICOTM_STATE(tstate, struct tstate);
PICOTM_STATE_STATIC_DECL(tstate, struct tstate)
PICOTM_THREAD_STATE_STATIC_DECL(tstate)
PICOTM_STATE_STATIC_IMPL(tstate, struct tstate, ts_init, ts_uninit)
PICOTM_THREAD_STATE_STATIC_IMPL(tstate)

static void gs_fn(int t)
{
    for (int i = 0; i < 2; i++) {
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        struct tstate* s = PICOTM_THREAD_STATE_ACQUIRE(tstate, false, &err);
        mc_check(!s && !picotm_error_is_set(&err), "uninitialised thread state returned", "T%d", t);
        s = PICOTM_THREAD_STATE_ACQUIRE(tstate, true, &err);
        if (picotm_error_is_set(&err)) {
            mc_check(!s, "state returned with error", "T%d", t);
            struct picotm_error e2 = PICOTM_ERROR_INITIALIZER;
            mc_check(!PICOTM_THREAD_STATE_ACQUIRE(tstate, false, &e2), "failed thread state in use", "T%d", t);
            mc_outcome(9);
            continue;
        }
        mc_check(s && s->g->data == 42, "uninitialised global state", "T%d sees %d", t, s ? s->g->data : -1);
        mc_check(PICOTM_THREAD_STATE_ACQUIRE(tstate, true, &err) == s && PICOTM_THREAD_STATE_ACQUIRE(tstate, false, &err) == s, "thread state", "T%d: another instance", t);
        mc_check(PICOTM_GLOBAL_STATE_GET(gstate) == s->g, "global state", "another instance");
        mc_point();
        sh_use();
        mc_check(s->g->data == 42, "uninitialised global state", "T%d sees %d", t, s->g->data);
        PICOTM_THREAD_STATE_RELEASE(tstate);
        PICOTM_THREAD_STATE_RELEASE(tstate); /* a second release does nothing */
    }
}

static void sc_global(int v)
{
    refs = alive = inits = cleanups = init_errors = in_init = 0;
    memset(ts_inits, 0, sizeof ts_inits);
    memset(ts_uninits, 0, sizeof ts_uninits);
    gs_fail = mc_choose(2);
    int nt = 2 + v;
    mc_run_threads(nt, gs_fn);
    mc_check(!alive && inits == cleanups, "not cleaned up", "%d initialisations, %d clean-ups", inits, cleanups);
    for (int t = 0; t < nt; t++)
        mc_check(ts_inits[t] == ts_uninits[t], "thread state clean-up", "T%d: %d initialisations, %d clean-ups", t, ts_inits[t], ts_uninits[t]);
    mc_outcome(inits * 10 + init_errors);
}

/* ---------------------------------------------------------------- spinlock */

static struct picotm_spinlock spin;
static int guarded, holders;
SHADOW void sp_in(int t) { mc_check(!holders, "exclusion", "T%d got a spinlock held by another thread", t); holders++; }
SHADOW void sp_out(void) { holders--; }

static void spin_fn(int t)
{
    for (int i = 0; i < 2; i++) {
        if ((t + i) % 2) { if (!picotm_spinlock_try_lock(&spin)) { mc_outcome(t); continue; } }
        else picotm_spinlock_lock(&spin);
        sp_in(t);
        guarded++;
        mc_point();
        sp_out();
        picotm_spinlock_unlock(&spin);
    }
}

static void sc_spin(int v)
{
    picotm_spinlock_init(&spin);
    holders = 0;
    mc_run_threads(2 + v, spin_fn);
    mc_check(picotm_spinlock_try_lock(&spin), "leaked spinlock", "spinlock is not free at the end");
    mc_check(!picotm_spinlock_try_lock(&spin), "try_lock", "try_lock succeeds on a held spinlock");
}

/* ------------------------------- picotm's own state: first and last users */

static long shared_x;
static int with_tm;
static void tx_fn(int t)
{
    for (int i = 0; i < (t == 0 ? 2 : 1); i++) {
        picotm_begin
            if (picotm_number_of_restarts()) mc_yield();
            mc_check(!picotm_is_irrevocable() || picotm_number_of_restarts(), "mode", "T%d starts irrevocable", t);
            if (with_tm) {
                long v;
                load_tx(&shared_x, &v, sizeof v);
                v++;
                store_tx(&shared_x, &v, sizeof v);
            }
        picotm_commit
            mc_fail("unexpected recovery", "T%d", t);
        picotm_end
        picotm_release();
    }
}

static void sc_first_tx(int v)
{
    shared_x = 0;
    with_tm = v & 1;
    int nt = 2 + v / 2;
    mc_heap_mark();
    mc_run_threads(nt, tx_fn);
    if (with_tm) {
        long want = nt + 1;
        mc_check(shared_x == want, "effects", "x=%ld after %ld transactions", shared_x, want);
    } else
        mc_check(mc_heap_live() == 0, "leak", "%ld heap blocks live after all threads have released picotm", mc_heap_live());
    /* picotm can be used again */
    picotm_begin
        long v2;
        load_tx(&shared_x, &v2, sizeof v2);
    picotm_commit picotm_end
    picotm_release();
}

static struct mc_scenario sc[] = {
    { "ref-sequences", sc_ref_seq, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 10, 30, "all sequences of six conditional, failing and fast-path reference operations" },
    { "many-references", sc_many, 10, MC_NOPREEMPT, 0, 0, 20, 30, "up to 65535 references to one object" },
    { "spinlock", sc_spin, 2, MC_RACE, 2, 4, 5, 60, "lock and try_lock from two and three threads" },
    { "ref-two", sc_ref2, 4, MC_RACE, 2, 3, 15, 200, "two threads acquire and release twice; failing initialiser, conditions, fast path" },
    { "ref-three", sc_ref3, 6, MC_RACE, 1, 2, 8, 200, "three threads" },
    { "global-state", sc_global, 2, MC_RACE, 2, 3, 10, 200, "thread state over global state, failing initialiser" },
    { "first-transaction", sc_first_tx, 4, MC_RACE, 2, 3, 12, 300, "first and last transactions of threads race for picotm's and the TM module's state" },
};

int main(int argc, char* argv[])
{
    static const char* const as[] = { "sequentially consistent interleavings, missing ordering is reported as a data race", NULL };
    return mc_main(argc, argv, "P06", sc, sizeof sc / sizeof *sc, as);
}
