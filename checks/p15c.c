/* P15, concurrent part: blocks passed between transactions of several threads */
#include "mc.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-tm.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include <stdlib.h>
#include <string.h>

void* rt_malloc(size_t);
void rt_free(void*);
size_t rt_malloc_usable_size(void*);

/* A shared pointer to a block of W words; all words of a block hold the same value. */
#define W 3
static long* ptr;
static int kind[MC_MAXTHREADS];
enum { FREE_NULL, REALLOC, REPLACE, UPDATE, READ, PUBLISH, FREE_ABORT, NK };
static const char* const kn[] = { "free", "realloc", "replace", "update", "read", "publish", "free, then abort" };

static void thread_fn(int t)
{
    volatile int err = 0;
    picotm_begin
        if (picotm_number_of_restarts()) mc_yield();
        long* p = load_ptr_tx((void* const*)&ptr);
        long v[W] = { 0, 0, 0 };
        if (p) {
            load_tx(p, v, sizeof v);
            mc_check(v[0] == v[1] && v[1] == v[2], "torn block", "T%d reads %ld %ld %ld", t, v[0], v[1], v[2]);
            mc_check(v[0] > 0 && v[0] < 100, "stale block", "T%d reads %ld", t, v[0]);
        }
        switch (kind[t]) {
        case FREE_NULL: case FREE_ABORT:
            if (p) { free_tx(p); store_ptr_tx((void**)&ptr, NULL); }
            if (kind[t] == FREE_ABORT) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
            break;
        case REALLOC: {
            long* q = realloc_tx(p, sizeof v);
            if (!p) for (int i = 0; i < W; i++) v[i] = 5;
            if (!p) store_tx(q, v, sizeof v);
            store_ptr_tx((void**)&ptr, q);
            break; }
        case REPLACE: {
            long* q = malloc_tx(sizeof v);
            for (int i = 0; i < W; i++) v[i] += 10;
            store_tx(q, v, sizeof v);
            if (p) free_tx(p);
            store_ptr_tx((void**)&ptr, q);
            break; }
        case UPDATE:
            for (int i = 0; i < W; i++) v[i] += 1;
            if (p) store_tx(p, v, sizeof v);
            break;
        case PUBLISH:
            if (!p) {
                long* q = calloc_tx(W, sizeof(long));
                for (int i = 0; i < W; i++) v[i] = 7;
                store_tx(q, v, sizeof v);
                store_ptr_tx((void**)&ptr, q);
            }
            break;
        }
    picotm_commit
        err = 1;
    picotm_end
    mc_check(err == (kind[t] == FREE_ABORT), "unexpected error", "T%d ends with error %d", t, err);
    picotm_release();
}

/* serial reference: -1 no block */
static long step(int k, long v)
{
    switch (k) {
    case FREE_NULL: return -1;
    case REALLOC: return v < 0 ? 5 : v;
    case REPLACE: return v < 0 ? 10 : v + 10;
    case UPDATE: return v < 0 ? v : v + 1;
    case PUBLISH: return v < 0 ? 7 : v;
    }
    return v;
}

/* main takes part first, so that the threads do not race for initialising
 * picotm's global state (explored by P06) */
static void warm_up(void)
{
    picotm_begin
        load_ptr_tx((void* const*)&ptr);
        free_tx(malloc_tx(8));
    picotm_commit
        mc_fail("unexpected recovery", "recovery in warm-up");
    picotm_end
}

static void run(int n, long init)
{
    mc_heap_mark();
    ptr = NULL;
    if (init > 0) { ptr = rt_malloc(W * sizeof(long)); for (int i = 0; i < W; i++) ptr[i] = init; }
    for (int t = 0; t < n; t++) mc_note("T%d: %s", t, kn[kind[t]]);
    warm_up();
    mc_run_threads(n, thread_fn);
    picotm_release();
    long fin = ptr ? ptr[0] : -1;
    if (ptr) { mc_check(rt_malloc_usable_size(ptr) >= W * sizeof(long), "small block", "block has %zu bytes", rt_malloc_usable_size(ptr)); for (int i = 1; i < W; i++) mc_check(ptr[i] == fin, "torn block", "final block differs in word %d", i); }
    static const int perm[6][3] = { { 0, 1, 2 }, { 1, 0, 2 }, { 0, 2, 1 }, { 2, 0, 1 }, { 1, 2, 0 }, { 2, 1, 0 } };
    bool ok = false;
    for (int i = 0; i < (n == 2 ? 2 : 6); i++) {
        long v = init;
        for (int j = 0; j < n; j++) v = step(kind[perm[i][j]], v);
        ok |= v == fin;
    }
    mc_check(ok, "not serializable", "final value is %ld", fin);
    long live = mc_heap_live(), want = ptr != NULL;
    mc_check(live == want, live > want ? "leak" : "double release", "%ld blocks are allocated at the end, expected %ld", live, want);
    mc_cases(1);
    mc_outcome(fin);
}

static void sc_pair(int v) { kind[0] = 0; while (v >= NK - kind[0]) v -= NK - kind[0]++; kind[1] = kind[0] + v; run(2, mc_choose(2) ? 3 : -1); }
static void sc_triple(int v)
{
    static const int k[][3] = { { FREE_NULL, REPLACE, READ }, { REALLOC, UPDATE, FREE_NULL }, { REPLACE, REPLACE, UPDATE }, { FREE_NULL, PUBLISH, UPDATE }, { FREE_ABORT, REALLOC, READ } };
    memcpy(kind, k[v], sizeof k[v]);
    run(3, mc_choose(2) ? 3 : -1);
}

static const struct mc_scenario sc[] = {
    { "pair", sc_pair, NK * (NK + 1) / 2, 0, 2, 2, 15, 500, "two transactions that release, reallocate, replace, publish, update or read a shared block" },
    { "triple", sc_triple, 5, 0, 1, 2, 25, 400, "three such transactions" },
};
int main(int argc, char* argv[])
{
    static const char* const as[] = { "released memory is never reused within an execution, and every access to it is reported", NULL };
    return mc_main(argc, argv, "P15", sc, sizeof sc / sizeof *sc, as);
}
