/* P28: data associated with addresses: shared and per-thread maps against
 * plain arrays; concurrent operations against all serial orders. */
#include "mc.h"
#include "picotm/picotm.h"
#include "picotm/picotm-error.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-ptrdata.h"
#include <string.h>

enum { NP = 9, MAXLEN = 4, NT = 3, NOP = 2 };
#define K(x_) ((const void*)(uintptr_t)(x_##ull))
static const void* const ptr[NP] = { K(0x1000), K(0x1008), K(0x1100), K(0x201000), K(0x8000000000001000), K(0xfffffffffffff000), K(0x7fff00001000), K(0), K(0xffffffffffffffff) };
enum kind { SET, CLEAR, TAS0, TAS1, LSET, LCLEAR, COMMIT, ABORT, RESTART, NKIND };
static const char* const kname[] = { "set shared", "clear shared", "test-and-set(NULL)", "test-and-set(1)", "set", "clear", "commit", "abort", "restart" };
struct op { enum kind k; int p; } ;
static struct op prog[MAXLEN];
static int plen, np;
static uintptr_t sh[NP], lo[NP];
static const void* val(uintptr_t v) { return (const void*)v; }

static bool bad(struct picotm_error* e) { return picotm_error_is_set(e); }
static void compare(const char* when)
{
    for (int i = 0; i < np; i++) {
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        uintptr_t s = (uintptr_t)ptr_get_shared_data(ptr[i], &e);
        uintptr_t l = bad(&e) ? 0 : (uintptr_t)ptr_get_data(ptr[i], &e);
        mc_check(!bad(&e), "error", "%s: a look-up reports an error", when);
        mc_check(s == sh[i], "shared data", "%s: the shared data of %p is %lu, expected %lu", when, ptr[i], (unsigned long)s, (unsigned long)sh[i]);
        mc_check(l == lo[i], "data", "%s: the thread's data of %p is %lu, expected %lu", when, ptr[i], (unsigned long)l, (unsigned long)lo[i]);
    }
}
static bool step(const struct op* o, uintptr_t v)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    const void* p = ptr[o->p];
    bool r = true;
    switch (o->k) {
    case SET: ptr_set_shared_data(p, val(v), &e); if (!bad(&e)) sh[o->p] = v; break;
    case CLEAR: ptr_clear_shared_data(p, &e); if (!bad(&e)) sh[o->p] = 0; break;
    case TAS0: case TAS1: {
        uintptr_t cur = o->k == TAS1;
        r = ptr_test_and_set_shared_data(p, val(cur), val(v), &e);
        if (bad(&e)) break;
        mc_check(r == (sh[o->p] == cur), "test and set", "%s on %p returns %d, its data is %lu", kname[o->k], p, r, (unsigned long)sh[o->p]);
        if (r) sh[o->p] = v;
        break;
    }
    case LSET: ptr_set_data(p, val(v), &e); if (!bad(&e)) lo[o->p] = v; break;
    case LCLEAR: ptr_clear_data(p, &e); if (!bad(&e)) lo[o->p] = 0; break;
    default: break;
    }
    if (bad(&e)) {
        mc_check(e.status == PICOTM_ERROR_CODE || e.status == PICOTM_ERRNO, "error", "an operation reports error status %d", e.status);
        return false;
    }
    return true;
}
/* the operations of the program, in transactions that end at COMMIT, ABORT and RESTART */
static void run(bool oom)
{
    static volatile int pos, rec;
    int live0;
    memset(sh, 0, sizeof sh); memset(lo, 0, sizeof lo);
    mc_heap_mark();
    live0 = (int)mc_heap_live();
    mc_alloc_fault = 0;
    picotm_begin
        compare("in the first transaction");
    picotm_commit
    picotm_end
    if (oom) mc_alloc_fault = 1;
    pos = 0;
    while (pos < plen) {
        rec = 0;
        picotm_begin
            while (pos < plen) {
                int i = pos;
                const struct op* o = prog + i;
                pos = i + 1;
                if (o->k == COMMIT) break;
                if (o->k == ABORT) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
                if (o->k == RESTART) picotm_restart();
                if (!step(o, (uintptr_t)i % 2 + 1) && !oom) mc_fail("error", "%s reports an error", kname[o->k]);
                int f = mc_alloc_fault; mc_alloc_fault = 0;
                compare(kname[o->k]);
                mc_alloc_fault = f;
            }
        picotm_commit
            rec = 1;
        picotm_end
        int f = mc_alloc_fault; mc_alloc_fault = 0;
        picotm_begin
            compare(rec ? "after an abort" : "after a commit");
        picotm_commit
        picotm_end
        mc_alloc_fault = f;
    }
    mc_alloc_fault = 0;
    picotm_release();
    mc_check(mc_heap_live() == live0, "leak", "%ld blocks remain allocated", mc_heap_live() - live0);
    mc_cases(1);
    mc_outcome(sh[0] * 3 + lo[0]);
}
static void choose(int len, int nptr, bool oom)
{
    static char s[300];
    int n = 0;
    plen = len; np = NP;
    for (int i = 0; i < len; i++) {
        prog[i].k = (enum kind)mc_choose(NKIND);
        prog[i].p = prog[i].k < COMMIT ? mc_choose(nptr) : 0;
        n += snprintf(s + n, sizeof s - (size_t)n, prog[i].k < COMMIT ? "%s(%p), " : "%s, ", kname[prog[i].k], ptr[prog[i].p]);
    }
    mc_ctx("%s", s); mc_note("%s", s);
    run(oom);
}
static void sc_seq2(int v) { (void)v; choose(2, NP, false); }
static void sc_seq3(int v) { (void)v; choose(3, mc_tier_thorough ? NP : 4, false); }
static void sc_seq4(int v) { (void)v; choose(4, 3, false); }
static void sc_oom(int v) { (void)v; mc_fault_budget = mc_tier_thorough ? 2 : 1; choose(2, 5, true); }
/* hundreds of addresses in one transaction, used again by the next ones */
static void sc_many(int v)
{
    (void)v;
    enum { MX = 600 };
    static uintptr_t a[MX], s[MX], l[MX]; static volatile int n, i, tx, how;
    static const uintptr_t stride[] = { 1, 8, 4096, 0x1000000000ul, 0x40000001ul };
    n = (int[]){ 100, 600 }[mc_choose(2)];
    uintptr_t st = stride[mc_choose(5)];
    how = mc_choose(3);
    int order = mc_choose(3);
    for (int j = 0; j < n; j++) { int k = order == 0 ? j : order == 1 ? n - 1 - j : (int)(j * 7l % n); a[j] = 0x7f0000000000ul + st * (uintptr_t)k; s[j] = l[j] = 0; }
    mc_ctx("%d addresses, stride %lx, order %d, %s", n, (unsigned long)st, order, how == 0 ? "commit" : how == 1 ? "error" : "restart");
    mc_heap_mark();
    long live0 = mc_heap_live();
    for (tx = 0; tx < 3; tx++) {
        static volatile int rec, tries; rec = tries = 0;
        picotm_begin
            tries++;
            struct picotm_error e = PICOTM_ERROR_INITIALIZER;
            for (i = 0; i < n; i++) {
                const void* p = (const void*)a[i];
                switch ((i + tx) % 5) {
                case 0: ptr_set_shared_data(p, val((uintptr_t)i * 2 + 1), &e); s[i] = (uintptr_t)i * 2 + 1; break;
                case 1: ptr_set_data(p, val((uintptr_t)i * 2 + 2), &e); l[i] = (uintptr_t)i * 2 + 2; break;
                case 2: ptr_clear_shared_data(p, &e); s[i] = 0; break;
                case 3: ptr_clear_data(p, &e); l[i] = 0; break;
                default: {
                    uintptr_t cur = i & 1 ? s[i] : s[i] + 1;
                    bool r = ptr_test_and_set_shared_data(p, val(cur), val((uintptr_t)i + 7), &e);
                    mc_check(r == (cur == s[i]), "test and set", "a test-and-set of address number %d returns %d", (int)i, r);
                    if (r) s[i] = (uintptr_t)i + 7;
                    break; }
                }
                mc_check(!bad(&e), "error", "operation on address number %d reports an error", (int)i);
            }
            for (i = 0; i < n; i++) {
                const void* p = (const void*)a[i];
                uintptr_t x = (uintptr_t)ptr_get_shared_data(p, &e), y = (uintptr_t)ptr_get_data(p, &e);
                mc_check(!bad(&e), "error", "a look-up reports an error");
                mc_check(x == s[i], "shared data", "the shared data of address number %d is %lu, expected %lu", (int)i, (unsigned long)x, (unsigned long)s[i]);
                mc_check(y == l[i], "data", "the thread's data of address number %d is %lu, expected %lu", (int)i, (unsigned long)y, (unsigned long)l[i]);
            }
            if (how == 1) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
            if (how == 2 && tries == 1) picotm_restart();
        picotm_commit
            rec = 1;
        picotm_end
        mc_check(rec == (how == 1), "unexpected error", "unexpected end of a transaction");
        picotm_begin
            struct picotm_error e = PICOTM_ERROR_INITIALIZER;
            for (i = 0; i < n; i++) {
                uintptr_t x = (uintptr_t)ptr_get_shared_data((const void*)a[i], &e), y = (uintptr_t)ptr_get_data((const void*)a[i], &e);
                mc_check(!bad(&e), "error", "a look-up reports an error");
                mc_check(x == s[i], "shared data", "after a transaction, the shared data of address number %d is %lu, expected %lu", (int)i, (unsigned long)x, (unsigned long)s[i]);
                mc_check(y == l[i], "data", "after a transaction, the thread's data of address number %d is %lu, expected %lu", (int)i, (unsigned long)y, (unsigned long)l[i]);
            }
        picotm_commit
        picotm_end
    }
    picotm_release();
    mc_check(mc_heap_live() == live0, "leak", "%ld blocks remain allocated", mc_heap_live() - live0);
    mc_cases(1);
    mc_outcome((uint64_t)how);
}
#ifdef THREADS
enum ck { GET, CSET, CCLEAR, CTAS, CTAS1, NONE };
static const char* const cname[] = { "get", "set", "clear", "test-and-set(NULL)", "test-and-set(1)", "-" };
static struct { int k, p; } tp[NT][NOP];
static struct { int k, p, t0, t1; uintptr_t v, r; } hist[NT * NOP + 1];
static int nhist, now;
static int nthreads;
static void thread_fn(int t)
{
    volatile int tries = 0;
    picotm_begin
        tries++;
        mc_check(tries == 1, "restart", "an operation restarts the transaction");
        for (int i = 0; i < NOP; i++) {
            struct picotm_error e = PICOTM_ERROR_INITIALIZER;
            const void* p = ptr[tp[t][i].p];
            uintptr_t v = (uintptr_t)(t * NOP + i + 1), r = 0;
            if (tp[t][i].k == NONE) continue;
            mc_quiet_begin(); int h = nhist++; hist[h].t0 = ++now; hist[h].t1 = 1000; mc_quiet_end();
            switch (tp[t][i].k) {
            case GET: r = (uintptr_t)ptr_get_shared_data(p, &e); break;
            case CSET: ptr_set_shared_data(p, val(v), &e); break;
            case CCLEAR: ptr_clear_shared_data(p, &e); break;
            case CTAS: r = ptr_test_and_set_shared_data(p, NULL, val(v), &e); break;
            case CTAS1: r = ptr_test_and_set_shared_data(p, val(1), val(v), &e); break;
            }
            mc_quiet_begin(); hist[h].t1 = ++now; hist[h].k = tp[t][i].k; hist[h].p = tp[t][i].p; hist[h].v = v; hist[h].r = r; mc_quiet_end();
            mc_check(!bad(&e), "error", "T%d: %s reports an error", t, cname[tp[t][i].k]);
            /* the thread's own data is nobody else's */
            mc_check(!ptr_get_data(p, &e), "data", "T%d finds data of another thread", t);
            if (i) { ptr_set_data(p, val(v), &e); mc_check(ptr_get_data(p, &e) == val(v), "data", "T%d: its data is not found", t); }
        }
    picotm_commit
        mc_fail("error", "T%d: recovery", t);
    picotm_end
    picotm_release();
}
static bool linear(unsigned done, const uintptr_t* s0)
{
    bool any = false;
    for (int i = 0; i < nhist; i++) {
        if (done >> i & 1) continue;
        any = true;
        bool first = true;
        for (int j = 0; j < nhist; j++) if (!(done >> j & 1) && j != i && hist[j].t1 < hist[i].t0) first = false;
        if (!first) continue;
        uintptr_t s[NP];
        memcpy(s, s0, sizeof s);
        uintptr_t* x = s + hist[i].p;
        bool ok = true;
        switch (hist[i].k) {
        case GET: ok = hist[i].r == *x; break;
        case CSET: *x = hist[i].v; break;
        case CCLEAR: *x = 0; break;
        case CTAS: case CTAS1: { uintptr_t c = hist[i].k == CTAS1; ok = hist[i].r == (*x == c); if (*x == c) *x = hist[i].v; break; }
        }
        if (ok && linear(done | 1u << i, s)) return true;
    }
    return !any;
}
static void go(void)
{
    static char s[300], r[300];
    int n = 0;
    for (int t = 0; t < nthreads; t++) {
        n += snprintf(s + n, sizeof s - (size_t)n, "T%d:", t);
        for (int i = 0; i < NOP; i++) n += snprintf(s + n, sizeof s - (size_t)n, tp[t][i].k == NONE ? " -" : " %s(%p)", cname[tp[t][i].k], ptr[tp[t][i].p]);
        n += snprintf(s + n, sizeof s - (size_t)n, "; ");
    }
    mc_ctx("%s", s); mc_note("%s", s);
    nhist = now = 0;
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    picotm_begin
        ptr_set_shared_data(ptr[8], val(77), &e);
    picotm_commit
    picotm_end
    mc_run_threads(nthreads, thread_fn);
    /* what is found at the end */
    picotm_begin
        for (int i = 0; i < 3; i++) { int h = nhist; if (h < NT * NOP + 1 && i == tp[0][0].p) { hist[h].k = GET; hist[h].p = i; hist[h].t0 = ++now; hist[h].t1 = ++now; hist[h].r = (uintptr_t)ptr_get_shared_data(ptr[i], &e); nhist++; } }
        mc_check(ptr_get_shared_data(ptr[8], &e) == val(77), "shared data", "the data of another address is lost");
    picotm_commit
    picotm_end
    uintptr_t s0[NP] = { 0 };
    n = 0; r[0] = 0;
    unsigned h = 0;
    for (int i = 0; i < nhist; i++) { n += snprintf(r + n, sizeof r - (size_t)n, "[%d,%d] %s(%p, %lu) = %lu; ", hist[i].t0, hist[i].t1, cname[hist[i].k], ptr[hist[i].p], (unsigned long)hist[i].v, (unsigned long)hist[i].r); h = h * 11 + (unsigned)hist[i].r; }
    mc_check(linear(0, s0), "not atomic", "no order of the operations explains %s", r);
    picotm_release();
    mc_outcome(h);
    mc_cases(1);
}
/* equal addresses, and addresses that share directories of the map */
static void pick(int t, int i, int nk, int npt) { tp[t][i].k = mc_choose(nk); static const int pp[] = { 0, 1, 2 }; tp[t][i].p = tp[t][i].k == NONE ? 0 : pp[mc_choose(npt)]; }
static void sc_two(int v)
{
    nthreads = 2;
    tp[0][0].k = v; tp[0][0].p = 0;
    pick(0, 1, 6, mc_tier_thorough ? 2 : 1);
    pick(1, 0, 5, 2);
    if (mc_tier_thorough) pick(1, 1, 6, 2); else tp[1][1].k = NONE;
    go();
}
static void sc_three(int v)
{
    nthreads = 3;
    tp[0][0].k = v; tp[0][0].p = 0;
    tp[0][1].k = tp[1][1].k = NONE;
    pick(1, 0, 5, mc_tier_thorough ? 2 : 1); pick(2, 0, 5, mc_tier_thorough ? 2 : 1); tp[2][1].k = mc_tier_thorough ? GET : NONE; tp[2][1].p = 0;
    go();
}
static const struct mc_scenario sc[] = {
    { "two", sc_two, 5, MC_RACE, 1, 2, 60, 500, "two threads with up to two operations each on shared data" },
    { "three", sc_three, 5, MC_RACE, 0, 2, 60, 400, "three threads" },
};
#else
static const struct mc_scenario sc[] = {
    { "seq2", sc_seq2, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 60, "all pairs of operations and transaction ends on nine addresses" },
    { "seq3", sc_seq3, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 300, "all triples" },
    { "many", sc_many, 1, MC_NOPREEMPT, 0, 0, 20, 60, "100 and 600 addresses of different distances in three transactions" },
    { "oom", sc_oom, 1, MC_NOPREEMPT, 0, 0, 60, 200, "pairs of operations with failing allocations" },
    { "seq4", sc_seq4, 1, MC_NOPREEMPT | MC_INPROC | MC_THOROUGH_ONLY, 0, 0, 60, 300, "four operations on three addresses" },
};
#endif
int main(int argc, char* argv[])
{
    static const char* const as[] = { "the shared map lives as long as a thread uses the module", NULL };
    (void)sc_seq2; (void)sc_seq3; (void)sc_seq4; (void)sc_oom; (void)sc_many;
    return mc_main(argc, argv, "P28", sc, sizeof sc / sizeof *sc, as);
}
