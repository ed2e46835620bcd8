/* P15: transactional allocation neither leaks nor frees early or twice */
#include "mc.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-tm.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include <errno.h>
#include <sanitizer/asan_interface.h>
#include <stdlib.h>
#include <string.h>

void* rt_malloc(size_t);
void rt_free(void*);
size_t rt_malloc_usable_size(void*);

/* ------------------------------------------------- histories of operations
 * Slots hold blocks. The reference keeps the blocks' addresses, sizes and bytes,
 * and which of them were allocated or released by the current transaction. */
#define NSLOT 3
#define MAXBLK 24
struct blk { unsigned char* p; size_t size, al; unsigned char b[80]; bool known[80]; bool live, fresh, freed; };
static struct blk B[MAXBLK], B0[MAXBLK];
static int nb, nb0;
static int slot[NSLOT], slot0[NSLOT];
static unsigned char next_byte;
enum op { O_MALLOC, O_CALLOC, O_MEMALIGN, O_REALLOC, O_FREE, O_STORE, O_DIRECT, O_LOAD, NOP };
static const size_t sizes[] = { 24, 1, 40, 9, 0 };

static void verify(struct blk* k, bool in_tx, const char* when)
{
    static unsigned char buf[80];
    if (__asan_region_is_poisoned(k->p, k->size)) mc_fail("released early", "%s: block of %zu bytes at %p is not allocated any longer", when, k->size, (void*)k->p);
    mc_check(rt_malloc_usable_size(k->p) >= k->size, "small block", "%s: block has %zu bytes, requested were %zu", when, rt_malloc_usable_size(k->p), k->size);
    if (in_tx) { if (k->size) load_tx(k->p, buf, k->size); }
    else memcpy(buf, k->p, k->size);
    for (size_t i = 0; i < k->size; i++)
        if (k->known[i]) mc_check(buf[i] == k->b[i], "contents", "%s: byte %zu of the block of %zu bytes is %d, expected %d", when, i, k->size, buf[i], k->b[i]);
}

static int add(unsigned char* p, size_t size, size_t al)
{
    mc_check(p || !size, "no block", "allocation of %zu bytes returns NULL without an error", size);
    if (!p) return -1;
    for (int i = 0; i < nb; i++)
        if (B[i].live) mc_check(p + size <= B[i].p || B[i].p + B[i].size <= p, "overlap", "new block %p overlaps with a block in use", (void*)p);
    for (int i = 0; i < nb; i++)
        if (B[i].freed) mc_check(p + size <= B[i].p || B[i].p + B[i].size <= p, "overlap", "new block %p overlaps with a block that is released only by the commit", (void*)p);
    mc_check((uintptr_t)p % al == 0, "alignment", "block %p is not aligned to %zu", (void*)p, al);
    struct blk* k = &B[nb];
    memset(k, 0, sizeof *k);
    k->p = p; k->size = size; k->live = k->fresh = true; k->al = al;
    return nb++;
}
static void drop(int i) { if (i < 0) return; B[i].live = false; B[i].freed = true; }

static bool do_op(int tm, int o, int s, size_t n)
{
    struct blk* k = slot[s] < 0 ? NULL : &B[slot[s]];
    switch (o) {
    case O_MALLOC: case O_CALLOC: case O_MEMALIGN: {
        if (k) return false;
        static void* p; p = NULL;
        size_t al = 1;
        if (o == O_MALLOC) p = malloc_tx(n);
        else if (o == O_CALLOC) p = calloc_tx(n == 24 ? 3 : 1, n == 24 ? 8 : n);
        else {
            al = n == 24 ? 64 : n == 1 ? 256 : 16;
            static void* out; out = (void*)-1;
            int r = tm ? posix_memalign_tm(&p, al, n) : posix_memalign_tx(&out, al, n);
            mc_check(!r, "return value", "posix_memalign returns %d", r);
            if (!tm) { load_tx(&out, &p, sizeof p); mc_check(p != (void*)-1, "no block", "posix_memalign_tx does not store the block"); }
        }
        slot[s] = add(p, n, al);
        if (o == O_CALLOC && slot[s] >= 0) for (size_t i = 0; i < n; i++) B[slot[s]].known[i] = true;
        return true;
    }
    case O_REALLOC: {
        unsigned char* p = (tm ? realloc_tm : realloc_tx)(k ? k->p : NULL, n);
        int old = slot[s];
        if (!n && p) { slot[s] = -1; drop(old); int i = add(p, 0, 1); slot[s] = i; return true; }
        int i = add(p, n, 1);
        if (i >= 0 && old >= 0) for (size_t j = 0; j < n && j < B[old].size; j++) { B[i].b[j] = B[old].b[j]; B[i].known[j] = B[old].known[j]; }
        drop(old);
        slot[s] = i;
        return true;
    }
    case O_FREE:
        (tm ? free_tm : free_tx)(k ? k->p : NULL);
        drop(slot[s]); slot[s] = -1;
        return true;
    case O_STORE: case O_DIRECT: {
        if (!k || !k->size) return false;
        static unsigned char v[80];
        size_t b = n == 24 || k->size < 3 ? 0 : k->size / 3, l = n == 24 ? k->size : n == 1 ? 1 : k->size - b;
        if (o == O_DIRECT) privatize_tx(k->p + b, l, PICOTM_TM_PRIVATIZE_LOADSTORE);
        for (size_t i = 0; i < l; i++) { v[i] = ++next_byte; k->b[b + i] = v[i]; k->known[b + i] = true; }
        if (o == O_STORE) store_tx(k->p + b, v, l); else memcpy(k->p + b, v, l);
        return true;
    }
    case O_LOAD:
        if (!k) return false;
        verify(k, true, "in the transaction");
        return true;
    }
    return false;
}

static const char* const oname[] = { "malloc", "calloc", "memalign", "realloc", "free", "store", "direct", "load" };
struct step { int o, s; size_t n; };
static struct step prog[2][6];
static int plen[2], ends[2];
enum { E_COMMIT, E_ERROR, E_CONFLICT };
static int status; static int attempts;
static int want_tm;

static void save(void) { memcpy(B0, B, sizeof B); nb0 = nb; memcpy(slot0, slot, sizeof slot); }
static void restore(void) { memcpy(B, B0, sizeof B); nb = nb0; memcpy(slot, slot0, sizeof slot); }

static void check_outside(const char* when)
{
    long n = 0;
    for (int i = 0; i < nb; i++) if (B[i].live) { verify(&B[i], false, when); n++; }
    for (int i = 0; i < nb; i++)
        if (B[i].freed) {
            /* released blocks are unaddressable (ASan's quarantine keeps them from being reused) */
            if (B[i].size) mc_check(__asan_address_is_poisoned(B[i].p), "not released", "%s: block of %zu bytes that was released is still allocated", when, B[i].size);
            B[i].freed = false;
        }
}

static void history(int ntx, int maxlen, bool tm, const int* ops, int nops, const size_t* sz, int nsz, int nslot, bool fault)
{
    nb = 0; next_byte = 0;
    mc_heap_mark();
    for (int s = 0; s < NSLOT; s++) slot[s] = -1;
    for (int s = 0; s < 2 && s < nslot; s++) { /* blocks from before */
        slot[s] = nb;
        unsigned char* p = rt_malloc(s ? 9 : 24);
        add(p, s ? 9 : 24, 1);
        B[slot[s]].fresh = false;
        for (size_t i = 0; i < B[slot[s]].size; i++) { p[i] = B[slot[s]].b[i] = ++next_byte; B[slot[s]].known[i] = true; }
    }
    static int t;
    for (t = 0; t < ntx; t++) {
        plen[t] = 0;
        int len = 1 + mc_choose(maxlen);
        /* choose the program in advance; infeasible operations are skipped when run */
        for (int i = 0; i < len; i++) {
            struct step* q = &prog[t][plen[t]++];
            q->o = ops[mc_choose(nops)];
            q->s = mc_choose(nslot);
            q->n = q->o == O_FREE || q->o == O_LOAD ? 24 : sz[mc_choose(nsz)];
            mc_note("tx %d: %s slot %d (%zu)", t, oname[q->o], q->s, q->n);
        }
        ends[t] = mc_choose(3);
        want_tm = tm;
        mc_note("tx %d ends with %s", t, ends[t] == E_COMMIT ? "commit" : ends[t] == E_ERROR ? "error" : "conflict, then commit");
        status = -1; attempts = 0;
        save();
        static int failed; failed = 0;
        static bool s_fault; s_fault = fault;
        static bool infeasible; infeasible = false;
        mc_ctx("transaction %d", t);
        if (s_fault) mc_alloc_fault = 1;
        picotm_begin
            restore();
            attempts++;
            for (int i = 0; i < plen[t]; i++) {
                struct step* q = &prog[t][i];
                if (!do_op(want_tm, q->o, q->s, q->n)) infeasible = true;
                /* what was released stays allocated until the commit */
                for (int j = 0; j < nb; j++) if (B[j].freed) if (B[j].size && __asan_region_is_poisoned(B[j].p, B[j].size))
                    mc_fail("released early", "%s releases the block at once, although the transaction could abort", oname[q->o]);
            }
            for (int j = 0; j < nb; j++) if (B[j].live && B[j].size) verify(&B[j], true, "at the end of the transaction");
            if (ends[t] == E_ERROR) picotm_recover_from_errno(EDOM);
            if (ends[t] == E_CONFLICT && attempts == 1) {
                struct picotm_error e = PICOTM_ERROR_INITIALIZER;
                picotm_error_set_conflicting(&e, NULL);
                picotm_recover_from_error(&e);
            }
        picotm_commit
            status = picotm_error_status() == PICOTM_ERRNO ? picotm_error_as_errno() : picotm_error_status() == PICOTM_ERROR_CODE ? 1000 : 1001;
        picotm_end
        mc_alloc_fault = 0;
        if (s_fault && status != -1 && status != EDOM) {
            mc_check(status == ENOMEM || status == 1000, "unexpected error", "a failing allocation ends the transaction with error %d", status);
            restore();
            check_outside("after a failed transaction");
        } else if (ends[t] == E_ERROR) {
            mc_check(status == EDOM, "unexpected error", "the transaction ends with error %d", status);
            /* what the transaction allocated is released */
            for (int j = nb0; j < nb; j++) { B[j].live = false; B[j].freed = true; }
            struct blk tmp[MAXBLK]; int n = nb;
            memcpy(tmp, B, sizeof B);
            restore();
            check_outside("after an abort");
            for (int j = nb0; j < n; j++) if (tmp[j].size) mc_check(__asan_address_is_poisoned(tmp[j].p), "leak after abort", "block of %zu bytes, allocated by an aborted transaction, is still allocated", tmp[j].size);
        } else {
            mc_check(status == -1, "unexpected error", "the transaction ends with error %d", status);
            check_outside("after the commit");
        }
        if (infeasible) break;
        mc_cases(1);
    }
    picotm_release();
    long n = 0;
    for (int i = 0; i < nb; i++) if (B[i].live) n++;
    long live = mc_heap_live();
    mc_check(live == n, live > n ? "leak" : "double release", "%ld blocks are allocated at the end, expected %ld", live, n);
    for (int i = 0; i < nb; i++) if (B[i].live) rt_free(B[i].p);
    mc_outcome(n * 8 + status);
}

static const int all_ops[] = { O_MALLOC, O_CALLOC, O_MEMALIGN, O_REALLOC, O_FREE, O_STORE, O_DIRECT, O_LOAD };
static const int core_ops[] = { O_MALLOC, O_REALLOC, O_FREE, O_STORE };
static const int tm_ops[] = { O_MALLOC, O_MEMALIGN, O_REALLOC, O_FREE };
static void sc_hist(int v)
{
    switch (v) {
    case 0: history(1, 2, false, all_ops, 8, sizes, 5, 2, false); break;
    case 1: history(1, 3, false, core_ops, 4, sizes, 2, 2, false); break;
    case 2: history(2, 2, false, core_ops, 4, sizes + 1, 2, 2, false); break;
    case 3: history(1, 3, true, tm_ops, 4, sizes, 2, 2, false); break;
    case 4: history(1, 4, false, core_ops, 4, sizes, 2, 3, false); break;
    case 5: history(1, 3, false, all_ops, 8, sizes, 3, 2, false); break;
    case 6: history(2, 3, false, core_ops, 4, sizes + 1, 2, 2, false); break;
    }
}
static void sc_oom(int v)
{
    mc_fault_budget = 2;
    switch (v) {
    case 0: history(1, 2, false, all_ops, 6, sizes, 1, 2, true); break;
    case 1: history(1, 2, true, tm_ops, 4, sizes, 1, 2, true); break;
    case 2: history(2, 2, false, core_ops, 4, sizes, 1, 1, true); break;
    }
}

/* hundreds of blocks in one transaction */
static void sc_many(int v)
{
    enum { MX = 500 };
    static unsigned char* blk[MX]; static size_t len[MX]; static unsigned char* old[MX]; static volatile int n, i, rec, tries, how; static int pat; static bool tm;
    n = (int[]){ 60, 500 }[mc_choose(2)];
    pat = mc_choose(4); how = mc_choose(3); tm = v & 1;
    mc_ctx("%d blocks, pattern %d%s, %s", n, pat, tm ? " (_tm)" : "", how == E_COMMIT ? "commit" : how == E_ERROR ? "error" : "conflict");
    mc_heap_mark();
    for (int j = 0; j < n; j++) { old[j] = rt_malloc(20); memset(old[j], j, 20); }
    rec = tries = 0;
    long live;
    picotm_begin
        tries++;
        for (i = 0; i < n; i++) {
            len[i] = 8 + (size_t)i % 24;
            switch (pat) {
            case 0: blk[i] = malloc_tx(len[i]); break;                                   /* allocations only */
            case 1: (tm ? free_tm : free_tx)(old[i]); blk[i] = NULL; break;              /* releases only */
            case 2: blk[i] = (tm ? realloc_tm : realloc_tx)(old[i], len[i]); break;
            default: blk[i] = calloc_tx(1, len[i]); if (i % 3 == 0) { (tm ? free_tm : free_tx)(blk[i]); blk[i] = NULL; } (tm ? free_tm : free_tx)(old[n - 1 - i]); break;
            }
            if (pat != 1 && blk[i]) { mc_check(blk[i] != NULL, "no block", "no block"); mc_check(rt_malloc_usable_size(blk[i]) >= len[i], "small block", "block number %d is too small", (int)i); }
        }
        for (i = 0; i < n; i++) mc_check(!__asan_address_is_poisoned(old[i]), "released early", "block number %d is released before the commit", (int)i);
        if (how == E_ERROR) picotm_recover_from_errno(EDOM);
        if (how == E_CONFLICT && tries == 1) { struct picotm_error e = PICOTM_ERROR_INITIALIZER; picotm_error_set_conflicting(&e, NULL); picotm_recover_from_error(&e); }
    picotm_commit
        rec = 1;
    picotm_end
    mc_check(rec == (how == E_ERROR), "unexpected error", "unexpected end of a transaction");

    picotm_release();
    long want = 0;
    for (int j = 0; j < n; j++) {
        bool gone = !rec && pat != 0;
        mc_check(!!__asan_address_is_poisoned(old[j]) == gone, gone ? "not released" : "released", "block number %d is %s", j, gone ? "still allocated" : "released");
        if (!gone) { want++; for (int k = 0; k < 20; k++) mc_check(old[j][k] == (unsigned char)j, "contents", "block number %d has changed", j); }
        if (!rec && blk[j]) { want++; mc_check(!__asan_region_is_poisoned(blk[j], len[j]), "released early", "new block number %d is not allocated", j); if (pat == 2) for (size_t k = 0; k < len[j] && k < 20; k++) mc_check(blk[j][k] == (unsigned char)j, "contents", "reallocated block number %d has lost its contents", j); }
    }
    live = mc_heap_live();
    mc_check(live == want, live > want ? "leak" : "double release", "%ld blocks are allocated at the end, expected %ld", live, want);
    for (int j = 0; j < n; j++) { if (rec || pat == 0) rt_free(old[j]); if (!rec && blk[j]) rt_free(blk[j]); }
    mc_cases(1);
    mc_outcome((uint64_t)how);
}
/* ---------------------------------------------------- sizes and alignments */
static const long deltas[] = { -17, -16, -9, -8, -7, -1, 0, 1, 7, 8, 9, 16, 17 };
#define ND ((int)(sizeof deltas / sizeof *deltas))
#define LIMIT (1ul << 20)
static void sc_size(int v)
{
    mc_heap_mark();
    mc_alloc_limit = LIMIT;
    static size_t n, a, b; static int fn; static bool overflow; static size_t al;
    fn = v; overflow = false; al = 1;
    if (v == 1) { /* calloc */
        static const int p[] = { 0, 3, 16, 20, 31, 32, 33, 48, 61, 62, 63, 64 };
        a = (size_t)(((unsigned __int128)1 << p[mc_choose(12)]) + deltas[mc_choose(ND)]);
        b = (size_t)(((unsigned __int128)1 << p[mc_choose(12)]) + deltas[mc_choose(ND)]);
        overflow = __builtin_mul_overflow(a, b, &n);
    } else {
        n = (size_t)(((unsigned __int128)1 << mc_choose(65)) + deltas[mc_choose(ND)]);
        if (v == 4 || v == 5) al = (size_t)1 << mc_choose(14);
    }
    if (!overflow && n > LIMIT - 64 && n <= LIMIT) mc_prune();
    static void* p; static int st; static unsigned char* old;
    old = NULL;
    if (v == 2 || v == 3) { old = rt_malloc(40); for (int i = 0; i < 40; i++) old[i] = i + 1; }
    p = NULL; st = -1;
    mc_note("function %d size %zu (%zu x %zu) alignment %zu", v, n, a, b, al);
    mc_ctx("function %d size %zu (%zu x %zu) alignment %zu", v, n, a, b, al);
    static int r; r = 0;
    picotm_begin
        switch (fn) {
        case 0: p = malloc_tx(n); break;
        case 1: p = calloc_tx(a, b); break;
        case 2: p = realloc_tx(old, n); break;
        case 3: p = realloc_tm(old, n); break;
        case 4: { static void* out; r = posix_memalign_tx(&out, al, n); load_tx(&out, &p, sizeof p); break; }
        case 5: r = posix_memalign_tm(&p, al, n); break;
        }
    picotm_commit
        st = picotm_error_status() == PICOTM_ERRNO ? picotm_error_as_errno() : 1000;
    picotm_end
    bool bad_al = (v == 4 || v == 5) && al < sizeof(void*);
    static const char* const nm[] = { "malloc", "calloc", "realloc", "realloc_tm", "posix_memalign", "posix_memalign_tm" };
    if (overflow || n > LIMIT || bad_al) {
        mc_check(st != -1 && !r, "too large", "%s of %s%zu bytes, alignment %zu, succeeds, but cannot", nm[v], overflow ? "more than the largest size: " : "", n, al);
        if (bad_al) mc_check(st == EINVAL || st == ENOMEM, "error", "%s reports %d", nm[v], st);
        else mc_check(st == ENOMEM || st == EOVERFLOW || st == 1000, "error", "%s reports %d", nm[v], st);
        if (old) for (int i = 0; i < 40; i++) mc_check(old[i] == i + 1, "abort", "failed realloc changes the block");
    } else {
        mc_check(st == -1 && !r, "unexpected error", "%s of %zu bytes fails with error %d", nm[v], n, st);
        mc_check(p || !n, "no block", "%s returns NULL", nm[v]);
        if (p) {
            mc_check(rt_malloc_usable_size(p) >= n, "small block", "%s of %zu bytes returns a block of %zu", nm[v], n, rt_malloc_usable_size(p));
            mc_check((uintptr_t)p % al == 0, "alignment", "%s returns %p, not aligned to %zu", nm[v], p, al);
            if (v == 1) for (size_t i = 0; i < n; i++) mc_check(!((char*)p)[i], "contents", "calloc'ed byte %zu is not zero", i);
            if (old) for (size_t i = 0; i < n && i < 40; i++) mc_check(((unsigned char*)p)[i] == i + 1, "contents", "byte %zu is lost", i);
        }
        rt_free(p);
        old = NULL;
    }
    if (old) rt_free(old);
    mc_alloc_limit = 0;
    picotm_release();
    mc_check(mc_heap_live() == 0, "leak", "%s of %zu bytes leaks %ld blocks", nm[v], n, mc_heap_live());
    mc_cases(1);
    mc_outcome(st + 2);
}

static const struct mc_scenario sc[] = {
    { "history", sc_hist, 7, MC_NOPREEMPT | MC_INPROC, 0, 0, 40, 600, "all sequences of allocation calls, releases and stores in one and two transactions that commit, abort or conflict; private variants", 4 },
    { "oom", sc_oom, 3, MC_NOPREEMPT, 0, 0, 25, 300, "the same with every allocation failing", 2 },
    { "many", sc_many, 2, MC_NOPREEMPT, 0, 0, 20, 60, "60 and 500 allocations, releases and reallocations in a transaction" },
    { "size", sc_size, 6, MC_NOPREEMPT | MC_INPROC, 0, 0, 20, 100, "sizes near every power of two, products that overflow, all alignments" },
};
int main(int argc, char* argv[])
{
    static const char* const as[] = { "blocks are observed through AddressSanitizer's allocator, which returns every block with exactly the requested size and does not reuse released blocks soon",
        "requests above 1 MiB fail in the size scenario", NULL };
    return mc_main(argc, argv, "P15", sc, sizeof sc / sizeof *sc, as);
}
