/* P10: transactional memory reads its own writes; commit keeps all, abort none */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.h"
#include <sys/mman.h>
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include <string.h>

#define N 40          /* bytes under test: blocks 1..5 of mem */
#define PAD 16
static unsigned char mem[N + 2 * PAD] __attribute__((aligned(64)));
static unsigned char* const base = mem + PAD;
static unsigned char init[N], cur[N], priv[N], disc[N];
static unsigned char seq;

enum { LOAD, STORE, COPY, PRIV_L, PRIV_S, PRIV_LS, DISC, PRIVC_L, PRIVC_S, DISCC };
struct op { unsigned char kind, off, len, off2; };
static struct op ops[256];
static int nops, nops_small;
/* representative operations for the deepest sequences */
static const struct op tiny[] = {
    { LOAD, 7, 18, 0 }, { LOAD, 8, 8, 0 }, { LOAD, 4, 4, 0 }, { STORE, 4, 4, 0 }, { STORE, 5, 6, 0 }, { STORE, 8, 8, 0 }, { STORE, 15, 2, 0 },
    { COPY, 3, 6, 17 }, { COPY, 8, 8, 0 }, { COPY, 17, 7, 2 }, { PRIV_L, 4, 4, 0 }, { PRIV_S, 5, 6, 0 }, { PRIV_LS, 8, 8, 0 }, { PRIV_LS, 15, 2, 0 },
    { DISC, 8, 8, 0 }, { PRIVC_L, 4, 0, 0xf0 }, { PRIVC_S, 10, 0, 0xf0 }, { STORE, 16, 8, 0 } };
#define NTINY ((int)(sizeof tiny / sizeof *tiny))

static void add(int k, int o, int l, int o2) { ops[nops++] = (struct op){ k, o, l, o2 }; }

static void make_ops(void)
{
    static const unsigned char r[][2] = { { 0, 1 }, { 4, 4 }, { 5, 6 }, { 8, 8 }, { 15, 2 }, { 7, 18 }, { 0, 0 }, { 3, 1 }, { 16, 16 }, { 1, 7 } };
    for (int pass = 0; pass < 2; pass++) {
        int a = pass ? 6 : 0, b = pass ? 10 : 6;
        for (int i = a; i < b; i++) {
            add(LOAD, r[i][0], r[i][1], 0);
            add(STORE, r[i][0], r[i][1], 0);
            if (!r[i][1]) continue;
            add(PRIV_L, r[i][0], r[i][1], 0);
            add(PRIV_S, r[i][0], r[i][1], 0);
            add(PRIV_LS, r[i][0], r[i][1], 0);
        }
        if (!pass) {
            add(COPY, 0, 8, 16); add(COPY, 3, 6, 17); add(COPY, 17, 7, 2); add(COPY, 4, 2, 6); add(COPY, 24, 16, 0);
            add(DISC, 8, 8, 0); add(DISC, 0, 24, 0);
            add(PRIVC_L, 1, 0, 0xf1); add(PRIVC_S, 10, 0, 0xf0); add(PRIVC_L, 0, 0, 0xf2); add(DISCC, 16, 0, 0xf1);
            nops_small = nops;
        } else {
            add(COPY, 1, 1, 30); add(COPY, 20, 12, 3); add(DISC, 32, 8, 0);
            add(PRIVC_S, 3, 0, 0xf1); add(PRIVC_L, 9, 0, 0xf0); add(PRIVC_S, 17, 0, 0xf2); add(PRIVC_L, 4, 0, 0xf0); add(PRIVC_S, 26, 0, 0xf1); add(DISCC, 8, 0, 0xf1); add(PRIVC_L, 25, 0, 0xf2);
        }
    }
}

static void fill(void)
{
    memset(mem, 0xEE, sizeof mem);
    for (int i = 0; i < N; i++) init[i] = i + 1;
    init[2] = 0xf0; init[7] = 0xf1; init[13] = 0xf0; init[23] = 0xf1; init[31] = 0xf2; init[39] = 0xf0;
    init[38] = 0xf1; init[37] = 0xf2;
    memcpy(base, init, N);
    memcpy(cur, init, N);
    memset(priv, 0, N);
    memset(disc, 0, N);
    seq = 0x40;
}

static bool hits_disc(int o, int l) { for (int i = 0; i < l; i++) if (disc[o + i]) return true; return false; }

static void dump(char* b, const unsigned char* p, int n) { for (int i = 0; i < n; i++) sprintf(b + 2 * i, "%02x", p[i]); }

static void cmp(const char* sig, const char* what, const unsigned char* got, const unsigned char* want, int n, const unsigned char* skip)
{
    for (int i = 0; i < n; i++)
        if ((!skip || !skip[i]) && got[i] != want[i]) {
            char g[200], w[200];
            dump(g, got, n);
            dump(w, want, n);
            mc_fail(sig, "%s: byte %d is %02x, expected %02x (got %s, expected %s)", what, i, got[i], want[i], g, w);
        }
}

/* length of the range up to and including c in the transaction's view */
static int range_c(int off, int c)
{
    for (int i = off; i < N; i++) if (cur[i] == c) return i - off + 1;
    return 0;
}

static bool must_fail; /* the running operation touches discarded memory */

static void access_priv(int o, int l, int flags)
{
    if (flags & 1) cmp("privatized load", "privatized memory", base + o, cur + o, l, NULL);
    for (int i = 0; i < l; i++) {
        if (flags & 1) priv[o + i] |= 1;
        if (flags & 2) { base[o + i] = cur[o + i] = seq + i; priv[o + i] |= 3; }
    }
    if (flags & 2) seq += 23;
}

static void do_op(const struct op* p)
{
    unsigned char buf[N];
    int len = p->len, flags = 0;
    static const char* const nm[] = { "load", "store", "loadstore", "privatize LOAD", "privatize STORE", "privatize LOADSTORE", "discard", "privatize_c LOAD", "privatize_c STORE", "discard_c" };
    mc_note("%s off %d len %d %02x", nm[p->kind], p->off, p->len, p->off2);
    if (p->kind >= PRIVC_L) {
        len = range_c(p->off, p->off2);
        if (!len) return; /* would run off the object */
        if (p->kind == DISCC && (len % 8 || p->off % 8)) return; /* discarding works on whole blocks */
    }
    must_fail = hits_disc(p->off, len) || (p->kind == COPY && hits_disc(p->off2, len));
    switch (p->kind) {
    case LOAD:
        memset(buf, 0xAA, N);
        load_tx(base + p->off, buf, len);
        if (must_fail) break;
        cmp("load", "load_tx", buf, cur + p->off, len, NULL);
        if (len < N && buf[len] != 0xAA) mc_fail("load", "load_tx wrote beyond its buffer");
        break;
    case STORE:
        for (int i = 0; i < len; i++) buf[i] = seq + i;
        store_tx(base + p->off, buf, len);
        if (must_fail) break;
        memcpy(cur + p->off, buf, len);
        seq += 23;
        break;
    case COPY:
        loadstore_tx(base + p->off, base + p->off2, len);
        if (must_fail) break;
        memmove(cur + p->off2, cur + p->off, len);
        break;
    case PRIV_L: case PRIV_S: case PRIV_LS:
        flags = p->kind == PRIV_L ? PICOTM_TM_PRIVATIZE_LOAD : p->kind == PRIV_S ? PICOTM_TM_PRIVATIZE_STORE : PICOTM_TM_PRIVATIZE_LOADSTORE;
        privatize_tx(base + p->off, len, flags);
        if (must_fail) break;
        access_priv(p->off, len, flags == PICOTM_TM_PRIVATIZE_STORE ? 2 : flags == PICOTM_TM_PRIVATIZE_LOAD ? 1 : 3);
        break;
    case PRIVC_L: case PRIVC_S:
        privatize_c_tx(base + p->off, p->off2, p->kind == PRIVC_L ? PICOTM_TM_PRIVATIZE_LOAD : PICOTM_TM_PRIVATIZE_STORE);
        if (must_fail) break;
        access_priv(p->off, len, p->kind == PRIVC_L ? 1 : 2);
        break;
    case DISC: case DISCC:
        if (p->kind == DISC) privatize_tx(base + p->off, len, 0);
        else privatize_c_tx(base + p->off, p->off2, 0);
        if (must_fail) break;
        memset(disc + p->off, 1, len);
        break;
    }
    if (must_fail) mc_fail("discarded memory accessible", "%s of discarded memory succeeded", nm[p->kind]);
}

static void finish_checks(bool committed)
{
    /* discarded memory is unspecified only after a commit; the property does
     * not promise its restoration here (see P15 for freed memory) */
    cmp(committed ? "commit" : "abort", committed ? "memory after commit" : "memory after abort", base, committed ? cur : init, N, disc);
    for (int i = 0; i < PAD; i++)
        mc_check(mem[i] == 0xEE && mem[PAD + N + i] == 0xEE, "neighbours", "memory beside the region changed");
    for (int i = 0; i < N; i += 3) mc_outcome(base[i]);
    /* everything is accessible again for the next transaction */
    static volatile int attempts;
    attempts = 0;
    unsigned char all[N], now[N];
    memcpy(now, base, N);
    picotm_begin
        if (attempts++) mc_fail("lock leak", "the next transaction conflicts on the same memory");
        load_tx(base, all, N);
        cmp("next load", "load in the next transaction", all, now, N, NULL);
        store_tx(base, all, N);
    picotm_commit
        mc_fail("next transaction", "the next transaction fails");
    picotm_end
    cmp("next commit", "memory after the next transaction", base, now, N, NULL);
}

static void sc_seq(int v)
{
    int depth = v == 0 ? 3 : v == 1 ? 4 : 5;
    int n = v == 0 ? nops : v == 1 && mc_tier_thorough ? nops_small : NTINY;
    const struct op* a = n == NTINY ? tiny : ops;
    fill();
    static volatile int attempt;
    attempt = 0;
    static volatile bool rec, want_rec;
    rec = want_rec = false;
    must_fail = false;
    picotm_begin
        if (attempt++) {
            /* second attempt after a conflict: all effects are gone */
            cmp("abort", "memory after a conflict", base, init, N, disc);
            memcpy(cur, base, N);
            memset(priv, 0, N);
            memset(disc, 0, N);
        } else {
            for (int i = 0; i < depth; i++) {
                int k = mc_choose(n + 1);
                if (k == n) break;
                do_op(&a[k]);
            }
            for (int i = 0; i < N; i++)
                if ((priv[i] & 1) && !disc[i])
                    mc_check(base[i] == cur[i], "privatized view", "privatized byte %d is %02x in memory, the transaction's view is %02x", i, base[i], cur[i]);
            switch (mc_choose(3)) {
            case 0: mc_note("commit"); break;
            case 1: mc_note("error"); want_rec = true; picotm_recover_from_error_code(PICOTM_GENERAL_ERROR); break;
            case 2: mc_note("conflict"); picotm_resolve_conflict(NULL); break;
            }
        }
    picotm_commit
        rec = true;
        mc_check(want_rec || (must_fail && picotm_error_status() == PICOTM_ERROR_CODE && picotm_error_as_error_code() == PICOTM_OUT_OF_BOUNDS),
                 "unexpected recovery", "recovery with status %d, error %d", (int)picotm_error_status(), (int)picotm_error_as_error_code());
    picotm_end
    finish_checks(!rec);
}

/* typed accessors: value and extent for every C type */
#define T(name_, type_, v1_, v2_) \
    { \
        struct { unsigned char a[16]; type_ v; unsigned char b[16]; } s, s0; \
        type_ w1, w2; memset(&w1, 0, sizeof w1); memset(&w2, 0, sizeof w2); memset(&s, 0x77, sizeof s); \
        w1 = v1_; w2 = v2_; \
        for (int mode = 0; mode < 5; mode++) { \
            memset(&s, 0x77, sizeof s); s.v = w1; memcpy(&s0, &s, sizeof s); \
            if (mode == 0 || mode == 2 || mode == 4) s0.v = w2; \
            picotm_begin \
                type_ x = load_##name_##_tx(&s.v); \
                mc_check(x == w1, "typed load " #name_, "load_" #name_ "_tx returns a different value"); \
                if (mode < 2) { \
                    store_##name_##_tx(&s.v, w2); \
                    x = load_##name_##_tx(&s.v); \
                    mc_check(x == w2, "typed load " #name_, "load_" #name_ "_tx does not return the stored value"); \
                } else if (mode < 4) { \
                    privatize_##name_##_tx(&s.v, PICOTM_TM_PRIVATIZE_LOADSTORE); \
                    mc_check(s.v == w1, "typed privatize " #name_, "privatized value differs"); \
                    s.v = w2; \
                } else { \
                    type_* p = &s.v; type_* z = NULL; type_** pp = &z; \
                    store_ptr_tx(pp, p); \
                    mc_check(load_ptr_tx(pp) == p, "pointer", "load_ptr_tx"); \
                    store_##name_##_tx(load_ptr_tx(pp), w2); \
                } \
                if (mode == 1 || mode == 3) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR); \
            picotm_commit \
                mc_check(mode == 1 || mode == 3, "unexpected recovery", "recovery"); \
            picotm_end \
            mc_check(s.v == s0.v && !memcmp(s.a, s0.a, 16) && !memcmp(s.b, s0.b, 16), "typed result " #name_, "wrong memory after %s, type " #name_, mode & 1 ? "abort" : "commit"); \
            mc_cases(1); \
        } \
    }

static void sc_types(int v)
{
    (void)v;
    T(_Bool, _Bool, 0, 1)
    T(char, char, 'a', -5)
    T(double, double, 1.5, -1e300)
    T(float, float, 1.5f, -1e30f)
    T(int, int, -2, 0x12345678)
    T(long, long, -2, 0x123456789abcdefl)
    T(ldouble, long double, 1.5L, -1e4000L)
    T(llong, long long, -2, 0x123456789abcdefll)
    T(schar, signed char, -2, 0x55)
    T(short, short, -2, 0x5566)
    T(uchar, unsigned char, 0xfe, 0x55)
    T(uint, unsigned int, 0xfffffffe, 0x12345678)
    T(ulong, unsigned long, ~1ul, 0x123456789abcdeful)
    T(ullong, unsigned long long, ~1ull, 0x123456789abcdefull)
    T(ushort, unsigned short, 0xfffe, 0x5566)
    mc_outcome(1);
}

/* large objects: many blocks on several pages of the frame map, at any alignment */
enum { BIG = 16500 };
static unsigned char lmem[BIG + 64] __attribute__((aligned(64))), lcur[BIG], linit[BIG], lbuf[BIG], lwant[BIG];
static void sc_long(int v)
{
    static const int offs[] = { 0, 3, 8192 - 12 }, lens[] = { 9, 1024, 8193 };
    unsigned char* const b = lmem + 32;
    int steps = 2 + mc_tier_thorough, end = mc_choose(3);
    volatile bool rec = false;
    static volatile int attempts;
    attempts = 0;
    for (int i = 0; i < BIG; i++) b[i] = linit[i] = (unsigned char)(i * 31 + i / 257);
    memcpy(lcur, linit, BIG);
    static int op[3], off[3], len[3], off2[3];
    for (int i = 0; i < steps; i++) { op[i] = i ? mc_choose(5) : v; off[i] = offs[mc_choose(3)]; len[i] = lens[mc_choose(3)]; off2[i] = op[i] == 2 ? offs[(i + v + off[i]) % 3] + 1 : 0; }
    mc_ctx("operation %d off %d len %d, operation %d off %d len %d, end %d", op[0], off[0], len[0], op[1], off[1], len[1], end);
    picotm_begin
        if (attempts++) memcpy(lcur, linit, BIG);
        for (int i = 0; i < steps; i++) {
            if (op[i] == 2 && off[i] < off2[i] + len[i] && off2[i] < off[i] + len[i]) continue; /* overlapping */
            switch (op[i]) {
            case 0: load_tx(b + off[i], lbuf, (size_t)len[i]);
                mc_check(!memcmp(lbuf, lcur + off[i], (size_t)len[i]), "load", "load of %d bytes at %d", len[i], off[i]);
                break;
            case 1: for (int k = 0; k < len[i]; k++) lbuf[k] = (unsigned char)(k * 7 + i + k / 253);
                store_tx(b + off[i], lbuf, (size_t)len[i]);
                memcpy(lcur + off[i], lbuf, (size_t)len[i]);
                break;
            case 2: loadstore_tx(b + off[i], b + off2[i], (size_t)len[i]);
                memcpy(lcur + off2[i], lcur + off[i], (size_t)len[i]);
                break;
            case 3: case 4:
                privatize_tx(b + off[i], (size_t)len[i], op[i] == 3 ? PICOTM_TM_PRIVATIZE_LOAD : PICOTM_TM_PRIVATIZE_LOADSTORE);
                mc_check(!memcmp(b + off[i], lcur + off[i], (size_t)len[i]), "privatized load", "%d bytes at %d", len[i], off[i]);
                if (op[i] == 4) for (int k = 0; k < len[i]; k++) lcur[off[i] + k] = b[off[i] + k] = (unsigned char)(k * 11 + i);
                break;
            }
        }
        for (int i = 0; i < steps; i++) {
            load_tx(b + off[i], lbuf, (size_t)len[i] + 30);
            mc_check(!memcmp(lbuf, lcur + off[i], (size_t)len[i] + 30), "load", "bytes of operation %d after %d operations", i, steps);
        }
        if (end == 1) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
        if (end == 2 && attempts == 1) picotm_restart();
    picotm_commit
        rec = true;
    picotm_end
    mc_check(rec == (end == 1), "unexpected recovery", "recovery %d", (int)rec);
    if (memcmp(b, rec ? linit : lcur, BIG)) for (int i = 0; i < BIG; i++) mc_check(b[i] == (rec ? linit[i] : lcur[i]), rec ? "abort" : "commit", "byte %d is %02x instead of %02x", i, b[i], rec ? linit[i] : lcur[i]);
    picotm_release();
    mc_cases(1);
    mc_outcome(rec);
}

/* objects all over the address space: addresses that differ in one bit only */
static void sc_wide(int v)
{
    static unsigned char* at[80];
    static unsigned char init_[80][24], want_[80][24];
    static const unsigned long bases[] = { 0x200000000000ul, 0x2aaaaaaaa000ul, 0x355555554000ul };
    int n = 0, end = mc_choose(3), order = mc_choose(2), lo = mc_choose(2) ? 5 : 0;
    unsigned long bs = bases[v];
    for (int k = 11; k < 47; k++) {
        unsigned long a = k < 12 ? bs : bs ^ (1ul << k);
        if (a >= 1ul << 47) continue;
        void* m = mmap((void*)a, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if (m == MAP_FAILED) continue;
        if (m != (void*)a) { munmap(m, 4096); continue; }
        at[n++] = m;
        if (k < 12) for (int j = 6; j < 12; j++) at[n++] = (unsigned char*)m + (1ul << j);
    }
    mc_check(n > 20, "harness", "only %d addresses are available", n);
    for (int i = 0; i < n; i++) { for (int k = 0; k < 24; k++) at[i][k] = init_[i][k] = (unsigned char)(i * 5 + k); memcpy(want_[i], init_[i], 24); }
    volatile bool rec = false;
    static volatile int attempts;
    attempts = 0;
    picotm_begin
        if (attempts++) memcpy(want_, init_, sizeof want_);
        for (int q = 0; q < n; q++) {
            int i = order ? n - 1 - q : q;
            unsigned char x[16];
            load_tx(at[i] + lo, x, 16);
            mc_check(!memcmp(x, want_[i] + lo, 16), "load", "first load at %p", (void*)at[i]);
            for (int k = 0; k < 8; k++) x[k] = (unsigned char)(200 + i + k);
            store_tx(at[i] + lo, x, 8);
            memcpy(want_[i] + lo, x, 8);
        }
        for (int i = 0; i < n; i++) {
            unsigned char x[24];
            load_tx(at[i], x, 24);
            mc_check(!memcmp(x, want_[i], 24), "load", "load after store at %p", (void*)at[i]);
        }
        if (end == 1) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
        if (end == 2 && attempts == 1) picotm_restart();
    picotm_commit
        rec = true;
    picotm_end
    mc_check(rec == (end == 1), "unexpected recovery", "recovery %d", (int)rec);
    for (int i = 0; i < n; i++) mc_check(!memcmp(at[i], rec ? init_[i] : want_[i], 24), rec ? "abort" : "commit", "memory at %p", (void*)at[i]);
    picotm_release();
    mc_cases(n);
    mc_outcome(n * 2 + rec);
}

static const struct mc_scenario sc[] = {
    { "large", sc_long, 5, MC_NOPREEMPT, 0, 0, 60, 200, "operations on up to 8193 bytes across pages of the frame map, at any alignment" },
    { "addresses", sc_wide, 3, MC_NOPREEMPT, 0, 0, 10, 20, "objects whose addresses differ in a single bit, over the whole address space" },
    { "types", sc_types, 1, MC_NOPREEMPT, 0, 0, 10, 10, "typed load, store, privatize and pointer accessors" },
    { "sequences", sc_seq, 3, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 840, "operation sequences over five blocks x commit, error, conflict", 2 },
};

int main(int argc, char* argv[])
{
    static const char* const as[] = { "sequential: one transaction of up to three operations of the full alphabet, four (thorough: five) of a smaller one, over 40 bytes, discarding whole blocks only", NULL };
    make_ops();
    return mc_main(argc, argv, "P10", sc, sizeof sc / sizeof *sc, as);
}
