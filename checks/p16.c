/* P16: transactional string and memory functions compute what the C library does */
#include "mc.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-tm.h"
#include "picotm/string.h"
#include "picotm/string-tm.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include <errno.h>
#include <limits.h>
#include <locale.h>
#include <sanitizer/asan_interface.h>
#include <stdlib.h>
#include <string.h>

char* strcpy_tx(char* restrict dest, const char* restrict src);
char* strcpy_tm(char* restrict dest, const char* restrict src);
char* strcat_tx(char* restrict dest, const char* restrict src);

/* Two arenas of the same layout: A is used by the transaction, R by the C
 * library. Whatever the call may not touch is poisoned in both. */
#define SZMAX 16384
static size_t SZ = 768; /* SZMAX in sc_long */
static unsigned char A[SZMAX] __attribute__((aligned(64))), R[SZMAX] __attribute__((aligned(64)));
static unsigned char raw[SZMAX], eff[SZMAX]; /* initial bytes; bytes as the transaction sees them */
static bool acc[SZMAX];                   /* accessible */
static size_t rb[4], re[4];            /* accessible ranges */
static int nr;

enum fn {
    /* s, c, n */ MEMCHR, MEMRCHR, RAWMEMCHR, STRCHR, STRRCHR, STRLEN, STRNLEN, STRDUP, STRNDUP,
    /* s1, s2 */ STRCMP, STRCOLL, STRSPN, STRCSPN, STRPBRK, STRSTR, /* n */ STRNCMP, MEMCMP,
    /* d, s */ STRCPY, STPCPY, STRCAT, /* n */ STRNCPY, STPNCPY, STRNCAT, MEMCPY, MEMMOVE, MEMCCPY,
    MEMSET, STRERROR_GNU, STRERROR_POSIX, STRTOK, QSORT, RANDR, NFN
};
static const char* const fname[NFN] = {
    "memchr", "memrchr", "rawmemchr", "strchr", "strrchr", "strlen", "strnlen", "strdup", "strndup",
    "strcmp", "strcoll_l", "strspn", "strcspn", "strpbrk", "strstr", "strncmp", "memcmp",
    "strcpy", "stpcpy", "strcat", "strncpy", "stpncpy", "strncat", "memcpy", "memmove", "memccpy",
    "memset", "strerror_r (GNU)", "strerror_r (POSIX)", "strtok_r", "qsort", "rand_r" };

static long sign(int x) { return x < 0 ? -1 : x > 0; }
static long at(const unsigned char* base, const void* p) { return p ? (const unsigned char*)p - base : -1; }
static int cmpc(const void* a, const void* b) { return *(const unsigned char*)a - *(const unsigned char*)b; }
static locale_t cloc;
static void* dup_result;
static char* serr; /* string returned by GNU strerror_r */

#define CALLS(sfx) \
static long call##sfx(int f, unsigned char* m, size_t x, size_t y, int c, size_t n) \
{ \
    char* s = (char*)m + x; char* t = (char*)m + y; \
    switch (f) { \
    case MEMCHR: return at(m, memchr##sfx(s, c, n)); \
    case MEMRCHR: return at(m, memrchr##sfx(s, c, n)); \
    case RAWMEMCHR: return at(m, rawmemchr##sfx(s, c)); \
    case STRCHR: return at(m, strchr##sfx(s, c)); \
    case STRRCHR: return at(m, strrchr##sfx(s, c)); \
    case STRLEN: return strlen##sfx(s); \
    case STRNLEN: return strnlen##sfx(s, n); \
    case STRDUP: dup_result = strdup##sfx(s); return 0; \
    case STRNDUP: dup_result = strndup##sfx(s, n); return 0; \
    case STRCMP: return sign(strcmp##sfx(s, t)); \
    case STRCOLL: return sign(strcoll_l##sfx(s, t, cloc)); \
    case STRSPN: return strspn##sfx(s, t); \
    case STRCSPN: return strcspn##sfx(s, t); \
    case STRPBRK: return at(m, strpbrk##sfx(s, t)); \
    case STRSTR: return at(m, strstr##sfx(s, t)); \
    case STRNCMP: return sign(strncmp##sfx(s, t, n)); \
    case MEMCMP: return sign(memcmp##sfx(s, t, n)); \
    case STRCPY: return at(m, strcpy##sfx(s, t)); \
    case STPCPY: return at(m, stpcpy##sfx(s, t)); \
    case STRCAT: return at(m, strcat##sfx(s, t)); \
    case STRNCPY: return at(m, strncpy##sfx(s, t, n)); \
    case STPNCPY: return at(m, stpncpy##sfx(s, t, n)); \
    case STRNCAT: return at(m, strncat##sfx(s, t, n)); \
    case MEMCPY: return at(m, memcpy##sfx(s, t, n)); \
    case MEMMOVE: return at(m, memmove##sfx(s, t, n)); \
    case MEMCCPY: return at(m, memccpy##sfx(s, t, c, n)); \
    case MEMSET: return at(m, memset##sfx(s, c, n)); \
    case QSORT: qsort##sfx(s, n, 1, cmpc); return 0; \
    case RANDR: return rand_r##sfx((unsigned*)s); \
    case STRTOK: { /* saved pointer at y, delimiters at c, n: further call */ \
        char* r = strtok_r##sfx(n ? NULL : s, (char*)m + c, (char**)t); return at(m, r); } \
    } \
    return -2; \
}
CALLS(_tx)
CALLS(_tm)
CALLS()

/* ------------------------------------------------------------ execution */
static void range(size_t b, size_t n)
{
    if (!n) return;
    rb[nr] = b; re[nr] = b + n; nr++;
    for (size_t i = b; i < b + n; i++) acc[i] = true;
}
static void lock_arena(unsigned char* m)
{
    __asan_poison_memory_region(m, SZ);
    for (size_t i = 0; i < SZ; i += 8) {
        int k = 0;
        for (int j = 0; j < 8; j++) if (acc[i + j]) k = j + 1;
        if (k) __asan_unpoison_memory_region(m + i, k);
    }
}
static void unlock_arena(unsigned char* m) { __asan_unpoison_memory_region(m, SZ); }

static void reset(void)
{
    for (size_t i = 0; i < SZ; i++) { eff[i] = 'A' + i % 23; acc[i] = false; }
    nr = 0;
}

enum { PRE_NONE, PRE_ALL, PRE_ONE, PRE_DIRECT, NPRE };
static volatile int where;

/* run `f` in a transaction, in which earlier writes (`pre`) have turned `raw`
 * into `eff`; and in the C library, on `eff` */
static void run(int f, size_t x, size_t y, int c, size_t n, int pre, int one, bool abort_)
{
    unlock_arena(A); unlock_arena(R);
    memcpy(raw, eff, SZ);
    memcpy(R, eff, SZ);
    if (pre == PRE_ALL || pre == PRE_DIRECT) for (int r = 0; r < nr; r++) for (size_t i = rb[r]; i < re[r]; i++) raw[i] = f == STRTOK ? eff[i] ^ 0x55 : (i & 7) == 5 ? 0 : 'z';
    size_t oi[4] = { 0 };
    if (pre == PRE_ONE) for (int r = 0; r < nr; r++) { oi[r] = one == 0 ? rb[r] : one == 1 ? re[r] - 1 : rb[r] + (re[r] - rb[r]) / 2; raw[oi[r]] = eff[oi[r]] ? 0 : 'q'; }
    memcpy(A, raw, SZ);
    static int (*volatile ref_guard)(void);
    (void)ref_guard;
    lock_arena(R);
    mc_ctx("C library: %s x=%zu y=%zu c=%d n=%zu", fname[f], x, y, c, n);
    dup_result = NULL;
    long want = call(f, R, x, y, c, n);
    void* want_dup = dup_result;
    unlock_arena(R);
    lock_arena(A);
    mc_ctx("%s x=%zu y=%zu c=%d n=%zu pre=%d/%d abort=%d", fname[f], x, y, c, n, pre, one, abort_);
    mc_note("%s x=%zu y=%zu c=%d n=%zu pre=%d/%d abort=%d", fname[f], x, y, c, n, pre, one, abort_);

    static long got; got = -3;
    static void* got_dup; got_dup = NULL; dup_result = NULL;
    static int st; st = 0;
    static unsigned char seen[SZMAX];
    static int s_f, s_c, s_pre, s_abort; static size_t s_x, s_y, s_n; static size_t s_oi[4];
    s_f = f; s_c = c; s_pre = pre; s_abort = abort_; s_x = x; s_y = y; s_n = n; memcpy(s_oi, oi, sizeof oi);
    picotm_begin
        for (int r = 0; r < nr; r++) {
            if (s_pre == PRE_ALL) store_tx(A + rb[r], eff + rb[r], re[r] - rb[r]);
            if (s_pre == PRE_ONE) store_tx(A + s_oi[r], eff + s_oi[r], 1);
            if (s_pre == PRE_DIRECT) { privatize_tx(A + rb[r], re[r] - rb[r], PICOTM_TM_PRIVATIZE_LOADSTORE); memcpy(A + rb[r], eff + rb[r], re[r] - rb[r]); }
        }
        got = call_tx(s_f, A, s_x, s_y, s_c, s_n);
        got_dup = dup_result;
        for (int r = 0; r < nr; r++) load_tx(A + rb[r], seen + rb[r], re[r] - rb[r]);
        if (s_abort) picotm_recover_from_errno(EDOM);
    picotm_commit
        st = picotm_error_status() == PICOTM_ERRNO ? picotm_error_as_errno() : -1;
    picotm_end
    unlock_arena(A);
    mc_check(st == (abort_ ? EDOM : 0), "unexpected error", "%s: the transaction ends with error %d", fname[f], st);
    bool cut_buffer = f == STRERROR_POSIX && want;
    if (f != STRERROR_GNU) mc_check(got == want, "result", "%s: returns %ld, the C library returns %ld", fname[f], got, want);
    if (f == STRTOK) { /* compare the saved pointers relative to their arenas, then make them equal */
        for (int k = 0; k < 2; k++) {
            char* pr; memcpy(&pr, R + y, sizeof pr);
            char* pa; memcpy(&pa, k ? A + y : seen + y, sizeof pa);
            if (k && abort_) break;
            mc_check(pa - (char*)A == pr - (char*)R, "saved pointer", "strtok_r: saves a pointer to %ld, expected %ld", (long)(pa - (char*)A), (long)(pr - (char*)R));
            memcpy(k ? A + y : seen + y, &pr, sizeof pr);
        }
    }
    if (!cut_buffer) for (int r = 0; r < nr; r++) for (size_t i = rb[r]; i < re[r]; i++)
        mc_check(seen[i] == R[i], "own writes", "%s: byte %zu reads %d in the transaction, the C library makes it %d", fname[f], i, seen[i], R[i]);
    for (size_t i = 0; i < SZ; i++) {
        if (abort_) mc_check(A[i] == raw[i], "abort", "%s: byte %zu is %d after an abort, was %d", fname[f], i, A[i], raw[i]);
        else if (!cut_buffer || !acc[i]) mc_check(A[i] == R[i], "memory", "%s: byte %zu is %d after the commit, the C library makes it %d", fname[f], i, A[i], R[i]);
    }
    if (f == STRDUP || f == STRNDUP) {
        if (!abort_) {
            mc_check(got_dup && !strcmp(got_dup, want_dup), "copy", "%s: copy is '%s', the C library makes '%s'", fname[f], (char*)got_dup, (char*)want_dup);
            free(got_dup);
        }
        free(want_dup);
    }
    /* the variant for private memory */
    if (pre == PRE_NONE && !abort_ && f != STRERROR_GNU && f != STRERROR_POSIX && f != STRTOK) {
        unsigned char* m = A;
        memcpy(A, eff, SZ);
        lock_arena(A);
        static long gtm;
        dup_result = NULL; st = 0;
        mc_ctx("%s_tm x=%zu y=%zu c=%d n=%zu", fname[f], x, y, c, n);
        picotm_begin
            gtm = call_tm(s_f, m, s_x, s_y, s_c, s_n);
        picotm_commit
            st = 1;
        picotm_end
        unlock_arena(A);
        mc_check(!st && gtm == want, "result (tm)", "%s_tm: returns %ld, the C library returns %ld", fname[f], gtm, want);
        if (dup_result) {
            char* w = f == STRDUP ? strdup((char*)R + x) : strndup((char*)R + x, n);
            mc_check(!strcmp(dup_result, w), "copy (tm)", "%s_tm: copy is '%s', the C library makes '%s'", fname[f], (char*)dup_result, w);
            free(dup_result); free(w);
        }
        mc_check(!memcmp(A, R, SZ), "memory (tm)", "%s_tm: writes other bytes than the C library", fname[f]);
    }
    mc_cases(1);
    mc_outcome(want);
}

/* -------------------------------------------------------------- inputs */
static const size_t lens[] = { 0, 1, 2, 3, 4, 7, 8, 9, 31, 32, 33, 64, 65, 100 };
#define NL ((int)(sizeof lens / sizeof *lens))
#define QL NL /* lengths used by the quick tier */
static size_t pick_len(int max) { int k = mc_tier_thorough ? NL : QL; return lens[mc_choose(max && max < k ? max : k)]; }
static void finish(int f, size_t x, size_t y, int c, size_t n)
{
    int pre = mc_choose(NPRE), one = pre == PRE_ONE ? mc_choose(3) : 0, ab = mc_choose(2);
    run(f, x, y, c, n, pre, one, ab);
}
/* put a text of `len` non-zero characters at `x`, with `c` at position `at` */
static void text(size_t x, size_t len, int c, size_t at)
{
    for (size_t i = 0; i < len; i++) eff[x + i] = 'a' + i % 3;
    if (at < len) eff[x + at] = c;
}
static size_t pick_pos(size_t len) { size_t p[] = { len, 0, len - 1, len / 2 }; return p[mc_choose(len > 2 ? 4 : len > 1 ? 3 : len ? 2 : 1)]; }
static size_t min(size_t a, size_t b) { return a < b ? a : b; }

/* search in memory of n bytes / in a text */
static void sc_search(int v)
{
    static const int fs[] = { MEMCHR, MEMRCHR, RAWMEMCHR, STRCHR, STRRCHR, STRLEN, STRNLEN, STRDUP, STRNDUP };
    int f = fs[v];
    static const int cs[] = { 'X', 0, 0xe1, 'X' + 256, -1, -31 };
    reset();
    size_t x = 64 + (size_t[]){ 0, 3, 7 }[mc_choose(3)];
    size_t len = pick_len(0);
    bool bounded = f == MEMCHR || f == MEMRCHR || f == STRNLEN || f == STRNDUP;
    int c = f == STRLEN || f == STRDUP || f == STRNLEN || f == STRNDUP ? 0 : cs[mc_choose(6)];
    size_t pos = pick_pos(len);
    if (f == STRNLEN || f == STRNDUP) pos = len;
    size_t n = 0;
    text(x, len, c, pos);
    if (!bounded) {
        if (f == RAWMEMCHR) {
            if (pos >= len) { eff[x + len] = c; range(x, len + 1); }
            else range(x, pos + 1);
        } else {
            size_t e = 0; while (e < len && eff[x + e]) e++;
            if (e == len) eff[x + len] = 0;
            range(x, e + 1);
        }
    } else if (f == MEMRCHR) {
        n = len;
        range(x, n);
    } else if (f == MEMCHR) {
        n = mc_choose(2) || pos >= len ? len : len + 50; /* may end before n */
        range(x, pos < len ? pos + 1 : n);
    } else {
        static const int d[] = { 0, 1, -1, 40, -2, 1000 };
        long nn = (long)len + d[mc_choose(6)];
        n = nn < 0 ? 0 : nn;
        eff[x + len] = 0;
        range(x, min(n, len + 1));
    }
    finish(f, x, 0, c, n);
}

/* two texts over a small alphabet */
static void sc_pair(int v)
{
    static const int fs[] = { STRCMP, STRCOLL, STRSPN, STRCSPN, STRPBRK, STRSTR, STRNCMP, MEMCMP };
    static const unsigned char al[] = { 'a', 'b', 0xe1 };
    int f = fs[v];
    reset();
    size_t x = 64 + (mc_choose(2) ? 5 : 0), y = 320 + (mc_choose(2) ? 2 : 0);
    size_t pfx = (size_t[]){ 0, 7, 30 }[mc_choose(3)];
    bool cmp = f == STRCMP || f == STRCOLL || f == STRNCMP || f == MEMCMP;
    size_t l1, l2;
    for (size_t i = 0; i < pfx; i++) { eff[x + i] = 'c'; if (cmp) eff[y + i] = 'c'; }
    l1 = pfx; while (l1 < pfx + 3) { int k = mc_choose(4); if (k == 3) break; eff[x + l1++] = al[k]; }
    size_t p2 = cmp ? pfx : 0;
    l2 = p2; while (l2 < p2 + 2) { int k = mc_choose(4); if (k == 3) break; eff[y + l2++] = al[k]; }
    size_t n = 0;
    if (f == MEMCMP) {
        n = min(l1, l2);
        range(x, n); range(y, n);
    } else if (f == STRNCMP) {
        n = (size_t[]){ 0, pfx, pfx + 1, pfx + 2, 200 }[mc_choose(5)];
        eff[x + l1] = eff[y + l2] = 0;
        range(x, min(n, l1 + 1)); range(y, min(n, l2 + 1));
    } else {
        eff[x + l1] = eff[y + l2] = 0;
        range(x, l1 + 1); range(y, l2 + 1);
    }
    finish(f, x, y, 0, n);
}

/* copies from y to x */
static void sc_copy(int v)
{
    static const int fs[] = { STRCPY, STPCPY, STRCAT, STRNCPY, STPNCPY, STRNCAT, MEMCPY, MEMCCPY, MEMSET };
    int f = fs[v];
    reset();
    size_t x = 64 + (size_t[]){ 0, 3, 7 }[mc_choose(3)], y = 320 + (size_t[]){ 0, 3, 6 }[mc_choose(3)];
    size_t len = pick_len(0), n = 0, dl = 0;
    int c = 0;
    text(y, len, 0xe1, len / 2);
    switch (f) {
    case STRCPY: case STPCPY:
        eff[y + len] = 0; range(y, len + 1); range(x, len + 1); break;
    case STRCAT: case STRNCAT:
        dl = (size_t[]){ 0, 1, 6, 33 }[mc_choose(4)];
        text(x, dl, 0, dl); eff[x + dl] = 0; eff[y + len] = 0;
        if (f == STRCAT) { range(y, len + 1); range(x, dl + len + 1); break; }
        n = (size_t[]){ 0, 1, len, len + 1, len + 60, len - (len > 0) }[mc_choose(6)];
        range(y, min(n, len + 1)); range(x, dl + min(n, len) + 1);
        break;
    case STRNCPY: case STPNCPY:
        n = (size_t[]){ 0, 1, len, len + 1, len + 60, len - (len > 0), len + 2 }[mc_choose(7)];
        eff[y + len] = 0;
        range(y, min(n, len + 1)); range(x, n);
        break;
    case MEMCPY: n = len; range(y, n); range(x, n); break;
    case MEMSET: n = len; c = (int[]){ 0, 'x', 0x1e1, -1 }[mc_choose(4)]; range(x, n); break;
    case MEMCCPY: {
        c = (int[]){ 0, 'X', 0xe1 + 256, -31 }[mc_choose(4)];
        size_t pos = pick_pos(len);
        text(y, len, c, len); if (pos < len) eff[y + pos] = c;
        n = mc_choose(2) || pos >= len ? len : len + 40;
        size_t m = pos < len ? pos + 1 : n;
        range(y, m); range(x, m);
        break; }
    }
    finish(f, x, y, c, n);
}

/* long buffers and texts; bounds up to the largest */
static void sc_long(int v)
{
    static const int fs[] = { MEMCHR, MEMRCHR, RAWMEMCHR, STRCHR, STRRCHR, STRLEN, STRNLEN, STRDUP, STRNDUP, STRCMP, STRCOLL, STRSPN, STRCSPN, STRPBRK, STRSTR,
        STRNCMP, MEMCMP, STRCPY, STPCPY, STRCAT, STRNCPY, STPNCPY, STRNCAT, MEMCPY, MEMMOVE, MEMCCPY, MEMSET };
    static const size_t ll[] = { 256, 300, 1030, 4097, 127, 255, 5000 };
    int f = fs[v];
    size_t len = ll[mc_choose(mc_tier_thorough ? 7 : 3)], o = mc_choose(2) ? 5 : 0, x = 64 + o, y = 8192 + (o ? 3 : 0);
    SZ = SZMAX;
    reset();
    static const int at3[] = { 0, 1, 2 }; /* where the texts end or differ: after the last byte, before it, in the middle */
    int w = at3[mc_choose(3)];
    size_t pos = w == 0 ? len : w == 1 ? len - 1 : len / 2 + 1, n = 0;
    int c = 'X';
    static const size_t far[] = { 0, 1, 0x7fffffff, (size_t)1 << 32, SIZE_MAX / 2, SIZE_MAX };
    switch (f) {
    case MEMCHR:
        text(x, len, c, pos); n = len;
        range(x, pos < len ? pos + 1 : n); break;
    case MEMRCHR: text(x, len, c, len - pos); n = len; range(x, n); break;
    case RAWMEMCHR: text(x, len, c, len); eff[x + pos] = c; range(x, pos + 1); break;
    case STRCHR: case STRRCHR: case STRLEN: case STRDUP:
        text(x, len, c, pos); eff[x + len] = 0; range(x, len + 1); break;
    case STRNLEN: case STRNDUP:
        text(x, len, c, pos); eff[x + len] = 0;
        n = w == 2 ? len / 2 : len + far[mc_choose(5)];
        if (w == 1) n = SIZE_MAX;
        range(x, min(n, len + 1)); break;
    case STRCMP: case STRCOLL: case STRNCMP: case MEMCMP:
        text(x, len, 0xe1, pos); text(y, len, 'c', len);
        eff[x + len] = eff[y + len] = 0;
        if (f == MEMCMP) n = len;
        if (f == STRNCMP) n = (size_t[]){ len, len + 1, (size_t)1 << 32, SIZE_MAX, pos, len - 1 }[mc_choose(6)];
        range(x, f == MEMCMP ? len : f == STRNCMP ? min(n, len + 1) : len + 1);
        range(y, f == MEMCMP ? len : f == STRNCMP ? min(n, len + 1) : len + 1); break;
    case STRSPN: case STRCSPN: case STRPBRK:
        text(x, len, 'q', pos); eff[x + len] = 0;
        /* a long set of characters */
        for (size_t i = 0; i < len; i++) eff[y + i] = f == STRSPN ? 'a' + (int)(i % 200 == 199 ? 2 : i % 2) : 'A' + (int)(i % 5);
        if (f != STRSPN) eff[y + len - 1] = 'q';
        eff[y + len] = 0; range(x, len + 1); range(y, len + 1); break;
    case STRSTR: {
        size_t nl = w == 0 ? len : w == 1 ? 2 : len / 2;
        text(x, len, 'q', len - 1); eff[x + len] = 0;
        memcpy(eff + y, eff + x + len - nl, nl); eff[y + nl] = 0;
        range(x, len + 1); range(y, nl + 1); break; }
    case STRCPY: case STPCPY:
        text(y, len, 0xe1, pos); eff[y + len] = 0; range(y, len + 1); range(x, len + 1); break;
    case STRCAT: case STRNCAT: {
        size_t dl = w == 0 ? 0 : w == 1 ? 256 : 300;
        text(x, dl, 0, dl); eff[x + dl] = 0;
        text(y, len, 0xe1, pos); eff[y + len] = 0;
        if (f == STRNCAT) n = (size_t[]){ len - 1, len, (size_t)1 << 32, SIZE_MAX, 256, 255 }[mc_choose(6)];
        size_t k = f == STRCAT ? len : min(n, len);
        range(y, f == STRCAT ? len + 1 : min(n, len + 1)); range(x, dl + k + 1); break; }
    case STRNCPY: case STPNCPY:
        text(y, len, 0xe1, pos); eff[y + len] = 0;
        n = w == 0 ? len : w == 1 ? len + 257 : len / 2;
        range(y, min(n, len + 1)); range(x, n); break;
    case MEMCPY: case MEMMOVE:
        text(y, len, 0xe1, pos); n = len;
        if (f == MEMMOVE && w) { y = w == 1 ? x + 256 : x + 1; text(y, len, 0xe1, pos); text(x, y - x, 'g', 0); if (mc_choose(2)) { size_t t = x; x = y; y = t; } range(min(x, y), len + (w == 1 ? 256 : 1)); break; }
        range(y, n); range(x, n); break;
    case MEMCCPY:
        text(y, len, c, pos); n = len + (pos < len ? 300 : 0);
        range(y, pos < len ? pos + 1 : n); range(x, pos < len ? pos + 1 : n); break;
    case MEMSET: n = len; range(x, n); break;
    }
    finish(f, x, y, c, n);
    unlock_arena(A); unlock_arena(R);
    SZ = 768;
}

/* overlapping moves */
static void sc_move(int v)
{
    (void)v;
    reset();
    static const int ds[] = { 1, -1, 8, -8, 31, -31, 32, -32, 33, -40, 0, 5, -70, 100 };
    size_t x = 200 + mc_choose(8), n = pick_len(0);
    size_t y = x + ds[mc_choose(14)];
    for (size_t i = 0; i < SZ; i++) eff[i] = 1 + i * 7 % 250;
    if (y >= x + n || x >= y + n) { range(x, n); range(y, n); }
    else { size_t b = min(x, y), e = (x > y ? x : y) + n; range(b, e - b); }
    finish(MEMMOVE, x, y, 0, n);
}

/* memcpy between adjacent, non-overlapping ranges of the same words */
static void sc_adjacent(int v)
{
    static const int fs[] = { MEMCPY, STRNCPY, STRNCAT, MEMCCPY, STRCPY, STRCAT, STPCPY, STPNCPY };
    int f = fs[v];
    reset();
    size_t y = 200 + mc_choose(8), len = 1 + mc_choose(10);
    for (size_t i = 0; i < len; i++) eff[y + i] = 'a' + i % 3;
    bool str = f == STRCPY || f == STRCAT || f == STPCPY;
    if (str) eff[y + len - 1] = 0;
    size_t dn = len + (f == STRNCAT), x = mc_choose(2) ? y + len : y - dn;
    if (f == STRCAT || f == STRNCAT) eff[x] = 0;
    range(min(x, y), len + dn);
    finish(f, x, y, f == MEMCCPY ? 'c' : 0, len);
}

static void sc_strtok(int v)
{
    static const char* const txt[] = { "", ",", "a", "a,b", ",,a;;b,", "aaaaaaaaaaaa,bbbbbbbbbbbbb;c", ";" };
    static const char* const del[] = { ",", ",;", "" };
    reset();
    size_t x = 64 + mc_choose(3) * 3, y = 256, c = 320 + mc_choose(2) * 5, l = strlen(txt[v]);
    memcpy(eff + x, txt[v], l + 1);
    const char* d = del[mc_choose(3)];
    memcpy(eff + c, d, strlen(d) + 1);
    size_t n = mc_choose(2);
    if (n) { /* continue at a saved position */
        size_t p = l ? mc_choose(3) * l / 2 : 0;
        char* q = (char*)R + x + p; /* fixed up for A in run_tok */
        memcpy(eff + y, &q, sizeof q);
    } else memset(eff + y, 0, 8);
    /* the saved pointer differs between the arenas: run the calls by hand */
    range(x, l + 1); range(y, 8); range(c, strlen(d) + 1);
    int pre = mc_choose(NPRE), one = pre == PRE_ONE ? mc_choose(3) : 0;
    bool ab = mc_choose(2);
    if (!n) { run(STRTOK, x, y, c, 0, pre, one, ab); return; }
    /* place the pointer of each arena: let both arenas hold equal bytes by
     * computing the C library's answer in a private copy at A's address */
    static unsigned char save[SZMAX];
    unlock_arena(A); unlock_arena(R);
    char* q; memcpy(&q, eff + y, sizeof q);
    q = (char*)A + (q - (char*)R);
    memcpy(eff + y, &q, sizeof q);
    memcpy(A, eff, SZ);
    lock_arena(A);
    mc_ctx("C library: strtok_r continued");
    long want = call(STRTOK, A, x, y, c, 1);
    unlock_arena(A);
    memcpy(save, A, SZ);
    memcpy(raw, eff, SZ);
    size_t oi[3] = { 0 };
    if (pre == PRE_ALL || pre == PRE_DIRECT) for (int r = 0; r < nr; r++) for (size_t i = rb[r]; i < re[r]; i++) raw[i] ^= 0x55;
    if (pre == PRE_ONE) for (int r = 0; r < nr; r++) { oi[r] = one == 0 ? rb[r] : one == 1 ? re[r] - 1 : (rb[r] + re[r]) / 2; raw[oi[r]] ^= 0x55; }
    memcpy(A, raw, SZ);
    lock_arena(A);
    static long got; static int st; static unsigned char seen[SZMAX];
    static int s_pre, s_ab; static size_t s_x, s_c, s_oi[3];
    s_pre = pre; s_ab = ab; s_x = x; s_c = c; memcpy(s_oi, oi, sizeof oi); st = 0;
    mc_ctx("strtok_r continued x=%zu pre=%d abort=%d", x, pre, ab);
    picotm_begin
        for (int r = 0; r < nr; r++) {
            if (s_pre == PRE_ALL) store_tx(A + rb[r], eff + rb[r], re[r] - rb[r]);
            if (s_pre == PRE_ONE) store_tx(A + s_oi[r], eff + s_oi[r], 1);
            if (s_pre == PRE_DIRECT) { privatize_tx(A + rb[r], re[r] - rb[r], PICOTM_TM_PRIVATIZE_LOADSTORE); memcpy(A + rb[r], eff + rb[r], re[r] - rb[r]); }
        }
        got = call_tx(STRTOK, A, s_x, 256, s_c, 1);
        for (int r = 0; r < nr; r++) load_tx(A + rb[r], seen + rb[r], re[r] - rb[r]);
        if (s_ab) picotm_recover_from_errno(EDOM);
    picotm_commit
        st = picotm_error_status() == PICOTM_ERRNO ? picotm_error_as_errno() : -1;
    picotm_end
    unlock_arena(A);
    mc_check(st == (ab ? EDOM : 0), "unexpected error", "strtok_r: the transaction ends with error %d", st);
    mc_check(got == want, "result", "strtok_r: returns %ld, the C library returns %ld", got, want);
    for (int r = 0; r < nr; r++) mc_check(!memcmp(seen + rb[r], save + rb[r], re[r] - rb[r]), "own writes", "strtok_r: other bytes seen than the C library writes");
    mc_check(!memcmp(A, ab ? raw : save, SZ), ab ? "abort" : "memory", "strtok_r: wrong bytes in memory");
    mc_cases(1);
    mc_outcome(want);
}

static void sc_misc(int v)
{
    reset();
    size_t x = 64 + mc_choose(4) * (v == 1 ? 4 : 3);
    if (v == 0) {
        size_t n = (size_t[]){ 0, 1, 2, 5, 9, 40 }[mc_choose(6)];
        for (size_t i = 0; i < n; i++) eff[x + i] = n <= 5 ? mc_choose(3) : (i * 29) % 31;
        range(x, n);
        finish(QSORT, x, 0, 0, n);
    } else {
        memcpy(eff + x, &(unsigned){ (unsigned[]){ 0, 1, 0xffffffff, 12345 }[mc_choose(4)] }, 4);
        range(x, 4);
        finish(RANDR, x, 0, 0, 0);
    }
}

/* strerror_r is compared with the message itself */
static void sc_strerror(int v)
{
    static const int es[] = { 0, ENOENT, EINVAL, ERANGE, 4095, -1, 131 };
    int e = es[mc_choose(7)], pre = mc_choose(2), ab = mc_choose(2);
    const char* msg = e >= 0 && e < 132 ? strerror(e) : NULL;
    size_t n = (size_t[]){ 0, 1, 5, msg ? strlen(msg) : 14, msg ? strlen(msg) + 1 : 20, 200 }[mc_choose(6)];
    if (!n && !msg && !v) n = 2; /* the GNU version would return an empty buffer */
    reset();
    size_t x = 64 + mc_choose(3) * 3;
    range(x, n);
    unlock_arena(A);
    memcpy(A, eff, SZ);
    lock_arena(A);
    static int st, res, s_e, s_ab, s_pre, s_v; static size_t s_n, s_x; static char* r; static char copy[256];
    st = 0; res = -9; s_e = e; s_ab = ab; s_n = n; s_x = x; s_pre = pre; s_v = v; r = NULL;
    mc_ctx("strerror_r %d n=%zu errnum=%d", v, n, e);
    picotm_begin
        if (s_pre && s_n) store_tx(A + s_x, "Z", 1);
        if (s_v) res = __strerror_r_posix_tx(s_e, (char*)A + s_x, s_n);
        else { r = __strerror_r_gnu_tx(s_e, (char*)A + s_x, s_n); if (s_n || r != (char*)A + s_x) strcpy(copy, r); }
        if (s_ab) picotm_recover_from_errno(EDOM);
    picotm_commit
        st = picotm_error_status() == PICOTM_ERRNO ? picotm_error_as_errno() : -1;
    picotm_end
    unlock_arena(A);
    for (size_t i = 0; i < SZ; i++) if (!acc[i] || (st && i >= x)) mc_check(A[i] == eff[i], st ? "abort" : "bounds", "strerror_r: byte %zu of %zu changed", i, n);
    if (v) {
        if (!msg) mc_check(st == EINVAL || st == ERANGE || (n < 20 && res == ERANGE) || st == EDOM, "unknown error", "strerror_r: unknown error number is not reported (%d %d)", st, res);
        else if (ab) mc_check(st == EDOM, "unexpected error", "strerror_r: error %d", st);
        else {
            mc_check(!st && res == (strlen(msg) < n ? 0 : ERANGE), "result", "strerror_r: returns %d for a buffer of %zu bytes", res, n);
            if (!res) mc_check(!strcmp((char*)A + x, msg), "message", "strerror_r: wrong message");
        }
    } else {
        if (ab) mc_check(st == EDOM, "unexpected error", "strerror_r: error %d", st);
        else {
            mc_check(!st, "unexpected error", "strerror_r: error %d", st);
            char tmp[256], want[256];
            char* w = strerror_r(e, tmp, n < 256 ? n : 256);
            if (n || w != tmp) { strcpy(want, w); mc_check(!strcmp(copy, want), "message", "strerror_r: message '%s', expected '%s'", copy, want); }
        }
    }
    mc_cases(1);
    mc_outcome(res + 100 * st);
}

static const struct mc_scenario sc[] = {
    { "search", sc_search, 9, MC_NOPREEMPT | MC_INPROC, 0, 0, 40, 300, "memchr, memrchr, rawmemchr, strchr, strrchr, strlen, strnlen, strdup, strndup: lengths, alignments, positions, bounds, characters beyond a byte" },
    { "pair", sc_pair, 8, MC_NOPREEMPT | MC_INPROC, 0, 0, 40, 300, "strcmp, strcoll_l, strspn, strcspn, strpbrk, strstr, strncmp, memcmp: all pairs of short texts behind common prefixes" },
    { "copy", sc_copy, 9, MC_NOPREEMPT | MC_INPROC, 0, 0, 40, 300, "strcpy, stpcpy, strcat, strncpy, stpncpy, strncat, memcpy, memccpy, memset: lengths, alignments, bounds" },
    { "long", sc_long, 27, MC_NOPREEMPT | MC_INPROC, 0, 0, 40, 300, "all these functions on long buffers and texts, and with bounds up to SIZE_MAX" },
    { "move", sc_move, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 30, 100, "memmove with all kinds of overlap" },
    { "adjacent", sc_adjacent, 8, MC_NOPREEMPT | MC_INPROC, 0, 0, 30, 100, "copies between neighbouring bytes of the same words" },
    { "strtok", sc_strtok, 7, MC_NOPREEMPT | MC_INPROC, 0, 0, 30, 100, "strtok_r, first and further calls" },
    { "strerror", sc_strerror, 2, MC_NOPREEMPT | MC_INPROC, 0, 0, 30, 100, "both versions of strerror_r with known and unknown errors and too small buffers" },
    { "misc", sc_misc, 2, MC_NOPREEMPT | MC_INPROC, 0, 0, 30, 100, "qsort and rand_r" },
};

int main(int argc, char* argv[])
{
    static const char* const as[] = { "the C library's own functions are the reference", "ranges that end within an aligned 8-byte group are watched precisely, ranges that begin within one down to its start", NULL };
    cloc = newlocale(LC_ALL_MASK, "C", (locale_t)0);
    return mc_main(argc, argv, "P16", sc, sizeof sc / sizeof *sc, as);
}
