/* P31: formatted output into memory and input from memory */
#include "mc.h"
#include <locale.h>
#include <time.h>
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-tm.h"
#include "picotm/stdio.h"
#include "picotm/stdio-tm.h"
#include "picotm/time.h"
#include <errno.h>
#include <sanitizer/asan_interface.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <wchar.h>

/* Two arenas of the same layout: A is used by the transaction, R by the C
 * library. Whatever the call may not touch is poisoned in both. */
#define SZ 1536
static unsigned char A[SZ] __attribute__((aligned(64))), R[SZ] __attribute__((aligned(64)));
static unsigned char raw[SZ], eff[SZ], seen[SZ];
static bool acc[SZ];
static size_t rb[12], re[12];
static int nr;
#define FMT 64   /* format */
#define SRC 256  /* strings */
#define OUT 1024 /* destination */
#define VAR 640  /* results of %n and scanf */

static void range(size_t b, size_t n)
{
    if (!n) return;
    rb[nr] = b; re[nr] = b + n; nr++;
    for (size_t i = b; i < b + n; i++) acc[i] = true;
}
static void lock_arena(unsigned char* m)
{
    __asan_poison_memory_region(m, SZ);
    for (size_t i = 0; i < SZ; i += 8) {
        int k = 0;
        for (int j = 0; j < 8; j++) if (acc[i + j]) k = j + 1;
        if (k) __asan_unpoison_memory_region(m + i, k);
    }
}
static void unlock_arena(unsigned char* m) { __asan_unpoison_memory_region(m, SZ); }
static void reset(void)
{
    for (size_t i = 0; i < SZ; i++) { eff[i] = 'A' + i % 23; acc[i] = false; }
    nr = 0;
}

/* arguments, laid out as the x86-64 ABI's memory arguments */
enum cls { I, P, D, LD };
static struct { enum cls c; long long i; long double d; } arg[8];
static int narg;
struct va { unsigned gp, fp; void* over; void* save; };
static void* pack(unsigned char* base, unsigned char* buf)
{
    size_t o = 0;
    for (int k = 0; k < narg; k++) {
        switch (arg[k].c) {
        case I: memcpy(buf + o, &arg[k].i, 8); o += 8; break;
        case P: { void* p = arg[k].i < 0 ? NULL : base + arg[k].i; memcpy(buf + o, &p, 8); o += 8; break; }
        case D: { double d = arg[k].d; memcpy(buf + o, &d, 8); o += 8; break; }
        case LD: o = (o + 15) & ~15ul; memcpy(buf + o, &arg[k].d, 10); o += 16; break;
        }
    }
    return buf;
}
static void mkva(va_list ap, unsigned char* base, unsigned char* buf)
{
    struct va v = { 48, 176, pack(base, buf), NULL };
    _Static_assert(sizeof(va_list) == sizeof v, "va_list");
    memcpy(ap, &v, sizeof v);
}
static unsigned char abuf[2][256] __attribute__((aligned(16)));

enum { PRE_NONE, PRE_STORE, PRE_DIRECT, NPRE };

/* printf and strftime write to OUT with size n; scanf and strptime read from SRC */
enum fn { PRINTF, SCANF, FTIME, FTIME_L, PTIME };
static const char* const fname[] = { "vsnprintf", "vsscanf", "strftime", "strftime_l", "strptime" };
static locale_t clocale;
static long ptr_result(const char* p, unsigned char* m) { return !p ? -1 : p - (char*)m - SRC; }
static void run(enum fn out, size_t n, int pre, bool abort_, bool tm)
{
    static va_list ap;
    unlock_arena(A); unlock_arena(R);
    memcpy(raw, eff, SZ);
    memcpy(R, eff, SZ);
    if (pre != PRE_NONE)
        for (int r = 0; r < nr; r++) for (size_t i = rb[r]; i < re[r]; i++) raw[i] = (i & 7) == 5 ? 0 : i & 1 ? '%' : 's';
    memcpy(A, raw, SZ);
    lock_arena(R);
    mkva(ap, R, abuf[0]);
    char* f = (char*)eff + FMT;
    mc_ctx("C library: format '%s', size %zu", f, n);
    static int want, got, st; static int s_pre; static bool s_abort, s_tm; static enum fn s_out; static size_t s_n;
    s_pre = pre; s_abort = abort_; s_out = out; s_n = n; s_tm = tm;
    switch (out) {
    case PRINTF: want = vsnprintf((char*)R + OUT, n, (char*)R + FMT, ap); break;
    case SCANF: want = vsscanf((char*)R + SRC, (char*)R + FMT, ap); break;
    case FTIME: want = (int)strftime((char*)R + OUT, n, (char*)R + FMT, (struct tm*)(R + VAR)); break;
    case FTIME_L: want = (int)strftime_l((char*)R + OUT, n, (char*)R + FMT, (struct tm*)(R + VAR), clocale); break;
    case PTIME: want = (int)ptr_result(strptime((char*)R + SRC, (char*)R + FMT, (struct tm*)(R + VAR)), R); break;
    }
    unlock_arena(R);
    lock_arena(A);
    mc_ctx("format '%s', size %zu, %s%s", f, n, pre == PRE_NONE ? "" : "own writes, ", abort_ ? "abort" : "commit");
    mc_note("format '%s', size %zu, input '%s', pre %d, %s%s", f, n, out == SCANF || out == PTIME ? (char*)eff + SRC : "", pre, abort_ ? "abort" : "commit", tm ? ", tm" : "");
    got = -99; st = 0;
    static va_list ap2;
    picotm_begin
        for (int r = 0; r < nr; r++) {
            if (s_pre == PRE_STORE) store_tx(A + rb[r], eff + rb[r], re[r] - rb[r]);
            if (s_pre == PRE_DIRECT || s_tm) { privatize_tx(A + rb[r], re[r] - rb[r], PICOTM_TM_PRIVATIZE_LOADSTORE); memcpy(A + rb[r], eff + rb[r], re[r] - rb[r]); }
        }
        mkva(ap2, A, abuf[1]);
        switch (s_out) {
        case PRINTF: got = (s_tm ? vsnprintf_tm : vsnprintf_tx)((char*)A + OUT, s_n, (char*)A + FMT, ap2); break;
        case SCANF: got = (s_tm ? vsscanf_tm : vsscanf_tx)((char*)A + SRC, (char*)A + FMT, ap2); break;
        case FTIME: got = (int)strftime_tx((char*)A + OUT, s_n, (char*)A + FMT, (struct tm*)(A + VAR)); break;
        case FTIME_L: got = (int)strftime_l_tx((char*)A + OUT, s_n, (char*)A + FMT, (struct tm*)(A + VAR), clocale); break;
        case PTIME: got = (int)ptr_result(strptime_tx((char*)A + SRC, (char*)A + FMT, (struct tm*)(A + VAR)), A); break;
        }
        for (int r = 0; r < nr; r++) load_tx(A + rb[r], seen + rb[r], re[r] - rb[r]);
        if (s_abort) picotm_recover_from_errno(EDOM);
    picotm_commit
        st = picotm_error_status() == PICOTM_ERRNO ? picotm_error_as_errno() : -1;
    picotm_end
    unlock_arena(A);
    const char* fn = fname[out];
    mc_check(st == (abort_ ? EDOM : 0), "unexpected error", "%s('%s'): the transaction ends with error %d", fn, f, st);
    mc_check(got == want, "result", "%s('%s'): returns %d, the C library returns %d", fn, f, got, want);
    /* pointers written by %p differ between the arenas, which the formats avoid */
    for (int r = 0; r < nr; r++) for (size_t i = rb[r]; i < re[r]; i++)
        mc_check(seen[i] == R[i], "own writes", "%s('%s'): byte %zu reads %d in the transaction, the C library makes it %d", fn, f, i, seen[i], R[i]);
    for (size_t i = 0; i < SZ; i++) {
        if (abort_) mc_check(A[i] == raw[i], "abort", "%s('%s'): byte %zu is %d after an abort, was %d", fn, f, i, A[i], raw[i]);
        else mc_check(A[i] == R[i], "memory", "%s('%s'): byte %zu is %d after the commit, the C library makes it %d", fn, f, i, A[i], R[i]);
    }
    mc_cases(1);
    mc_outcome(want);
}

/* ------------------------------------------------------------- printf */
enum { IV, FV, CV, SV, PV, NV, NONE };
static const struct conv { const char* s; int kind; int sz; } convs[] = {
    { "d", IV, 4 }, { "s", SV, 1 }, { "c", CV, 1 }, { "f", FV, 8 }, { "ld", IV, 8 }, { "Lf", FV, 16 }, { "n", NV, 4 }, { "%", NONE, 0 }, { "ls", SV, 4 }, { "p", PV, 0 },
    { "hhn", NV, 1 }, { "hn", NV, 2 }, { "ln", NV, 8 }, { "lln", NV, 8 }, { "jn", NV, 8 }, { "zn", NV, 8 }, { "tn", NV, 8 },
    { "x", IV, 4 }, { "X", IV, 4 }, { "o", IV, 4 }, { "u", IV, 4 }, { "i", IV, 4 }, { "hd", IV, 2 }, { "hhd", IV, 1 }, { "lld", IV, 8 }, { "jd", IV, 8 }, { "zd", IV, 8 }, { "td", IV, 8 },
    { "hx", IV, 2 }, { "hhu", IV, 1 }, { "lx", IV, 8 }, { "llX", IV, 8 }, { "ju", IV, 8 }, { "zo", IV, 8 }, { "ti", IV, 8 }, { "lu", IV, 8 },
    { "e", FV, 8 }, { "g", FV, 8 }, { "a", FV, 8 }, { "F", FV, 8 }, { "E", FV, 8 }, { "G", FV, 8 }, { "A", FV, 8 }, { "Le", FV, 16 }, { "Lg", FV, 16 }, { "La", FV, 16 }, { "LG", FV, 16 },
    { "lc", CV, 4 },
};
#define NC ((int)(sizeof convs / sizeof *convs))
#define NCLASS 17 /* the first ones are one of each class */

static size_t spos, vpos;
static void add_conv(const struct conv* c, int val, int prec)
{
    switch (c->kind) {
    case IV: { static const long long v[] = { 42, -1, 0, 0x7fffffffffffffffll, 1000000 }; arg[narg].c = I; arg[narg++].i = v[val]; break; }
    case FV: { static const long double v[] = { 2.5L, -1e30L, 0, 1.0L / 0.0L, 123456.789L }; arg[narg].c = c->sz == 16 ? LD : D; arg[narg++].d = v[val]; break; }
    case CV: { static const int v[] = { 'q', 0, '%', '~', ' ' }; arg[narg].c = I; arg[narg++].i = v[val]; break; }
    case PV: { static const long long v[] = { 0, 0x1234, -1, 7, 8 }; arg[narg].c = I; arg[narg++].i = v[val]; break; }
    case NV: arg[narg].c = P; arg[narg++].i = vpos; range(vpos, c->sz); vpos += 16 + 8; break;
    case SV: {
        if (val == 4) { arg[narg].c = P; arg[narg++].i = -1; break; }
        size_t len = (size_t[]){ 5, 0, 19, 8 }[val];
        size_t b = spos + (c->sz == 1 ? (size_t[]){ 0, 3, 5, 7 }[val] : 0);
        size_t k = prec >= 0 && prec <= (int)len ? (size_t)prec : len + 1; /* characters that may be read */
        for (size_t i = 0; i < len; i++) {
            if (c->sz == 1) eff[b + i] = i == 2 ? '%' : 'a' + i; else ((wchar_t*)(eff + b))[i] = 'k' + i;
        }
        if (k == len + 1) { if (c->sz == 1) eff[b + len] = 0; else ((wchar_t*)(eff + b))[len] = 0; }
        range(b, k * c->sz);
        arg[narg].c = P; arg[narg++].i = b;
        spos = (b + (len + 3) * c->sz + 15) & ~7ul;
        break; }
    }
}

static void finish_printf(char* f, bool quick_end)
{
    static char tmp[512];
    size_t fl = strlen(f);
    memcpy(eff + FMT, f, fl + 1);
    range(FMT, fl + 1);
    va_list ap; mkva(ap, eff, abuf[0]);
    int len = vsnprintf(tmp, sizeof tmp, f, ap);
    if (len < 0 || len > 400) mc_prune();
    int pre = mc_choose(quick_end ? 2 : NPRE);
    static const int d[] = { 1, 0, -1, 99999, -1000, 3 };
    int k = mc_choose(quick_end ? 2 : mc_tier_thorough ? 6 : 4);
    size_t n = len + d[k] < 0 ? k == 4 ? 0 : len > 3 : len + d[k];
    size_t o = n < (size_t)len + 1 ? n : (size_t)len + 1;
    range(OUT, o);
    run(PRINTF, n, pre, mc_choose(2), !quick_end && pre == PRE_NONE && mc_choose(2));
}

static void sc_single(int v)
{
    static const char* const flags[] = { "", "-", "0", "+", " ", "#", "'", "-+#", "+ 0" };
    const struct conv* c = &convs[v];
    reset();
    spos = SRC; vpos = VAR; narg = 0;
    char f[64]; int prec = -1;
    strcpy(f, "<%");
    if (c->kind != NONE && c->kind != NV) {
        strcat(f, flags[mc_choose(9)]);
        switch (mc_choose(5)) {
        case 1: strcat(f, "1"); break;
        case 2: strcat(f, "12"); break;
        case 3: strcat(f, "*"); arg[narg].c = I; arg[narg++].i = 9; break;
        case 4: strcat(f, "*"); arg[narg].c = I; arg[narg++].i = -9; break;
        }
        switch (mc_choose(6)) {
        case 1: strcat(f, "."); prec = 0; break;
        case 2: strcat(f, ".3"); prec = 3; break;
        case 3: strcat(f, ".*"); arg[narg].c = I; arg[narg++].i = prec = 8; break;
        case 4: strcat(f, ".*"); arg[narg].c = I; arg[narg++].i = -1; break;
        case 5: strcat(f, ".19"); prec = 19; break;
        }
    }
    strcat(f, c->s);
    strcat(f, ">");
    add_conv(c, c->kind == NONE || c->kind == NV ? 0 : mc_choose(mc_tier_thorough || c->kind == SV ? 5 : 3), prec);
    if (strstr(f, "%12") && mc_choose(2)) { memmove(f, f + 1, strlen(f)); }
    finish_printf(f, false);
}

/* the arguments of several conversions are told apart */
static void sc_multi(int v)
{
    reset();
    spos = SRC; vpos = VAR; narg = 0;
    char f[64] = "";
    int n = v < NCLASS ? 3 : 2;
    for (int i = 0; i < n; i++) {
        const struct conv* c = n == 2 ? &convs[i == 0 ? v - NCLASS : mc_choose(NC)] : &convs[i == 0 ? v : mc_choose(i == 1 ? 10 : 6)];
        if (i) strcat(f, ",");
        strcat(f, "%");
        strcat(f, c->s);
        add_conv(c, i == 1 && c->kind == SV ? 2 : 0, -1);
    }
    finish_printf(f, true);
}

/* -------------------------------------------------------------- scanf */
static const struct { const char* s; int sz; } sconvs[] = {
    { "%d", 4 }, { "%f", 4 }, { "%5s", 6 }, { "%*d", 0 }, { "%n", 4 }, { "%c", 1 }, { "%3[a-c]", 4 }, { "%%", 0 }, { "%lf", 8 }, { "%ld", 8 }, { "%2d", 4 }, { "%*s", 0 },
    { "%i", 4 }, { "%u", 4 }, { "%x", 4 }, { "%X", 4 }, { "%o", 4 }, { "%hd", 2 }, { "%hhd", 1 }, { "%lld", 8 }, { "%jd", 8 }, { "%zu", 8 }, { "%td", 8 }, { "%hx", 2 }, { "%hhx", 1 }, { "%hn", 2 }, { "%hhn", 1 }, { "%ln", 8 },
    { "%e", 4 }, { "%g", 4 }, { "%a", 4 }, { "%lg", 8 }, { "%Lf", 16 }, { "%Le", 16 }, { "%p", 8 }, { "%4c", 4 }, { "%2[^]]", 3 }, { "%3[]1-9]", 4 }, { "%3ls", 16 }, { "%2lc", 8 }, { "%*[^%]", 0 },
};
#define NS ((int)(sizeof sconvs / sizeof *sconvs))
static void sc_scan(int v)
{
    static const char* const in[] = { "12 34 56", "", "  ", "-7abc", "0x1f 3.25", "abc]12", "%1", "99", "1e5 xyz 0", "ccc3" };
    reset();
    narg = 0;
    char f[64] = "";
    size_t p = VAR;
    int n = v < NS ? 1 : 2;
    for (int i = 0; i < n; i++) {
        int c = n == 1 ? v : i == 0 ? v - NS : mc_choose(NS);
        if (i && mc_choose(2)) strcat(f, " ");
        strcat(f, sconvs[c].s);
        if (sconvs[c].sz) { range(p, sconvs[c].sz); arg[narg].c = P; arg[narg++].i = p; p += 32; }
    }
    const char* s = in[mc_choose(10)];
    memcpy(eff + SRC, s, strlen(s) + 1);
    range(SRC, strlen(s) + 1);
    memcpy(eff + FMT, f, strlen(f) + 1);
    range(FMT, strlen(f) + 1);
    run(SCANF, 0, mc_choose(NPRE), mc_choose(2), n == 1 && mc_choose(2));
}

/* --------------------------------------------------------------- time */
static void put_format(const char* f) { memcpy(eff + FMT, f, strlen(f) + 1); range(FMT, strlen(f) + 1); }
static const char* const tconv[] = { "%d", "%H", "%Y", "%b", "%%", "%j", "%p", "%T", "%n", "%m", /* the first ones make pairs */
    "%a", "%A", "%B", "%c", "%C", "%D", "%e", "%F", "%g", "%G", "%h", "%I", "%k", "%l", "%M", "%P", "%r", "%R", "%s", "%S", "%t", "%u", "%U", "%V", "%w", "%W", "%x", "%X", "%y", "%z", "%Z",
    "%Ec", "%EY", "%Od", "%OH", "%_d", "%-m", "%^a", "%05Y", "" };
#define NT ((int)(sizeof tconv / sizeof *tconv))
#define NTP 10
static void time_format(int v, char* f)
{
    f[0] = 0;
    if (v < NT) strcpy(f, tconv[v]);
    else { strcpy(f, tconv[(v - NT) / NTP]); strcat(f, mc_choose(2) ? "-" : ""); strcat(f, tconv[(v - NT) % NTP]); }
}
static const struct tm tms[] = {
    { 7, 8, 9, 10, 3, 118, 2, 99, 0, 0, "UTC" }, { 59, 59, 23, 31, 11, 99, 5, 364, 0, 0, "UTC" }, { 0, 0, 0, 1, 0, 0, 1, 0, 1, 3600, "CET" },
    { 60, 0, 12, 29, 1, 100, 2, 59, -1, -12600, "" }, { 0, 30, 1, 5, 6, -1901, 0, 185, 0, 0, "UTC" },
};
static void sc_ftime(int v)
{
    char f[64];
    static char tmp[512];
    reset();
    narg = 0;
    time_format(v, f);
    put_format(f);
    struct tm t = tms[mc_choose(5)];
    memcpy(eff + VAR, &t, sizeof t);
    range(VAR, sizeof t);
    size_t len = strftime(tmp, sizeof tmp, f, &t);
    static const int d[] = { 1, 0, 40, -1000, -1, 2 };
    int k = mc_choose(mc_tier_thorough ? 6 : 4);
    size_t n = (long)len + d[k] < 0 ? 0 : len + d[k];
    if (mc_tier_thorough && k == 3) n = 1;
    range(OUT, n);
    int pre = mc_choose(NPRE);
    bool ab = mc_choose(2);
    run(mc_choose(2) ? FTIME_L : FTIME, n, pre, ab, false);
}
static void sc_ptime(int v)
{
    static const char* const in[] = { "10 20", "2018-04-10", "10-Apr", "23:59:60 pm", "", "Tue Apr 10 09:08:07 2018", "%100", "April%", "  7", "12/31/99 +0130", "-1", "1700000000" };
    char f[64];
    reset();
    narg = 0;
    time_format(v, f);
    put_format(f);
    struct tm t = tms[mc_choose(2)];
    memcpy(eff + VAR, &t, sizeof t);
    range(VAR, sizeof t);
    const char* s = in[mc_choose(12)];
    memcpy(eff + SRC, s, strlen(s) + 1);
    range(SRC, strlen(s) + 1);
    int pre = mc_choose(NPRE);
    run(PTIME, 0, pre, mc_choose(2), false);
}

/* the variadic variants */
static void sc_variadic(int v)
{
    static char a[64], b[64], s[8];
    static int i, j, r1, r2, got, st;
    static double d, e;
    memset(a, '.', sizeof a); memset(b, '.', sizeof b);
    strcpy(s, "text");
    st = -1; d = e = 0; i = j = 0;
    static int s_v; s_v = v;
    static size_t n; n = mc_choose(2) ? 64 : 9;
    static bool ab; ab = mc_choose(2);
    mc_ctx("variadic %d", v);
    r1 = v < 2 ? snprintf(b, n, "%d %s %5.1f %c|%-4ld", 7, s, 2.25, 'x', -3L) : sscanf("12 text 2.5 q", "%d %5s %lf %c", &j, b, &e, b + 32);
    picotm_begin
        switch (s_v) {
        case 0: got = snprintf_tx(a, n, "%d %s %5.1f %c|%-4ld", 7, s, 2.25, 'x', -3L); break;
        case 1: privatize_tx(a, sizeof a, PICOTM_TM_PRIVATIZE_LOADSTORE); got = snprintf_tm(a, n, "%d %s %5.1f %c|%-4ld", 7, s, 2.25, 'x', -3L); break;
        case 2: got = sscanf_tx("12 text 2.5 q", "%d %5s %lf %c", &i, a, &d, a + 32); break;
        case 3: privatize_tx(a, sizeof a, PICOTM_TM_PRIVATIZE_LOADSTORE); privatize_tx(&i, sizeof i, PICOTM_TM_PRIVATIZE_LOADSTORE); privatize_tx(&d, sizeof d, PICOTM_TM_PRIVATIZE_LOADSTORE);
            got = sscanf_tm("12 text 2.5 q", "%d %5s %lf %c", &i, a, &d, a + 32); break;
        }
        if (ab) picotm_recover_from_errno(EDOM);
    picotm_commit
        st = picotm_error_as_errno();
    picotm_end
    mc_check(st == (ab ? EDOM : -1), "unexpected error", "the transaction ends with error %d", st);
    mc_check(got == r1, "result", "returns %d, expected %d", got, r1);
    if (ab) { for (int k = 0; k < 64; k++) mc_check(a[k] == '.', "abort", "byte %d is %d after an abort", k, a[k]); mc_check(!i && !d, "abort", "results remain after an abort"); }
    else { mc_check(!memcmp(a, b, 64), "memory", "buffer holds '%.40s', expected '%.40s'", a, b); mc_check(i == j && d == e, "memory", "other results"); }
    (void)r2;
    mc_cases(1);
}

static const struct mc_scenario sc[] = {
    { "single", sc_single, NC, MC_NOPREEMPT | MC_INPROC, 0, 0, 25, 200, "every conversion and length modifier with all flags, widths and precisions, sizes around the length, own writes, commit and abort" },
    { "multi", sc_multi, NCLASS + NC, MC_NOPREEMPT | MC_INPROC, 0, 0, 20, 200, "pairs of all and triples of representative conversions" },
    { "scan", sc_scan, 2 * NS, MC_NOPREEMPT | MC_INPROC, 0, 0, 20, 200, "formatted input: every conversion and all pairs, over ten inputs" },
    { "strftime", sc_ftime, NT + NTP * NTP, MC_NOPREEMPT | MC_INPROC, 0, 0, 10, 60, "strftime and strftime_l: every conversion and pairs, five times, sizes around the length, own writes, commit and abort" },
    { "strptime", sc_ptime, NT + NTP * NTP, MC_NOPREEMPT | MC_INPROC, 0, 0, 10, 60, "strptime: every conversion and pairs, over twelve inputs" },
    { "variadic", sc_variadic, 4, MC_NOPREEMPT | MC_INPROC, 0, 0, 5, 5, "the functions with variable arguments" },
};
const char* __asan_default_options(void) { return "check_printf=0"; }
int main(int argc, char* argv[])
{
    static const char* const as[] = { "x86-64 argument passing; arguments that are passed in registers are covered by the variadic scenario only",
        "the string tm_zone points to is constant", "the start of an accessible range is watched to 8 bytes, its end exactly", NULL };
    clocale = newlocale(LC_ALL_MASK, "C", NULL);
    return mc_main(argc, argv, "P31", sc, sizeof sc / sizeof *sc, as);
}
