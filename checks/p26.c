/* P26: transactional arithmetic returns the exact result or reports an error */
#include "mc.h"
#include "ivals.h"
#include "picotm/picotm.h"
#include "picotm/picotm-arithmetic.h"
#include "picotm/picotm-arithmetic-ctypes.h"
#include <errno.h>
#include <float.h>
#include <math.h>
#include <string.h>

static volatile int recovered;
static volatile int rec_errno;

static void rec_check(const char* f)
{
    recovered = 1;
    mc_check(picotm_error_status() == PICOTM_ERRNO, f, "%s reports status %d", f, (int)picotm_error_status());
    mc_check(!picotm_error_is_non_recoverable(), f, "%s reports a non-recoverable error", f);
    rec_errno = picotm_error_as_errno();
}

#define LO(t_) ((((t_)-1) < 0) ? -((i128)1 << (sizeof(t_) * 8 - 1)) : 0)
#define HI(t_) ((t_)2 == 1 ? 1 : ((((t_)-1) < 0) ? ((i128)1 << (sizeof(t_) * 8 - 1)) - 1 : ((i128)1 << (sizeof(t_) * 8)) - 1))

/* exact result; returns errno of the expected error */
static int ref(int op, i128 a, i128 b, i128 lo, i128 hi, i128* r)
{
    switch (op) {
    case 0: *r = a + b; break;
    case 1: *r = a - b; break;
    case 2: *r = 0;
        if (__builtin_mul_overflow(a, b, r)) return ERANGE;
        break;
    case 3: if (!b) return EDOM; *r = a / b; break;
    }
    return *r < lo || *r > hi ? ERANGE : 0;
}

static i128 va[70000];
static int na;

static void check(const char* f, int op, i128 a, i128 b, i128 got, i128 lo, i128 hi)
{
    i128 want;
    char x[50], y[50], z[50], w[50];
    int e = ref(op, a, b, lo, hi, &want);
    if (e) mc_check(recovered && rec_errno == e, f, recovered ? "%s_tx(%s, %s) reports errno %d instead of %d" : "%s_tx(%s, %s) returns normally instead of an error", f, istr(a, x), istr(b, y), rec_errno, e);
    else {
        mc_check(!recovered, f, "%s_tx(%s, %s) is rejected, although the result is %s", f, istr(a, x), istr(b, y), istr(want, z));
        mc_check(got == want, f, "%s_tx(%s, %s) returns %s instead of %s", f, istr(a, x), istr(b, y), istr(got, w), istr(want, z));
    }
}

#define OP1(op_, opn_, n_, t_, a_, b_) { \
    static volatile t_ r; recovered = 0; \
    picotm_begin r = opn_##_##n_##_tx((t_)(a_), (t_)(b_)); picotm_commit rec_check(#opn_ "_" #n_); picotm_end \
    check(#opn_ "_" #n_, op_, (i128)(t_)(a_), (i128)(t_)(b_), (i128)r, LO(t_), HI(t_)); }
#define INT(n_, t_) \
static void f_##n_(int op, int part, int parts) { \
    int bits = sizeof(t_) * 8, sgn = ((t_)-1) < 0; \
    if ((t_)2 == 1) { niv = na = 0; va[na++] = 0; va[na++] = 1; iv[niv++] = 0; iv[niv++] = 1; } \
    else { iv_make(bits, sgn, 1, bits == 16 ? 1 : 3); memcpy(va, iv, sizeof iv); na = niv; \
        if (bits == 16) iv_make(bits, sgn, 0, 2); \
        else if (bits > 16) { iv_make(bits, sgn, 0, mc_tier_thorough ? 6 : 2); memcpy(va, iv, sizeof iv); na = niv; } } \
    for (int i = part; i < na; i += parts) \
        for (int j = 0; j < niv; j++) { \
            switch (op) { \
            case 0: OP1(0, add, n_, t_, va[i], iv[j]) break; \
            case 1: OP1(1, sub, n_, t_, va[i], iv[j]) break; \
            case 2: OP1(2, mul, n_, t_, va[i], iv[j]) break; \
            case 3: OP1(3, div, n_, t_, va[i], iv[j]) break; \
            } \
            if (bits == 16) switch (op) { \
            case 0: OP1(0, add, n_, t_, iv[j], va[i]) break; \
            case 1: OP1(1, sub, n_, t_, iv[j], va[i]) break; \
            case 2: OP1(2, mul, n_, t_, iv[j], va[i]) break; \
            case 3: OP1(3, div, n_, t_, iv[j], va[i]) break; \
            } \
        } \
    mc_cases((uint64_t)niv * (na / parts)); }
INT(_Bool, _Bool)
INT(char, char)
INT(schar, signed char)
INT(uchar, unsigned char)
INT(short, short)
INT(ushort, unsigned short)
INT(int, int)
INT(uint, unsigned int)
INT(long, long)
INT(ulong, unsigned long)
INT(llong, long long)
INT(ullong, unsigned long long)

/* floating point: finite operands; results next to the limit of the range
 * (within a few units in the last place) are not judged */
#define FLOATS(n_, t_, max_, min_, eps_) \
static void f_##n_(int op, int part, int parts) { \
    static t_ v[400]; int n = 0; \
    static const t_ m[] = { 1, 1.5, 1.25, 3, 7, 1 + (eps_), 2 - (eps_) }; \
    v[n++] = 0; \
    for (int s = -1; s <= 1; s += 2) { \
        for (unsigned k = 0; k < sizeof m / sizeof *m; k++) v[n++] = s * m[k]; \
        static const t_ x[] = { (max_), (max_) / 2, (max_) / 3, (max_) / 2 * (1 + (eps_)), (max_) / 4 * 3, (max_) / 7, (min_), (min_) * 2, (min_) * 3, (eps_), 1e-3, 0.5, 0.25, 0.75, 1 - (eps_), 100, 1e10, 1e18, 1e19, 1e-18, 1e-20, 12345.678 }; \
        for (unsigned k = 0; k < sizeof x / sizeof *x; k++) v[n++] = s * x[k]; \
        t_ rt = 1; while (rt * 2 < (max_) / rt) rt *= 2; \
        v[n++] = s * rt; v[n++] = s * rt * 2; v[n++] = s * rt / 2; v[n++] = s * rt * 1.5; v[n++] = s / rt; v[n++] = s / rt / 2; \
    } \
    for (int i = part; i < n; i += parts) for (int j = 0; j < n; j++) { \
        static volatile t_ r; volatile t_ a = v[i], b = v[j], want = 0, half = 0; recovered = 0; \
        const char* nm = ""; \
        switch (op) { \
        case 0: nm = "add_" #n_; want = a + b; half = a / 4 + b / 4; picotm_begin r = add_##n_##_tx(a, b); picotm_commit rec_check(nm); picotm_end break; \
        case 1: nm = "sub_" #n_; want = a - b; half = a / 4 - b / 4; picotm_begin r = sub_##n_##_tx(a, b); picotm_commit rec_check(nm); picotm_end break; \
        case 2: nm = "mul_" #n_; want = a * b; half = (a < 1 && a > -1) ? a * (b / 4) : a / 4 * b; picotm_begin r = mul_##n_##_tx(a, b); picotm_commit rec_check(nm); picotm_end break; \
        case 3: nm = "div_" #n_; if (b != 0) { want = a / b; half = a / 4 / b; } picotm_begin r = div_##n_##_tx(a, b); picotm_commit rec_check(nm); picotm_end break; \
        } \
        mc_cases(1); \
        if (op == 3 && b == 0) { mc_check(recovered && rec_errno == EDOM, nm, "%s_tx(%Lg, 0) is accepted", nm, (long double)a); continue; } \
        t_ lim = (max_) / 4, ah = half < 0 ? -half : half; \
        if (ah > lim * (1 - 8 * (eps_)) && ah < lim * (1 + 8 * (eps_))) { if (!recovered) mc_check(r == want, nm, "%s_tx(%Lg, %Lg) returns another value", nm, (long double)a, (long double)b); continue; } \
        if (ah > lim) mc_check(recovered && rec_errno == ERANGE, nm, "%s_tx(%.20Lg, %.20Lg) returns %Lg instead of a range error", nm, (long double)a, (long double)b, (long double)r); \
        else { mc_check(!recovered, nm, "%s_tx(%.20Lg, %.20Lg) is rejected, although the result is %Lg", nm, (long double)a, (long double)b, (long double)want); \
               mc_check(r == want, nm, "%s_tx(%.20Lg, %.20Lg) returns %Lg instead of %Lg", nm, (long double)a, (long double)b, (long double)r, (long double)want); } \
    } }
FLOATS(float, float, FLT_MAX, FLT_MIN, FLT_EPSILON)
FLOATS(double, double, DBL_MAX, DBL_MIN, DBL_EPSILON)
FLOATS(ldouble, long double, LDBL_MAX, LDBL_MIN, LDBL_EPSILON)

#define E(n_) { #n_, f_##n_ }
static const struct { const char* n; void (*f)(int, int, int); } tab[] = { E(_Bool), E(char), E(schar), E(uchar), E(short), E(ushort), E(int), E(uint), E(long), E(ulong), E(llong), E(ullong), E(float), E(double), E(ldouble) };
#define NT ((int)(sizeof tab / sizeof *tab))
#define PARTS 16

static void sc_arith(int v)
{
    static const char* const on[] = { "add", "sub", "mul", "div" };
    int op = mc_choose(4), part = mc_choose(PARTS);
    mc_ctx("%s %s", on[op], tab[v].n);
    mc_note("%s %s, part %d of %d", on[op], tab[v].n, part, PARTS);
    tab[v].f(op, part, PARTS);
    mc_outcome(op * PARTS + part);
}

static const struct mc_scenario sc[] = {
    { "arithmetic", sc_arith, NT, MC_NOPREEMPT, 0, 0, 100, 800, "add, sub, mul, div for every C type: 8 bit exhaustively, 16 bit all values against boundary values, wider types boundary values against boundary values" },
};

int main(int argc, char* argv[])
{
    static const char* const as[] = { "8-bit operand pairs exhaustively, 16-bit: all x boundary values, wider: pairs of values near powers of two, limits, thirds and the square root of the limit",
        "floating point: finite operands; results within 8 ulp of the range limit are not judged", NULL };
    return mc_main(argc, argv, "P26", sc, sizeof sc / sizeof *sc, as);
}
