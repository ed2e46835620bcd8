/* P27: transactional math functions match libm and report math errors */
#include "mc.h"
#include "picotm/picotm.h"
#include "picotm/math.h"
#include "picotm/complex.h"
#include "picotm/picotm-libm.h"
#include "picotm/picotm-module.h"
#include <complex.h>
#include <errno.h>
#include <fenv.h>
#include <float.h>
#include <math.h>
#include <string.h>
#include <stdlib.h>

static const long double vals[] = { 0.0L, -0.0L, 1, -1, 0.5L, -0.5L, 2, -2, 3, -3, 0.75L, 1.5L, -1.5L, 2.5L, 10, -10.25L, 100, -100, 89, 710, -750, 1e-5L, -1e-5L,
    3.14159265358979323846L, 1.57079632679489661923L, 1e18L, 9.3e18L, -9.3e18L, 4e9L, 1e22L, FLT_MIN, FLT_MIN / 4, -FLT_MIN / 4, FLT_MAX, -FLT_MAX, DBL_MIN, DBL_MIN / 4, -DBL_MIN / 4, DBL_MAX, -DBL_MAX,
    LDBL_MIN, LDBL_MAX, -LDBL_MAX, INFINITY, -INFINITY, NAN, 1 + FLT_EPSILON, 1 - DBL_EPSILON, 170.5L, 171.7L, -170.5L, 11356.5L, -11400, 1024, 128, -1075 };
#define NV ((int)(sizeof vals / sizeof *vals))
static const int few[] = { 0, 1, 2, 3, 4, 6, 14, 19, 25, 32, 33, 36, 38, 41, 42, 43, 44, 45 };
#define NFEW ((int)(sizeof few / sizeof *few))
#define ALLX (FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW | FE_INEXACT)
#define HARD (FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW)

/* contexts: 0 clean, 1 all exception flags and errno left over from before the
 * transaction, 2 another operation of the same transaction raised inexact, 3
 * clean and the transaction is aborted afterwards */
static int ctxt;
static volatile int recovered, rec_err, aborting;
static int want_errno, want_fe, pre_fe;
static int no_fe; /* complex functions: no floating-point error handling */
enum { PRE_ERRNO = 77 };

static void before(void)
{
    feclearexcept(FE_ALL_EXCEPT);
    errno = 0;
    recovered = rec_err = aborting = 0;
    if (ctxt == 1) { feraiseexcept(ALLX); errno = PRE_ERRNO; }
    if (ctxt == 3) { feraiseexcept(FE_DIVBYZERO); errno = PRE_ERRNO; }
    pre_fe = fetestexcept(ALLX);
}

static void inside(void)
{
    if (ctxt == 2) { volatile double x = sqrt_tx(2.0); (void)x; volatile float y = 1e-30f; y = y * y; (void)y; }
}

static void end_of_tx(void)
{
    if (ctxt == 3) { aborting = 1; picotm_recover_from_error_code(PICOTM_GENERAL_ERROR); }
}

static void rec(const char* f)
{
    int fe = fetestexcept(ALLX), e = errno;
    if (!aborting) {
        recovered = 1;
        mc_check(picotm_error_status() == PICOTM_ERRNO, f, "%s: error status %d", f, (int)picotm_error_status());
        rec_err = picotm_error_as_errno();
        mc_check(rec_err == EDOM || rec_err == ERANGE, f, "%s reports errno %d", f, rec_err);
    }
    mc_check(!picotm_error_is_non_recoverable(), f, "%s: non-recoverable error", f);
    if (ctxt != 2 && !no_fe) mc_check((fe & ~FE_INEXACT) == (pre_fe & ~FE_INEXACT), "fp flags", "%s: floating-point flags %x after the abort, %x before", f, fe, pre_fe);
    if (!no_fe) mc_check(e == (ctxt == 1 || ctxt == 3 ? PRE_ERRNO : 0), "errno", "%s: errno %d after the abort", f, e);
}

/* called right after the reference call; returns nothing */
static void ref_begin(void) { feclearexcept(FE_ALL_EXCEPT); errno = 0; }
static void ref_end(void) { want_errno = errno; want_fe = fetestexcept(ALLX); }

static void judge(const char* f, int same, const char* args)
{
    mc_cases(1);
    if (want_errno || (want_fe & HARD)) {
        mc_check(recovered, f, "%s_tx(%s): libm signals an error (errno %d, flags %x), the transaction does not", f, args, want_errno, want_fe);
        if (want_errno) mc_check(rec_err == want_errno, f, "%s_tx(%s) reports errno %d, libm %d", f, args, rec_err, want_errno);
        else mc_check(rec_err == ((want_fe & FE_INVALID) ? EDOM : ERANGE), f, "%s_tx(%s) reports errno %d for flags %x", f, args, rec_err, want_fe);
        return;
    }
    if (!(want_fe & FE_UNDERFLOW))
        mc_check(!recovered, f, "%s_tx(%s) enters recovery (errno %d), libm signals no error", f, args, rec_err);
    if (!recovered) mc_check(same, f, "%s_tx(%s) returns a different value than libm", f, args);
}

static int size10(size_t n) { return n == 16 ? 10 : n; }
#define SAME(a_, b_) (((a_) != (a_) && (b_) != (b_)) || !memcmp((const void*)&(a_), (const void*)&(b_), size10(sizeof(a_))))
#define SAMEI(a_, b_) ((a_) == (b_))

#define TX(body_, f_) before(); picotm_begin inside(); body_; end_of_tx(); picotm_commit rec(f_); picotm_end

#define F1(n_, r_, t_) static void chk_##n_(void) { \
    for (int i = 0; i < NV; i++) { \
        volatile t_ x = (t_)vals[i]; volatile r_ w; static volatile r_ r; char a[80]; \
        ref_begin(); w = n_(x); ref_end(); \
        TX(r = n_##_tx(x), #n_) \
        sprintf(a, "%.21Lg", (long double)x); r_ rr = r, ww = w; \
        judge(#n_, _Generic(rr, float: SAME(rr, ww), double: SAME(rr, ww), long double: SAME(rr, ww), default: SAMEI(rr, ww)), a); \
    } }
#define F2(n_, r_, t_, u_) static void chk_##n_(void) { \
    for (int i = 0; i < NV; i++) for (int j = 0; j < NV; j++) { \
        volatile t_ x = (t_)vals[i]; volatile u_ y = (u_)vals[j]; volatile r_ w; static volatile r_ r; char a[160]; \
        ref_begin(); w = n_(x, y); ref_end(); \
        TX(r = n_##_tx(x, y), #n_) \
        sprintf(a, "%.21Lg, %.21Lg", (long double)x, (long double)y); r_ rr = r, ww = w; \
        /* the sign of the result is unspecified for fmax(0, -0) and fmin(0, -0) */ \
        int zeros = x == 0 && y == 0 && (!strncmp(#n_, "fmax", 4) || !strncmp(#n_, "fmin", 4)); \
        judge(#n_, zeros ? rr == 0 : SAME(rr, ww), a); \
    } }
#define F3(n_, t_) static void chk_##n_(void) { \
    for (int i = 0; i < NFEW; i++) for (int j = 0; j < NFEW; j++) for (int k = 0; k < NFEW; k++) { \
        volatile t_ x = (t_)vals[few[i]], y = (t_)vals[few[j]], z = (t_)vals[few[k]]; volatile t_ w; static volatile t_ r; char a[240]; \
        ref_begin(); w = n_(x, y, z); ref_end(); \
        TX(r = n_##_tx(x, y, z), #n_) \
        sprintf(a, "%.21Lg, %.21Lg, %.21Lg", (long double)x, (long double)y, (long double)z); t_ rr = r, ww = w; judge(#n_, SAME(rr, ww), a); \
    } }
static const long ns[] = { 0, 1, -1, 2, 10, -10, 100, 127, 128, -126, -150, 1023, 1024, -1074, -1100, 16383, 16400, -16500, 40000, -40000, 2147483647, -2147483647 - 1, 1L << 40, -(1L << 40) };
#define FN(n_, t_, i_) static void chk_##n_(void) { \
    for (int i = 0; i < NV; i++) for (unsigned j = 0; j < sizeof ns / sizeof *ns; j++) { \
        volatile t_ x = (t_)vals[i]; volatile i_ y = (i_)ns[j]; volatile t_ w; static volatile t_ r; char a[160]; \
        ref_begin(); w = n_(x, y); ref_end(); \
        TX(r = n_##_tx(x, y), #n_) \
        sprintf(a, "%.21Lg, %ld", (long double)x, (long)y); t_ rr = r, ww = w; judge(#n_, SAME(rr, ww), a); \
    } }
#define FJN(n_) static void chk_##n_(void) { \
    for (int i = 0; i < NV; i++) for (int j = 0; j < 6; j++) { \
        volatile double x = (double)vals[i]; static volatile double r; volatile double w; char a[160]; \
        ref_begin(); w = n_(j - 2, x); ref_end(); \
        TX(r = n_##_tx(j - 2, x), #n_) \
        sprintf(a, "%d, %.21Lg", j - 2, (long double)x); double rr = r, ww = w; judge(#n_, SAME(rr, ww), a); \
    } }
#define OUTARG(n_, t_, o_, call_, ref_) static void chk_##n_(void) { \
    for (int i = 0; i < NV; i++) for (int j = 0; j < YN; j++) { \
        volatile t_ x = (t_)vals[i]; volatile t_ y = (t_)vals[j]; (void)y; volatile t_ w; static volatile t_ r; char a[160]; \
        static struct { long double g; o_ v; long double h; } m; o_ wo, io; memset(&m, 0, sizeof m); m.v = io = 42; m.g = m.h = 5; wo = 0; \
        ref_begin(); w = ref_; ref_end(); \
        TX(r = call_, #n_) \
        sprintf(a, "%.21Lg, %.21Lg", (long double)x, (long double)y); t_ rr = r, ww = w; \
        judge(#n_, SAME(rr, ww), a); \
        if (recovered || aborting) mc_check(SAME(m.v, io), "result argument", #n_ "_tx(%s): result argument changed by an aborted transaction", a); \
        else mc_check(SAME(m.v, wo), #n_, #n_ "_tx(%s): different result argument", a); \
        mc_check(m.g == 5 && m.h == 5, "neighbours", #n_ "_tx changes memory beside its result argument"); \
    } }
#define YN 1
#define FREXP(n_, t_) OUTARG(n_, t_, int, n_##_tx(x, &m.v), n_(x, &wo))
#define MODF(n_, t_) OUTARG(n_, t_, t_, n_##_tx(x, &m.v), n_(x, &wo))
#define REMQUO(n_, t_) REMQUO2(n_, t_)
#define REMQUO2(n_, t_) OUTARG2(n_, t_, int, n_##_tx(x, y, &m.v), n_(x, y, &wo))
#define OUTARG2(n_, t_, o_, call_, ref_) static void chk_##n_(void) { \
    for (int i = 0; i < NV; i++) for (int j = 0; j < NV; j++) { \
        volatile t_ x = (t_)vals[i]; volatile t_ y = (t_)vals[j]; volatile t_ w; static volatile t_ r; char a[160]; \
        static struct { long double g; o_ v; long double h; } m; o_ wo, io; memset(&m, 0, sizeof m); m.v = io = 42; m.g = m.h = 5; wo = 0; \
        ref_begin(); w = ref_; ref_end(); \
        TX(r = call_, #n_) \
        sprintf(a, "%.21Lg, %.21Lg", (long double)x, (long double)y); t_ rr = r, ww = w; \
        judge(#n_, SAME(rr, ww), a); \
        if (recovered || aborting) mc_check(SAME(m.v, io), "result argument", #n_ "_tx(%s): result argument changed by an aborted transaction", a); \
        else if (ww == ww) mc_check(SAME(m.v, wo), #n_, #n_ "_tx(%s): different result argument", a); \
        mc_check(m.g == 5 && m.h == 5, "neighbours", #n_ "_tx changes memory beside its result argument"); \
    } }
#define NAN_(n_, t_) static void chk_##n_(void) { \
    static const char* const tag[] = { "", "1", "0x7ff", "foo" }; \
    for (int i = 0; i < 4; i++) { static volatile t_ r; volatile t_ w; ref_begin(); w = n_(tag[i]); ref_end(); \
        TX(r = n_##_tx(tag[i]), #n_) \
        t_ rr = r, ww = w; judge(#n_, !memcmp(&rr, &ww, size10(sizeof rr)), tag[i]); } }
static int cval(int i) { return few[i]; }
#define C1(n_, r_, t_) static void chk_##n_(void) { no_fe = 1; \
    for (int i = 0; i < NFEW; i++) for (int j = 0; j < NFEW; j++) { \
        volatile t_ complex x = CMPLXL((t_)vals[cval(i)], (t_)vals[cval(j)]); volatile r_ w; static volatile r_ r; \
        w = n_(x); \
        TX(r = n_##_tx(x), #n_) \
        t_ a = creall(r), b = creall(w), c = cimagl(r), d = cimagl(w); \
        mc_cases(1); \
        mc_check(recovered || aborting || (SAME(a, b) && SAME(c, d)), #n_, #n_ "_tx(%Lg + %Lgi) returns a different value than libm", vals[cval(i)], vals[cval(j)]); \
        mc_check(!recovered, #n_, #n_ "_tx enters recovery"); \
    } }
#define C2(n_, t_) static void chk_##n_(void) { no_fe = 1; \
    for (int i = 0; i < NFEW * NFEW; i++) for (int j = 0; j < NFEW * NFEW; j += 7) { \
        volatile t_ complex x = CMPLXL((t_)vals[cval(i / NFEW)], (t_)vals[cval(i % NFEW)]), y = CMPLXL((t_)vals[cval(j / NFEW)], (t_)vals[cval(j % NFEW)]); volatile t_ complex w; static volatile t_ complex r; \
        w = n_(x, y); \
        TX(r = n_##_tx(x, y), #n_) \
        t_ a = creall(r), b = creall(w), c = cimagl(r), d = cimagl(w); \
        mc_cases(1); \
        mc_check(recovered || aborting || (SAME(a, b) && SAME(c, d)), #n_, #n_ "_tx returns a different value than libm"); \
        mc_check(!recovered, #n_, #n_ "_tx enters recovery"); \
    } }
#include "p27_fns.h"
#undef F1
#undef F2
#undef F3
#undef FN
#undef FJN
#undef FREXP
#undef MODF
#undef REMQUO
#undef NAN_
#undef C1
#undef C2
#define E_(n_) { #n_, chk_##n_ },
#define F1(n_, r_, t_) E_(n_)
#define F2(n_, r_, t_, u_) E_(n_)
#define F3(n_, t_) E_(n_)
#define FN(n_, t_, i_) E_(n_)
#define FJN(n_) E_(n_)
#define FREXP(n_, t_) E_(n_)
#define MODF(n_, t_) E_(n_)
#define REMQUO(n_, t_) E_(n_)
#define NAN_(n_, t_) E_(n_)
#define C1(n_, r_, t_) E_(n_)
#define C2(n_, t_) E_(n_)
static const struct { const char* n; void (*f)(void); } tab[] = {
#include "p27_fns.h"
};
#define NT ((int)(sizeof tab / sizeof *tab))

static void sc_math(int v)
{
    int i = mc_choose(NT);
    ctxt = v;
    mc_ctx("%s", tab[i].n);
    mc_note("%s, context %d", tab[i].n, v);
    tab[i].f();
    mc_outcome(i);
}

static const struct mc_scenario sc[] = {
    { "math", sc_math, 4, MC_NOPREEMPT, 0, 0, 100, 100, "every libm function x argument values, arguments pairwise and in triples x clean, stale flags and errno, other operations before, aborted" },
};

int main(int argc, char* argv[])
{
    static const char* const as[] = { "the reference is the installed libm, called with cleared flags and errno outside of transactions", "an underflow flag without errno may or may not be reported",
        "complex functions have no error handling; only their results are compared, their floating-point flags and errno after an abort are not", NULL };
    return mc_main(argc, argv, "P27", sc, sizeof sc / sizeof *sc, as);
}
