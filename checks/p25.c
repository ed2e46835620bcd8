/* P25: transactional casts preserve the value or report out-of-range */
#include "mc.h"
#include "ivals.h"
#include "picotm/picotm.h"
#include "picotm/picotm-cast.h"
#include "picotm/picotm-cast-ctypes.h"
#include <errno.h>
#include <float.h>
#include <math.h>
#include <string.h>

static volatile int recovered, attempts;

static void rec_check(const char* f)
{
    recovered = 1;
    mc_check(picotm_error_status() == PICOTM_ERRNO && picotm_error_as_errno() == ERANGE, f,
             "%s reports status %d, errno %d instead of ERANGE", f, (int)picotm_error_status(), picotm_error_as_errno());
    mc_check(!picotm_error_is_non_recoverable(), f, "%s reports a non-recoverable error", f);
}

#define INTYPE(t_) ((((t_)-1) < 0) ? -((i128)1 << (sizeof(t_) * 8 - 1)) : 0), (sizeof(t_) == 1 && (t_)2 == 1) ? 1 : ((((t_)-1) < 0) ? ((i128)1 << (sizeof(t_) * 8 - 1)) - 1 : ((i128)1 << (sizeof(t_) * 8)) - 1)

static int is_bool(int two) { return two == 1; }

static void values(int size, int sgn, int boolean)
{
    if (boolean) { niv = 0; iv[niv++] = 0; iv[niv++] = 1; return; }
    iv_make(size * 8, sgn, 1, 5);
}

#define II(sn_, st_, dn_, dt_) \
static void f_##sn_##_##dn_(void) { \
    const i128 lim[2] = { INTYPE(dt_) }; \
    values(sizeof(st_), ((st_)-1) < 0, is_bool((int)(st_)2)); \
    for (int i = 0; i < niv; i++) { \
        static volatile dt_ r; st_ v = (st_)iv[i]; char b[50], c[50]; \
        recovered = 0; \
        picotm_begin r = cast_##sn_##_to_##dn_##_tx(v); picotm_commit rec_check("cast_" #sn_ "_to_" #dn_); picotm_end \
        int fits = iv[i] >= lim[0] && iv[i] <= lim[1]; \
        if (fits) { mc_check(!recovered, "rejects " #sn_ " to " #dn_, "cast_" #sn_ "_to_" #dn_ "_tx(%s) is rejected", istr(iv[i], b)); \
                    mc_check((i128)r == iv[i], "value " #sn_ " to " #dn_, "cast_" #sn_ "_to_" #dn_ "_tx(%s) returns %s", istr(iv[i], b), istr((i128)r, c)); } \
        else mc_check(recovered, "accepts " #sn_ " to " #dn_, "cast_" #sn_ "_to_" #dn_ "_tx(%s) returns %s instead of an error", istr(iv[i], b), istr((i128)r, c)); \
        mc_cases(1); \
    } }
#define IF(sn_, st_, dn_, dt_) \
static void f_##sn_##_##dn_(void) { \
    values(sizeof(st_), ((st_)-1) < 0, is_bool((int)(st_)2)); \
    for (int i = 0; i < niv; i++) { \
        static volatile dt_ r; st_ v = (st_)iv[i]; char b[50]; \
        recovered = 0; \
        picotm_begin r = cast_##sn_##_to_##dn_##_tx(v); picotm_commit rec_check("cast_" #sn_ "_to_" #dn_); picotm_end \
        mc_check(!recovered && r == (dt_)v, "value " #sn_ " to " #dn_, "cast_" #sn_ "_to_" #dn_ "_tx(%s) %s", istr(iv[i], b), recovered ? "is rejected" : "returns another value"); \
        mc_cases(1); \
    } }
static const long double fv[] = { 0, -0.0L, 1, -1, 0.5L, 1.5L, 3.14159265358979323846L, FLT_MIN, FLT_MAX, -FLT_MAX, FLT_EPSILON, DBL_MIN, DBL_MAX, -DBL_MAX, LDBL_MAX, -LDBL_MAX,
    2.0L * FLT_MAX, -2.0L * FLT_MAX, 2.0L * DBL_MAX, -2.0L * DBL_MAX, 1e30L, 1e38L, 1e39L, -1e39L, 1e300L, 1e308L, 1e309L, -1e309L, 1e4000L, 16777216, 16777217, 9007199254740993.0L };
#define FF(sn_, st_, dn_, dt_) \
static void f_##sn_##_##dn_(void) { \
    for (unsigned i = 0; i < sizeof fv / sizeof *fv; i++) { \
        static volatile dt_ r; st_ v = (st_)fv[i]; \
        if (isinf(v) || isnan(v)) continue; \
        recovered = 0; \
        picotm_begin r = cast_##sn_##_to_##dn_##_tx(v); picotm_commit rec_check("cast_" #sn_ "_to_" #dn_); picotm_end \
        int fits = !isinf((dt_)v); \
        if (fits) mc_check(!recovered && r == (dt_)v, "value " #sn_ " to " #dn_, "cast_" #sn_ "_to_" #dn_ "_tx(%Lg) %s", (long double)v, recovered ? "is rejected" : "returns another value"); \
        else mc_check(recovered, "accepts " #sn_ " to " #dn_, "cast_" #sn_ "_to_" #dn_ "_tx(%Lg) returns %Lg instead of an error", (long double)v, (long double)r); \
        mc_cases(1); \
    } }
#include "p25_pairs.h"
#undef II
#undef IF
#undef FF
#define II(sn_, st_, dn_, dt_) { #sn_ " to " #dn_, f_##sn_##_##dn_ },
#define IF II
#define FF II
static const struct { const char* n; void (*f)(void); } tab[] = {
#include "p25_pairs.h"
};
#define NT ((int)(sizeof tab / sizeof *tab))

static void sc_cast(int v)
{
    (void)v;
    int i = mc_choose(NT);
    mc_ctx("%s", tab[i].n);
    mc_note("cast %s", tab[i].n);
    tab[i].f();
    mc_outcome(i);
}

/* a failing cast rolls back everything else in the transaction, exactly once;
 * the next transaction works */
#include "picotm/picotm-module.h"
static volatile int undone, applied;
static void ev_apply(uint16_t h, uintptr_t c, struct picotm_error* e) { (void)h; (void)c; (void)e; applied++; }
static void ev_undo(uint16_t h, uintptr_t c, struct picotm_error* e) { (void)h; (void)c; (void)e; undone++; }
static const struct picotm_module_ops mops = { .apply_event = ev_apply, .undo_event = ev_undo };

static void sc_flow(int v)
{
    (void)v;
    static volatile long val;
    static const long vals[] = { 0, 127, 128, -128, -129, 255, 256, LONG_MAX, LONG_MIN };
    static volatile int rec, retry, k;
    applied = undone = rec = retry = 0;
    val = vals[mc_choose(9)];
    k = mc_choose(3);
    struct picotm_error err = PICOTM_ERROR_INITIALIZER;
    int out = val < -128 || val > 127;
    picotm_begin
        unsigned long m = picotm_register_module(&mops, NULL, &err);
        for (int i = 0; i < k; i++) picotm_append_event(m, 0, i, &err);
        signed char c = cast_long_to_schar_tx(retry ? 1 : val);
        mc_check(c == (retry ? 1 : val), "value", "cast_long_to_schar_tx");
    picotm_commit
        rec++;
        mc_check(rec == 1, "recovery twice", "recovery ran %d times", rec);
        retry = 1;
        picotm_restart();
    picotm_end
    mc_check(rec == out && applied == k && undone == (out ? k : 0), "flow", "value %ld: recovery %d, applied %d, undone %d of %d", val, rec, applied, undone, k);
    mc_outcome(val * 4 + k);
}

static const struct mc_scenario sc[] = {
    { "casts", sc_cast, 1, MC_NOPREEMPT, 0, 0, 100, 300, "every provided pair of types; all values of narrow source types, neighbourhoods of all powers of two and limits for wide ones" },
    { "recovery", sc_flow, 1, MC_NOPREEMPT, 0, 0, 20, 20, "a rejected cast rolls the transaction back and can be retried" },
};

int main(int argc, char* argv[])
{
    static const char* const as[] = { "8- and 16-bit sources exhaustively, 32- and 64-bit sources within 5 of every power of two, every limit and a few others", "floating-point destinations round as in C", NULL };
    return mc_main(argc, argv, "P25", sc, sizeof sc / sizeof *sc, as);
}
