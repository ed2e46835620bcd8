/* P23: setlocale, uselocale and locale objects in transactions, against the
 * same direct calls. */
#include "mc.h"
#include "picotm/picotm.h"
#include "picotm/picotm-error.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-tm.h"
#include "picotm/locale.h"
#include "picotm/locale-tm.h"
#include <errno.h>
#include <langinfo.h>
#include <locale.h>
#include <stdlib.h>
#include <string.h>
#include <sanitizer/asan_interface.h>
size_t __sanitizer_get_current_allocated_bytes(void);

enum { MAXLEN = 4, NSLOT = 2 + MAXLEN, NCAT = 4, NNAME = 5, NMASK = 4 };
enum kind { SET, QUERY, CONV, USE, USEGLOBAL, USE0, DUP, DUPGLOBAL, NEW, NEWBASE, FREE, NKIND };
static const int cats[] = { LC_ALL, LC_CTYPE, LC_NUMERIC, LC_PAPER, LC_TIME, LC_COLLATE, LC_MONETARY, LC_MESSAGES };
static const char* const catname[] = { "LC_ALL", "LC_CTYPE", "LC_NUMERIC", "LC_PAPER", "LC_TIME", "LC_COLLATE", "LC_MONETARY", "LC_MESSAGES" };
static int ncat;
static const char* names[NNAME] = { "C", "C.UTF-8", "en_US.UTF-8", "none.such", "" };
static const int masks[NMASK] = { LC_ALL_MASK, LC_CTYPE_MASK, LC_NUMERIC_MASK | LC_TIME_MASK, 1 << 30 };
static const char* const maskname[NMASK] = { "LC_ALL_MASK", "LC_CTYPE_MASK", "LC_NUMERIC_MASK|LC_TIME_MASK", "bad mask" };
struct op { enum kind k; int a, b, c; };
static struct op prog[MAXLEN];
static int plen, endk, cur0;
enum { COMMIT, ERROR, RESTART, CONFLICT, IRREV, NEND };
static const char* const ends[] = { "commit", "error", "restart", "conflict", "irrevocable" };

/* the locale objects: live, dead, and which is in use */
struct world { locale_t slot[NSLOT]; int state[NSLOT]; int n, cur; };
static char dres[MAXLEN][600], tres[MAXLEN][600];
static char dinit[2000], dfinal[2000], tinit[2000], tfinal[2000];

static const char* dloc(locale_t l)
{
    static char s[300];
    if (!l) return "none";
    snprintf(s, sizeof s, "%s|%s|%s|%s|%s", nl_langinfo_l(CODESET, l), nl_langinfo_l(RADIXCHAR, l), nl_langinfo_l(D_FMT, l), nl_langinfo_l(NL_LOCALE_NAME(LC_COLLATE), l), nl_langinfo_l(NL_LOCALE_NAME(LC_PAPER), l));
    return s;
}
static const char* whois(const struct world* w, locale_t l)
{
    static char s[40];
    if (l == LC_GLOBAL_LOCALE) return "global";
    for (int i = 0; i < w->n; i++) if (w->slot[i] == l && w->state[i] == 1) { snprintf(s, sizeof s, "L%d", i); return s; }
    return "another object";
}
static void describe(char* s, size_t n, const struct world* w)
{
    size_t k = (size_t)snprintf(s, n, "%s; current %s; ", setlocale(LC_ALL, NULL), whois(w, uselocale((locale_t)0)));
    for (int i = 0; i < w->n; i++) {
        if (w->state[i] != 1) { k += (size_t)snprintf(s + k, n - k, "L%d gone; ", i); continue; }
        k += (size_t)snprintf(s + k, n - k, "L%d %s; ", i, __asan_address_is_poisoned(w->slot[i]) ? "freed" : dloc(w->slot[i]));
    }
}
static void lconvstr(char* s, const struct lconv* l)
{
    if (!l) { strcpy(s, "NULL"); return; }
    snprintf(s, 600, "%s|%s|%s|%s", l->decimal_point, l->thousands_sep, l->int_curr_symbol, l->currency_symbol);
}
/* returns the errno value of a failing operation; 1000 for failing calls without errno value */
static int step(struct world* w, const struct op* o, char* r, bool tx)
{
    locale_t l;
    const char* s;
    errno = 0;
    strcpy(r, "-");
    switch (o->k) {
    case SET: s = tx ? setlocale_tx(cats[o->a], names[o->b]) : setlocale(cats[o->a], names[o->b]); if (!s) return 1000; snprintf(r, 600, "%s", s); break;
    case QUERY: s = tx ? setlocale_tx(cats[o->a], NULL) : setlocale(cats[o->a], NULL); if (!s) return 1000; snprintf(r, 600, "%s", s); break;
    case CONV: lconvstr(r, tx ? localeconv_tx() : localeconv()); break;
    case USE: case USEGLOBAL: case USE0:
        l = o->k == USE ? w->slot[o->a] : o->k == USEGLOBAL ? LC_GLOBAL_LOCALE : (locale_t)0;
        l = tx ? uselocale_tx(l) : uselocale(l);
        snprintf(r, 600, "%s", whois(w, l));
        break;
    case DUP: case DUPGLOBAL:
        l = o->k == DUP ? w->slot[o->a] : LC_GLOBAL_LOCALE;
        l = tx ? duplocale_tx(l) : duplocale(l);
        w->slot[w->n] = l; w->state[w->n] = 1; w->n++;
        snprintf(r, 600, "%s", dloc(l));
        break;
    case NEW: case NEWBASE: {
        locale_t base = o->k == NEWBASE ? w->slot[o->c] : (locale_t)0;
        l = tx ? newlocale_tx(masks[o->a], names[o->b], base) : newlocale(masks[o->a], names[o->b], base);
        if (!l) return errno ? errno : 1000; /* the C library does not always set errno */
        if (base) w->state[o->c] = 2;
        w->slot[w->n] = l; w->state[w->n] = 1; w->n++;
        snprintf(r, 600, "%s", dloc(l));
        break;
    }
    case FREE: if (tx) freelocale_tx(w->slot[o->a]); else freelocale(w->slot[o->a]); w->state[o->a] = 2; break;
    default: break;
    }
    return 0;
}
static void reset(struct world* w)
{
    uselocale(LC_GLOBAL_LOCALE);
    for (int i = 0; i < w->n; i++) if (w->state[i] == 1) freelocale(w->slot[i]);
    setlocale(LC_ALL, "C");
    memset(w, 0, sizeof *w);
}
static void setup(struct world* w)
{
    memset(w, 0, sizeof *w);
    setlocale(LC_ALL, "C");
    setlocale(LC_NUMERIC, names[2]);
    w->slot[0] = newlocale(LC_ALL_MASK, names[1], (locale_t)0);
    w->slot[1] = newlocale(LC_TIME_MASK | LC_COLLATE_MASK, names[2], (locale_t)0);
    w->state[0] = w->state[1] = 1;
    w->n = 2;
    uselocale(cur0 ? w->slot[0] : LC_GLOBAL_LOCALE);
}
/* operations on objects that exist; the object in use is neither freed nor consumed */
static enum kind kind0;
static void choose(bool few, bool oom)
{
    static char s[500];
    int state[NSLOT] = { 1, 1 }, n = 2, k = 0, cur;
    cur0 = oom && !mc_tier_thorough && plen > 1 ? 1 : mc_choose(2);
    cur = cur0 ? 0 : -1;
    for (int i = 0; i < plen; i++) {
        struct op* o = prog + i;
        memset(o, 0, sizeof *o);
        o->k = i == 0 ? kind0 : (enum kind)mc_choose(NKIND);
        int live[NSLOT], nl = 0;
        for (int j = 0; j < n; j++) if (state[j] == 1 && (!(o->k == FREE || o->k == NEWBASE) || j != cur)) live[nl++] = j;
        switch (o->k) {
        case SET: o->a = mc_choose(few ? 2 : ncat); o->b = mc_choose(few ? 4 - oom : NNAME); break;
        case QUERY: o->a = mc_choose(few ? 2 : ncat); break;
        case USE: case DUP: case FREE:
            if (!nl) mc_prune();
            o->a = live[mc_choose(nl)];
            if (o->k == FREE) state[o->a] = 2;
            if (o->k == USE) cur = o->a;
            if (o->k == DUP) state[n++] = 1;
            break;
        case USEGLOBAL: cur = -1; break;
        case DUPGLOBAL: state[n++] = 1; break;
        case NEW: case NEWBASE:
            if (o->k == NEWBASE) { if (!nl) mc_prune(); o->c = live[mc_choose(nl)]; }
            o->a = mc_choose(few ? 2 : NMASK); o->b = mc_choose(few ? 4 - oom : NNAME);
            if (o->k == NEWBASE && o->a == 0 && o->b == 0) mc_prune(); /* glibc loses the base object */
            if (o->a != 3 && o->b != 3) { if (o->k == NEWBASE) state[o->c] = 2; state[n++] = 1; }
            else if (i < plen - 1) mc_prune(); /* fails */
            break;
        default: break;
        }
        if (o->k == SET && o->b == 3 && i < plen - 1) mc_prune();
        static const char* const kn[] = { "setlocale", "setlocale?", "localeconv", "uselocale", "uselocale(global)", "uselocale(0)", "duplocale", "duplocale(global)", "newlocale", "newlocale", "freelocale" };
        k += snprintf(s + k, sizeof s - (size_t)k, "%s", kn[o->k]);
        if (o->k == SET) k += snprintf(s + k, sizeof s - (size_t)k, "(%s, \"%s\")", catname[o->a], names[o->b]);
        if (o->k == QUERY) k += snprintf(s + k, sizeof s - (size_t)k, "(%s)", catname[o->a]);
        if (o->k == USE || o->k == DUP || o->k == FREE) k += snprintf(s + k, sizeof s - (size_t)k, "(L%d)", o->a);
        if (o->k == NEW) k += snprintf(s + k, sizeof s - (size_t)k, "(%s, \"%s\")", maskname[o->a], names[o->b]);
        if (o->k == NEWBASE) k += snprintf(s + k, sizeof s - (size_t)k, "(%s, \"%s\", L%d)", maskname[o->a], names[o->b], o->c);
        k += snprintf(s + k, sizeof s - (size_t)k, ", ");
    }
    k += snprintf(s + k, sizeof s - (size_t)k, "%s, thread uses %s", ends[endk], cur0 ? "L0" : "the global locale");
    mc_ctx("%s", s); mc_note("%s", s);
}
static void run(bool oom)
{
    static struct world d, w, t;
    static volatile int tries, rec, pos, status;
    static volatile long code;
    int derr = 0, dpos = 0;

    /* direct calls */
    setup(&d);
    describe(dinit, sizeof dinit, &d);
    if (!oom) {
        for (int i = 0; i < plen && !derr; i++) { derr = step(&d, prog + i, dres[i], false); dpos = i + !derr; }
        describe(dfinal, sizeof dfinal, &d);
    }
    reset(&d);
    size_t base = __sanitizer_get_current_allocated_bytes();
    mc_heap_mark();
    int live0 = (int)mc_heap_live();

    setup(&w);
    describe(tinit, sizeof tinit, &w);
    tries = rec = status = 0; code = 0; pos = 0;
    if (oom) { mc_fault_budget = mc_tier_thorough || plen < 2 ? 2 : 1; mc_alloc_fault = 1; }
    picotm_begin
        tries++;
        if (endk == IRREV) picotm_irrevocable();
        t = w;
        for (int i = 0; i < plen; i++) {
            pos = i;
            step(&t, prog + i, tres[i], true);
            pos = i + 1;
        }
        if (endk == ERROR) picotm_recover_from_error_code(PICOTM_OUT_OF_BOUNDS);
        if (endk == RESTART && tries < 3) picotm_restart();
        if (endk == CONFLICT && tries < 12) { struct picotm_error e = PICOTM_ERROR_INITIALIZER; picotm_error_set_conflicting(&e, NULL); picotm_recover_from_error(&e); }
    picotm_commit
        rec = 1;
        status = picotm_error_status();
        code = status == PICOTM_ERRNO ? picotm_error_as_errno() : status == PICOTM_ERROR_CODE ? picotm_error_as_error_code() : 0;
        mc_check(!picotm_error_is_non_recoverable(), "error", "the error is not recoverable");
    picotm_end
    mc_alloc_fault = 0;
    if (oom && rec && !(status == PICOTM_ERROR_CODE && code == PICOTM_OUT_OF_BOUNDS)) {
        mc_check((status == PICOTM_ERRNO && code == ENOMEM) || status == PICOTM_ERROR_CODE, "error", "recovery reports status %d, code %ld", status, code);
    } else if (!oom) {
        mc_check(pos == dpos, "results", "operation %d fails, %d direct calls work", pos, dpos);
        for (int i = 0; i < dpos; i++) mc_check(!strcmp(dres[i], tres[i]), "results", "operation %d returns '%s' instead of '%s'", i, tres[i], dres[i]);
        mc_check(rec == (derr || endk == ERROR), "error", "recovery %d", rec);
        if (derr) {
            if (derr == 1000 || derr == ENOENT) mc_check(status != PICOTM_CONFLICTING, "error", "recovery reports status %d", status);
            else mc_check(status == PICOTM_ERRNO && code == derr, "error", "recovery reports status %d, code %ld instead of errno value %d", status, code, derr);
        } else if (rec) mc_check(status == PICOTM_ERROR_CODE && code == PICOTM_OUT_OF_BOUNDS, "error", "recovery reports status %d, code %ld", status, code);
    }
    if (!rec) w = t;
    describe(tfinal, sizeof tfinal, &w);
    const char* expect = rec ? dinit : oom ? NULL : dfinal;
    if (endk == IRREV && rec && dpos) expect = NULL; /* cannot be undone */
    if (expect) mc_check(!strcmp(tfinal, expect), "state", "%s, there is '%s' instead of '%s'", rec ? "after the abort" : "after the commit", tfinal, expect);
    /* the locks are free again, and the objects usable */
    if (endk != IRREV || !rec) {
        static volatile int ok;
        ok = 0;
        picotm_begin
            setlocale_tx(LC_ALL, "C");
            uselocale_tx(LC_GLOBAL_LOCALE);
            for (int i = 0; i < w.n; i++) if (w.state[i] == 1) freelocale_tx(w.slot[i]);
        picotm_commit
            ok = 1;
        picotm_end
        mc_check(!ok, "afterwards", "the next transaction fails");
        mc_check(!strcmp(setlocale(LC_ALL, NULL), "C") && uselocale((locale_t)0) == LC_GLOBAL_LOCALE, "afterwards", "the next transaction has no effect");
        memset(&w, 0, sizeof w);
    }
    picotm_release();
    reset(&w);
    if (!(endk == IRREV && rec)) {
        mc_check(mc_heap_live() == live0, "leak", "%ld blocks remain allocated", mc_heap_live() - live0);
        size_t now = __sanitizer_get_current_allocated_bytes();
        mc_check(now == base, "leak", "%ld bytes remain allocated", (long)now - (long)base);
    }
    mc_cases(1);
    mc_outcome((unsigned)(strlen(tfinal) * 7 + (unsigned)rec));
}
static void warm(void)
{
    static int done;
    static struct world w;
    if (done) return;
    done = 1;
    for (int i = 0; i < NNAME; i++) for (int c = 0; c < (int)(sizeof cats / sizeof *cats); c++) { setlocale(cats[c], names[i]); localeconv(); setlocale(LC_ALL, "C"); }
    for (int m = 0; m < NMASK; m++) for (int i = 0; i < NNAME; i++) { locale_t l = newlocale(masks[m], names[i], (locale_t)0); if (l) freelocale(l); }
    setup(&w); reset(&w);
}
static void go(int len, bool few, bool oom)
{
    plen = len;
    warm();
    endk = mc_choose(oom ? 1 + (mc_tier_thorough || len < 2) : NEND);
    choose(few, oom);
    run(oom);
}
static void sc_one(int v) { kind0 = (enum kind)v; ncat = 8; go(1, false, false); }
static void sc_two(int v) { kind0 = (enum kind)v; ncat = mc_tier_thorough ? 8 : NCAT; go(2, false, false); }
static void sc_three(int v) { kind0 = (enum kind)v; ncat = NCAT; go(3, true, false); }
static void sc_four(int v) { kind0 = (enum kind)v; ncat = 2; go(4, true, false); }
static void sc_oom(int v) { kind0 = (enum kind)v; ncat = NCAT; go(2, true, true); }
static void sc_oom1(int v) { kind0 = (enum kind)v; ncat = NCAT; go(1, true, true); }
static const struct mc_scenario sc[] = {
    { "one", sc_one, NKIND, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 60, "each operation with every argument" },
    { "two", sc_two, NKIND, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 300, "all pairs" },
    { "three", sc_three, NKIND, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 300, "triples" },
    { "oom1", sc_oom1, NKIND, MC_NOPREEMPT, 0, 0, 60, 100, "each operation with up to two failing allocations" },
    { "oom", sc_oom, NKIND, MC_NOPREEMPT, 0, 0, 60, 300, "pairs with failing allocations" },
    { "four", sc_four, NKIND, MC_NOPREEMPT | MC_INPROC | MC_THOROUGH_ONLY, 0, 0, 60, 500, "sequences of four" },
};
int main(int argc, char* argv[])
{
    static const char* const as[] = { "the locales C, C.UTF-8 and, if installed, en_US.UTF-8", NULL };
    if (!setlocale(LC_ALL, names[2])) names[2] = "C.UTF-8";
    unsetenv("LC_ALL"); setenv("LANG", "C.UTF-8", 1);
    setlocale(LC_ALL, "C");
    return mc_main(argc, argv, "P23", sc, sizeof sc / sizeof *sc, as);
}
