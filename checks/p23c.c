/* P23: concurrent transactions see changes of the locale only after commit;
 * results have to match a serial order. */
#include "mc.h"
#include "picotm/picotm.h"
#include "picotm/picotm-error.h"
#include "picotm/picotm-module.h"
#include "picotm/locale.h"
#include "picotm/locale-tm.h"
#include <langinfo.h>
#include <locale.h>
#include <stdlib.h>
#include <string.h>

enum { NT = 3, NOP = 2 };
enum kind { NONE, SETALL, SETCTYPE, SETNUM, QCTYPE, QNUM, QALL, CONV, DUPG, SETPAPER, QPAPER, DUP, USE, FREE, NEWBASE, NKIND };
static const char* const kname[] = { "-", "set LC_ALL", "set LC_CTYPE", "set LC_NUMERIC", "get LC_CTYPE", "get LC_NUMERIC", "get LC_ALL", "localeconv", "duplocale(global)", "set LC_PAPER", "get LC_PAPER", "duplocale(L)", "uselocale(L)", "freelocale(L)", "newlocale(C, L)" };
struct op { enum kind k; int a; };
enum { OUT_COMMIT, OUT_ERROR, OUT_RESTART };
static const char* const oname[] = { "commit", "error", "restart once, then commit" };
static struct { struct op op[NOP]; int out; } prog[NT];
static int res[NT][NOP];
static char name_[3][16] = { "C", "C.UTF-8", "en_US.UTF-8" };
static const char* names[3] = { name_[0], name_[1], name_[2] };
static locale_t L, made[NT][NOP];
static int nth;
struct st { int ctype, num, paper; };

static int idx(const char* s) { for (int i = 0; i < 3; i++) if (s && !strcmp(s, names[i])) return i; return 77; }
static int enc(struct st s) { return 1000 + s.ctype * 100 + s.num * 10 + s.paper; }
static int qall(const char* s)
{
    struct st x = { 9, 9, 9 };
    if (!s) return -5;
    if (!strchr(s, ';')) { int i = idx(s); x = (struct st){ i, i, i }; return enc(x); }
    char b[600], * q, * save;
    snprintf(b, sizeof b, "%s", s);
    for (q = strtok_r(b, ";", &save); q; q = strtok_r(NULL, ";", &save)) {
        char* e = strchr(q, '=');
        if (!e) return -6;
        *e++ = 0;
        if (!strcmp(q, "LC_CTYPE")) x.ctype = idx(e);
        if (!strcmp(q, "LC_NUMERIC")) x.num = idx(e);
        if (!strcmp(q, "LC_PAPER")) x.paper = idx(e);
    }
    return enc(x);
}
static int dloc(locale_t l)
{
    struct st x = { idx(nl_langinfo_l(NL_LOCALE_NAME(LC_CTYPE), l)), idx(nl_langinfo_l(NL_LOCALE_NAME(LC_NUMERIC), l)), idx(nl_langinfo_l(NL_LOCALE_NAME(LC_PAPER), l)) };
    return enc(x);
}
static int run_op(int t, int i)
{
    const struct op* o = prog[t].op + i;
    made[t][i] = NULL;
    switch (o->k) {
    case SETALL: return qall(setlocale_tx(LC_ALL, names[o->a]));
    case SETCTYPE: return idx(setlocale_tx(LC_CTYPE, names[o->a]));
    case SETNUM: return idx(setlocale_tx(LC_NUMERIC, names[o->a]));
    case SETPAPER: return idx(setlocale_tx(LC_PAPER, names[o->a]));
    case QCTYPE: return idx(setlocale_tx(LC_CTYPE, NULL));
    case QNUM: return idx(setlocale_tx(LC_NUMERIC, NULL));
    case QPAPER: return idx(setlocale_tx(LC_PAPER, NULL));
    case QALL: return qall(setlocale_tx(LC_ALL, NULL));
    case CONV: { const struct lconv* c = localeconv_tx(); return c->thousands_sep[0] == ',' ? 1 : 0; }
    case DUPG: return dloc(made[t][i] = duplocale_tx(LC_GLOBAL_LOCALE));
    case DUP: return dloc(made[t][i] = duplocale_tx(L));
    case USE: return uselocale_tx(L) == LC_GLOBAL_LOCALE;
    case FREE: freelocale_tx(L); return 0;
    case NEWBASE: return dloc(made[t][i] = newlocale_tx(LC_CTYPE_MASK, names[0], L));
    default: return 0;
    }
}
static void thread_fn(int t)
{
    volatile int tries = 0;
    picotm_begin
        if (picotm_number_of_restarts()) mc_yield();
        tries++;
        for (int i = 0; i < NOP; i++) res[t][i] = run_op(t, i);
        if (prog[t].out == OUT_ERROR) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
        if (prog[t].out == OUT_RESTART && tries == 1) picotm_restart();
    picotm_commit
        mc_check(prog[t].out == OUT_ERROR, "unexpected error", "T%d: recovery with error status %d", t, picotm_error_status());
        for (int i = 0; i < NOP; i++) { res[t][i] = -1; made[t][i] = NULL; }
    picotm_end
    bool used = false;
    for (int i = 0; i < NOP; i++) used |= prog[t].op[i].k == USE;
    locale_t c = uselocale((locale_t)0);
    mc_check(c == (used && prog[t].out != OUT_ERROR ? L : LC_GLOBAL_LOCALE), "thread's locale", "T%d uses the wrong locale afterwards", t);
    uselocale(LC_GLOBAL_LOCALE);
    picotm_release();
}
static const struct st start = { 1, 2, 0 }, lstate = { 1, 0, 0 };
static bool explain(int done, struct st s0, int final)
{
    bool any = false;
    for (int t = 0; t < nth; t++) {
        if (done >> t & 1) continue;
        any = true;
        struct st s = s0; bool ok = true;
        if (prog[t].out != OUT_ERROR) for (int i = 0; i < NOP && ok; i++) {
            const struct op* o = prog[t].op + i;
            int r = res[t][i];
            switch (o->k) {
            case SETALL: s = (struct st){ o->a, o->a, o->a }; ok = r == enc(s); break;
            case SETCTYPE: s.ctype = o->a; ok = r == o->a; break;
            case SETNUM: s.num = o->a; ok = r == o->a; break;
            case SETPAPER: s.paper = o->a; ok = r == o->a; break;
            case QCTYPE: ok = r == s.ctype; break;
            case QNUM: ok = r == s.num; break;
            case QPAPER: ok = r == s.paper; break;
            case QALL: case DUPG: ok = r == enc(s); break;
            case CONV: ok = r == (s.num == 2); break;
            case DUP: ok = r == enc(lstate); break;
            default: break;
            }
        }
        if (ok && explain(done | 1 << t, s, final)) return true;
    }
    return !any && enc(s0) == final;
}
static void run(int n)
{
    static char s[500];
    int k = 0;
    nth = n;
    bool consumed = false;
    for (int t = 0; t < n; t++) {
        k += snprintf(s + k, sizeof s - (size_t)k, "T%d:", t);
        for (int i = 0; i < NOP; i++) { k += snprintf(s + k, sizeof s - (size_t)k, " %s(%s)", kname[prog[t].op[i].k], names[prog[t].op[i].a]); consumed |= prog[t].out != OUT_ERROR && (prog[t].op[i].k == FREE || prog[t].op[i].k == NEWBASE); }
        k += snprintf(s + k, sizeof s - (size_t)k, ", %s; ", oname[prog[t].out]);
    }
    mc_ctx("%s", s); mc_note("%s", s);
    mc_quiet_begin();
    setlocale(LC_ALL, "C");
    setlocale(LC_CTYPE, names[1]); setlocale(LC_NUMERIC, names[2]);
    L = newlocale(LC_CTYPE_MASK, names[1], (locale_t)0);
    mc_quiet_end();
    picotm_begin
        setlocale_tx(LC_CTYPE, NULL);
        setlocale_tx(LC_CTYPE, names[1]);
        freelocale(duplocale_tx(L)); /* creates the map of locale objects */
    picotm_commit
    picotm_end
    mc_run_threads(n, thread_fn);
    int final = qall(setlocale(LC_ALL, NULL));
    char r[200]; k = 0;
    for (int t = 0; t < n; t++) k += snprintf(r + k, sizeof r - (size_t)k, "T%d %d %d; ", t, res[t][0], res[t][1]);
    mc_check(explain(0, start, final), "not serializable", "%slocale %d at the end", r, final);
    if (!consumed) mc_check(dloc(L) == enc(lstate), "object", "the locale object changed");
    volatile int tries = 0, rec = 0;
    picotm_begin
        mc_check(++tries < 4, "leaked lock", "a transaction cannot change the locale although no other transaction runs");
        setlocale_tx(LC_ALL, "C");
        if (!consumed) freelocale_tx(L);
        picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        rec = 1;
    picotm_end
    mc_check(rec && qall(setlocale(LC_ALL, NULL)) == final, "restored", "the locale is not restored");
    picotm_release();
    unsigned h = (unsigned)final;
    for (int t = 0; t < n; t++) for (int i = 0; i < NOP; i++) h = h * 5 + (unsigned)(res[t][i] + 1);
    mc_outcome((long)h);
    mc_cases(1);
}
static const struct op tab[] = { { SETALL, 0 }, { SETCTYPE, 2 }, { QCTYPE, 0 }, { DUPG, 0 }, { SETNUM, 1 }, { QALL, 0 }, { CONV, 0 }, { QNUM, 0 }, { SETPAPER, 1 }, { QPAPER, 0 }, { NONE, 0 } };
#define N ((int)(sizeof tab / sizeof *tab))
static int ch(int q, int n) { return mc_choose(mc_tier_thorough ? n : q); }
static void sc_two(int v)
{
    memset(prog, 0, sizeof prog);
    prog[0].op[0] = tab[v]; prog[0].op[1] = tab[ch(4, N)];
    prog[1].op[0] = tab[mc_choose(N - 1)];
    prog[1].op[1] = mc_tier_thorough ? tab[mc_choose(N)] : tab[N - 1];
    if (prog[1].op[0].k == SETALL) prog[1].op[0].a = 1;
    prog[0].out = ch(2, 3);
    run(2);
}
/* a shared locale object; consumed only in transactions that fail */
static void sc_object(int v)
{
    static const struct op o[] = { { FREE, 0 }, { NEWBASE, 0 }, { DUP, 0 }, { USE, 0 } };
    memset(prog, 0, sizeof prog);
    prog[0].op[v & 1] = o[v >> 1];
    prog[0].out = v >> 1 < 2 ? OUT_ERROR : mc_choose(3);
    prog[1].op[0] = o[mc_choose(4)];
    prog[1].op[1] = mc_tier_thorough ? tab[mc_choose(N)] : tab[N - 1];
    if (mc_tier_thorough) prog[0].op[!(v & 1)] = tab[mc_choose(N)];
    prog[1].out = prog[1].op[0].k == FREE || prog[1].op[0].k == NEWBASE ? OUT_ERROR : ch(2, 3);
    run(2);
}
static void sc_three(int v)
{
    memset(prog, 0, sizeof prog);
    prog[0].op[0] = tab[v]; prog[0].op[1] = tab[ch(1, 4)];
    prog[1].op[0] = tab[ch(3, 6)];
    prog[2].op[0] = tab[2 + ch(2, 4)];
    if (prog[1].op[0].k == SETALL) prog[1].op[0].a = 1;
    prog[1].out = ch(1, 3);
    run(3);
}
static const struct mc_scenario sc[] = {
    { "ctwo", sc_two, N - 1, 0, 1, 2, 60, 400, "two transactions that change and observe the locale" },
    { "cobject", sc_object, 8, 0, 1, 2, 30, 200, "two transactions with a shared locale object" },
    { "cthree", sc_three, 4, 0, 1, 2, 30, 300, "three transactions" },
};
int main(int argc, char* argv[])
{
    static const char* const as[] = { "setlocale() itself executes in one step", NULL };
    for (int i = 0; i < 3; i++) { if (!setlocale(LC_ALL, names[i])) names[i] = "POSIX"; setlocale(LC_CTYPE, "C"); setlocale(LC_NUMERIC, "C"); setlocale(LC_PAPER, "C"); }
    setlocale(LC_ALL, "C");
    return mc_main(argc, argv, "P23", sc, sizeof sc / sizeof *sc, as);
}
