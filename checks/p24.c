/* P24: signals inside and outside transactions */
#include "mc.h"
#include "picotm/picotm.h"
#include "picotm/picotm-error.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/picotm-libc.h"
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <string.h>

static volatile int calls_o, calls_a, last_signo;
static void on_old(int s, siginfo_t* i, void* u) { (void)i; (void)u; calls_o++; last_signo = s; }
static void on_new(int s, siginfo_t* i, void* u) { (void)u; calls_a++; last_signo = i->si_signo == s ? s : -1; }
static void old_plain(int s) { calls_o++; last_signo = s; }

enum { NSIGS = 4, MAXLEN = 5 };
static const int sigs[NSIGS] = { SIGUSR1, SIGFPE, SIGSEGV, SIGUSR2 };
/* what the program has installed: a handler with flags and a mask, a plain handler, and SIG_IGN */
static void install_old(int i)
{
    struct sigaction a;
    memset(&a, 0, sizeof a);
    sigemptyset(&a.sa_mask);
    switch (i) {
    case 0: a.sa_sigaction = on_old; a.sa_flags = SA_SIGINFO | SA_RESTART; sigaddset(&a.sa_mask, SIGUSR2); break;
    case 1: case 2: a.sa_handler = old_plain; a.sa_flags = SA_NODEFER; break;
    default: a.sa_handler = SIG_IGN; break;
    }
    if (sigaction(sigs[i], &a, NULL)) mc_fail("harness", "sigaction");
}
static bool same(int i)
{
    struct sigaction a;
    if (sigaction(sigs[i], NULL, &a)) return false;
    switch (i) {
    case 0: return a.sa_sigaction == on_old && (a.sa_flags & (SA_SIGINFO | SA_RESTART)) == (SA_SIGINFO | SA_RESTART) && sigismember(&a.sa_mask, SIGUSR2) && !sigismember(&a.sa_mask, SIGFPE);
    case 1: case 2: return a.sa_handler == old_plain && (a.sa_flags & SA_NODEFER) && !(a.sa_flags & SA_SIGINFO);
    default: return a.sa_handler == SIG_IGN;
    }
}
static void masks(const char* when)
{
    sigset_t m;
    pthread_sigmask(SIG_SETMASK, NULL, &m);
    for (int i = 0; i < NSIGS; i++) mc_check(!sigismember(&m, sigs[i]), "signal mask", "%s: signal %d is blocked", when, sigs[i]);
}
__attribute__((noinline, optimize(0))) static void gen_fpe(int z) { volatile int one = 1; one /= z; }
__attribute__((noinline, optimize(0))) static void gen_segv(void) { volatile long* volatile p = NULL; *p = 1; }
static void generate(int i, bool sync)
{
    if (sync && sigs[i] == SIGFPE) gen_fpe(0);
    else if (sync && sigs[i] == SIGSEGV) gen_segv();
    else pthread_kill(pthread_self(), sigs[i]);
}
/* a picotm_begin in a function of its own */
static unsigned long cell, cell2;
enum end { TXPLAIN, TXIRREV, TXRETRY, TXRECOVERY, TXTWICE, NTX };
static volatile int ntries, nrec, st, signo, nonrec, recalls;
static void tx(int i, int endk, bool expect)
{
    static volatile int tries, again;
    tries = again = 0; ntries = nrec = 0; st = -1; nonrec = 0; signo = 0;
    picotm_begin
        tries++;
        if (endk == TXIRREV) picotm_irrevocable();
        store_ulong_tx(&cell, load_ulong_tx(&cell) + 1);
        if (endk == TXRETRY && tries < 4) picotm_restart();
        if (endk == TXRECOVERY && !again) picotm_recover_from_error_code(PICOTM_OUT_OF_BOUNDS);
        if (i >= 0 && endk != TXRECOVERY && !(again && endk != TXTWICE)) generate(i, expect && !again);
        if (i >= 0 && endk == TXTWICE && again == 1) { /* the second attempt */ }
        store_ulong_tx(&cell2, load_ulong_tx(&cell2) + 1);
    picotm_commit
        nrec++;
        st = picotm_error_status();
        nonrec = picotm_error_is_non_recoverable();
        if (st == PICOTM_SIGINFO_T) { const siginfo_t* s = picotm_error_as_siginfo_t(); signo = s->si_signo; }
        masks("in the recovery code");
        if (endk == TXRECOVERY && i >= 0) { int a = calls_a + calls_o; generate(i, false); recalls = calls_a + calls_o - a; }
        if (endk == TXTWICE && again == 0 && !nonrec) { again = 1; picotm_restart(); }
    picotm_end
    ntries = tries;
}
#ifndef THREADS
enum kind { ACQ, ACQNULL, REL, ADDREC, ADDNON, REMOVE, RAISE, TX, TX_IRREV, TX_RETRY, TX_RECOVERY, TX_TWICE, CLEAR, RELEASE, TXNONE, NKIND };
static const char* const kname[] = { "acquire(handler)", "acquire(NULL)", "release", "add(recoverable)", "add(not recoverable)", "remove", "raise", "transaction raises", "irrevocable transaction raises", "restarted transaction raises", "recovery code raises", "transaction raises again after restart", "clear", "picotm_release", "transaction" };
static struct { enum kind k; int s; } prog[MAXLEN];
static int plen, pair[2];
/* non-recoverable errors leave the transaction as it is; the program must end: only in scenarios of their own */
static bool single;
static void prune(void)
{
    int acq[NSIGS] = { 0 }, en[NSIGS] = { 0 };
    bool hit = false;
    for (int n = 0; n < plen; n++) {
        int i = prog[n].s;
        switch (prog[n].k) {
        case ACQ: case ACQNULL: acq[i] = 1; break;
        case REL: acq[i] = 0; break;
        case ADDREC: en[i] = 1; break;
        case ADDNON: en[i] = 2; break;
        case REMOVE: en[i] = 0; break;
        case CLEAR: case RELEASE: memset(en, 0, sizeof en); break;
        case TX: case TX_IRREV: case TX_RETRY: case TX_TWICE: if (acq[i] && en[i] == 2) { if (!single || n < plen - 1) mc_prune(); hit = true; } break;
        default: break;
        }
    }
    if (single && !hit) mc_prune();
}
static void run(void)
{
    static int acq[NSIGS], h[NSIGS], en[NSIGS]; /* model */
    memset(acq, 0, sizeof acq); memset(h, 0, sizeof h); memset(en, 0, sizeof en);
    for (int i = 0; i < NSIGS; i++) install_old(i);
    unsigned out = 0;
    for (int n = 0; n < plen; n++) {
        int k = prog[n].k, i = prog[n].s;
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        calls_o = calls_a = 0; last_signo = 0;
        unsigned long c0 = cell, d0 = cell2;
        /* which handler a signal reaches outside of recovery; 3: either of two after repeated acquisition */
        int reach = !acq[i] ? (i == 3 ? 0 : 1) : h[i];
        switch (k) {
        case ACQ: case ACQNULL:
            picotm_libc_acquire_proc_signal(sigs[i], k == ACQ ? on_new : NULL, &e);
            mc_check(!picotm_error_is_set(&e), "acquire", "acquiring signal %d reports an error", sigs[i]);
            h[i] = acq[i] ? (h[i] == (k == ACQ ? 2 : 0) ? h[i] : 3) : k == ACQ ? 2 : 0;
            acq[i] = 1;
            break;
        case REL:
            picotm_libc_release_proc_signal(sigs[i], &e);
            mc_check(!picotm_error_is_set(&e), "release", "releasing signal %d reports an error", sigs[i]);
            acq[i] = 0;
            break;
        case ADDREC: case ADDNON:
            picotm_libc_add_signal(sigs[i], k == ADDREC, &e);
            mc_check(!picotm_error_is_set(&e), "add", "adding signal %d reports an error", sigs[i]);
            en[i] = k == ADDREC ? 1 : 2;
            break;
        case REMOVE: picotm_libc_remove_signal(sigs[i]); en[i] = 0; break;
        case CLEAR: picotm_libc_clear_signals(); memset(en, 0, sizeof en); break;
        case RELEASE: picotm_release(); memset(en, 0, sizeof en); break;
        case RAISE:
            generate(i, false);
            goto handler;
        case TXNONE: tx(-1, TXPLAIN, false); mc_check(!nrec && cell == c0 + 1 && cell2 == d0 + 1, "transaction", "a transaction without a signal fails"); break;
        default: {
            int ek = k - TX;
            bool exp = acq[i] && en[i] && ek != TXRECOVERY;
            tx(i, ek, exp);
            out = out * 3 + (unsigned)nrec;
            if (ek == TXRECOVERY) {
                mc_check(nrec == 1 && st == PICOTM_ERROR_CODE, "recovery", "the error status is %d", st);
                mc_check(cell == c0 && cell2 == d0, "recovery", "the aborted transaction has an effect");
                goto handler;
            }
            if (!exp) {
                mc_check(!nrec && cell == c0 + 1 && cell2 == d0 + 1, "no recovery", "the transaction is disturbed by a signal that's not enabled (%d recoveries)", nrec);
                goto handler;
            }
            mc_check(nrec == (ek == TXTWICE && en[i] == 1 ? 2 : 1), "recovery", "signal %d: the recovery code runs %d times", sigs[i], nrec);
            mc_check(st == PICOTM_SIGINFO_T && signo == sigs[i], "recovery", "signal %d: the recovery code finds status %d, signal %d", sigs[i], st, signo);
            mc_check(nonrec == (en[i] == 2), "recovery", "signal %d: non-recoverable is %d", sigs[i], nonrec);
            mc_check(!calls_o && !calls_a, "handler", "signal %d: a handler runs, too", sigs[i]);
            if (en[i] == 2) { masks(kname[k]); mc_cases(1); mc_outcome(out); return; }
            if (ek != TXIRREV) mc_check(cell == c0 && cell2 == d0, "recovery", "the aborted transaction has an effect");
            cell = c0; cell2 = d0;
            break;
        }
        handler:
            /* SIGUSR2 is ignored unless acquired */
            if (reach == 3) mc_check(calls_o == 0 && calls_a <= 1, "handler", "signal %d: handlers are called %d and %d times", sigs[i], calls_o, calls_a);
            else mc_check(calls_o == (reach == 1) && calls_a == (reach == 2), "handler", "signal %d: the program's handler is called %d times, the one for non-transactional code %d times; expected %d, %d", sigs[i], calls_o, calls_a, reach == 1, reach == 2);
            if (calls_o + calls_a) mc_check(last_signo == sigs[i], "handler", "the handler for signal %d is called with %d", sigs[i], last_signo);
            out = out * 3 + (unsigned)calls_a;
        }
        masks(kname[k]);
        for (int j = 0; j < NSIGS; j++) mc_check(same(j) == !acq[j], "disposition", "after %s, the disposition of signal %d is %s", kname[k], sigs[j], acq[j] ? "still the program's" : "not the program's");
        out = out * 2 + (unsigned)acq[i];
    }
    /* give everything back */
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    for (int i = 0; i < NSIGS; i++) picotm_libc_release_proc_signal(sigs[i], &e);
    for (int j = 0; j < NSIGS; j++) mc_check(same(j), "disposition", "signal %d is not restored", sigs[j]);
    picotm_release();
    mc_cases(1);
    mc_outcome(out);
}
static void go(int len, int v, int nk)
{
    static const int pp[][2] = { { 0, 1 }, { 2, 3 }, { 1, 2 } };
    static char s[400];
    int k = 0;
    plen = len; pair[0] = pp[v][0]; pair[1] = pp[v][1];
    for (int n = 0; n < len; n++) {
        prog[n].k = (enum kind)mc_choose(nk);
        prog[n].s = pair[prog[n].k < CLEAR ? mc_choose(2) : 0];
        k += snprintf(s + k, sizeof s - (size_t)k, prog[n].k < CLEAR ? "%s %d, " : "%s, ", kname[prog[n].k], sigs[prog[n].s]);
    }
    mc_ctx("%s", s); mc_note("%s", s);
    prune();
    run();
}
static void sc_three(int v) { go(3, v, NKIND); }
static void sc_non(int v) { single = true; go(mc_tier_thorough ? 4 : 3, v, NKIND); }
static void sc_four(int v) { go(4, v, NKIND); }
/* an enabled signal, and what may follow */
static void sc_enabled(int v)
{
    static char s[400];
    int k = 0;
    plen = 5;
    pair[0] = v; pair[1] = (v + 1) % NSIGS;
    prog[0].k = (enum kind)mc_choose(2); prog[0].s = v;
    prog[1].k = (enum kind)(ADDREC + mc_choose(2)); prog[1].s = v;
    if (mc_choose(2)) { int t = prog[0].k; prog[0].k = prog[1].k; prog[1].k = t; }
    for (int n = 2; n < plen; n++) { prog[n].k = (enum kind)mc_choose(NKIND); prog[n].s = pair[n > 2 && prog[n].k < CLEAR ? mc_choose(2) : 0]; }
    for (int n = 0; n < plen; n++) k += snprintf(s + k, sizeof s - (size_t)k, prog[n].k < CLEAR ? "%s %d, " : "%s, ", kname[prog[n].k], sigs[prog[n].s]);
    mc_ctx("%s", s); mc_note("%s", s);
    prune();
    run();
}
/* every signal number */
static void sc_numbers(int v)
{
    (void)v;
    int s = mc_choose(_NSIG + 8) - 4;
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    struct sigaction a, b;
    mc_ctx("signal number %d", s);
    int ok = sigaction(s, NULL, &a) == 0 && s != SIGKILL && s != SIGSTOP;
    picotm_libc_acquire_proc_signal(s, on_new, &e);
    mc_check(picotm_error_is_set(&e) == !ok, "number", "acquiring signal %d %s", s, ok ? "fails" : "reports no error");
    if (!ok) mc_check(e.status == PICOTM_ERRNO && e.value.errno_hint == EINVAL, "number", "signal %d: error status %d", s, e.status);
    memset(&e, 0, sizeof e);
    picotm_libc_add_signal(s, true, &e);
    if (ok) {
        mc_check(!picotm_error_is_set(&e), "number", "adding signal %d fails", s);
        static volatile int rec;
        static int sv;
        rec = 0; sv = s; calls_a = 0;
        picotm_begin
            pthread_kill(pthread_self(), sv);
        picotm_commit
            rec = picotm_error_status() == PICOTM_SIGINFO_T ? picotm_error_as_siginfo_t()->si_signo : -1;
        picotm_end
        mc_check(rec == sv, "number", "signal %d: the recovery code finds signal %d", sv, rec);
        picotm_libc_remove_signal(s);
        pthread_kill(pthread_self(), s);
        mc_check(calls_a == 1 && last_signo == s, "number", "signal %d does not reach the handler", s);
        picotm_libc_release_proc_signal(s, &e);
        sigaction(s, NULL, &b);
        mc_check(a.sa_sigaction == b.sa_sigaction && (a.sa_flags | 0x04000000) == (b.sa_flags | 0x04000000), "number", "signal %d is not restored", s);
    } else {
        mc_check(picotm_error_is_set(&e) || (s >= 0 && s < _NSIG), "number", "adding signal %d reports no error", s);
        picotm_libc_remove_signal(s);
        memset(&e, 0, sizeof e);
        picotm_libc_release_proc_signal(s, &e);
    }
    picotm_release();
    mc_cases(1);
    mc_outcome(ok);
}
static const struct mc_scenario sc[] = {
    { "numbers", sc_numbers, 1, MC_NOPREEMPT, 0, 0, 30, 30, "every signal number" },
    { "three", sc_three, 3, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 100, "three operations on two signals" },
    { "enabled", sc_enabled, NSIGS, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 200, "an enabled signal and three more operations" },
    { "nonrecoverable", sc_non, 3, MC_NOPREEMPT, 0, 0, 60, 200, "sequences that end with a signal that's not recoverable" },
    { "four", sc_four, 3, MC_NOPREEMPT | MC_INPROC | MC_THOROUGH_ONLY, 0, 0, 60, 400, "four operations" },
};
#else
/* a signal at each step of the interface functions and of a transaction */
static volatile int raised;
static void fire(void) { raised++; pthread_kill(pthread_self(), SIGUSR1); }
static int aops[4], natop;
static volatile int committed;
static void do_op(int k)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    switch (k) {
    case 0: picotm_libc_acquire_proc_signal(SIGUSR1, on_new, &e); break;
    case 1: picotm_libc_release_proc_signal(SIGUSR1, &e); break;
    case 2: picotm_libc_add_signal(SIGUSR2, true, &e); break;
    case 3: picotm_libc_remove_signal(SIGUSR2); break;
    case 4:
        picotm_begin
            store_ulong_tx(&cell, load_ulong_tx(&cell) + 1);
        picotm_commit
            mc_fail("transaction", "recovery");
        picotm_end
        committed++;
        break;
    case 5: picotm_release(); break;
    case 6: picotm_libc_acquire_proc_signal(SIGUSR2, on_new, &e); break;
    case 7: picotm_libc_release_proc_signal(SIGUSR2, &e); break;
    }
    mc_check(!picotm_error_is_set(&e), "error", "operation %d reports an error", k);
}
static const char* const aname[] = { "acquire", "release", "add another", "remove another", "transaction", "picotm_release", "acquire another", "release another" };
static void async_fn(int t)
{
    (void)t;
    mc_async = fire;
    for (int i = 0; i < natop; i++) do_op(aops[i]);
    mc_async = NULL;
    picotm_release();
}
static void sc_async(int v)
{
    static char s[200];
    natop = mc_tier_thorough ? 3 : 2;
    int k = 0;
    aops[0] = v;
    for (int i = 1; i < natop; i++) aops[i] = mc_choose(8);
    for (int i = 0; i < natop; i++) k += snprintf(s + k, sizeof s - (size_t)k, "%s, ", aname[aops[i]]);
    mc_ctx("signal during %s", s); mc_note("%s", s);
    for (int i = 0; i < NSIGS; i++) install_old(i);
    raised = calls_o = calls_a = committed = 0;
    cell = 0;
    mc_fault_budget = mc_tier_thorough ? 2 : 1;
    int a0 = mc_choose(2);
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    if (a0) picotm_libc_acquire_proc_signal(SIGUSR1, on_new, &e);
    mc_run_threads(1, async_fn);
    mc_check(calls_o + calls_a == raised, "signal", "%d signals reach %d handlers", raised, calls_o + calls_a);
    mc_check(cell == (unsigned long)committed, "transaction", "%d transactions commit, %lu are visible", committed, cell);
    masks("at the end");
    picotm_libc_release_proc_signal(SIGUSR1, &e); picotm_libc_release_proc_signal(SIGUSR2, &e);
    mc_check(same(0) && same(3), "disposition", "the signals are not restored");
    picotm_release();
    mc_outcome(calls_o * 3 + calls_a);
    mc_cases(1);
}
/* threads that acquire, release and raise */
enum { TACQ, TREL, TTX, TTXOFF, TRAISE, NTOP };
static const char* const tname[] = { "acquire", "release", "enabled transaction raises", "transaction raises", "raise" };
static int tp[3][2], nthr_;
static volatile int trec[3], tcall[3];
static __thread volatile int mycalls;
static void t_old(int s, siginfo_t* i, void* u) { (void)s; (void)i; (void)u; mycalls++; }
static void thread_fn(int t)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    for (int i = 0; i < 2; i++) {
        volatile int rec = 0;
        mycalls = 0;
        switch (tp[t][i]) {
        case TACQ: picotm_libc_acquire_proc_signal(SIGUSR1, t_old, &e); break;
        case TREL: picotm_libc_release_proc_signal(SIGUSR1, &e); break;
        case TTX: case TTXOFF:
            if (tp[t][i] == TTX) picotm_libc_add_signal(SIGUSR1, true, &e); else picotm_libc_remove_signal(SIGUSR1);
            picotm_begin
                mc_point();
                pthread_kill(pthread_self(), SIGUSR1);
                mc_point();
            picotm_commit
                rec = 1;
                mc_check(picotm_error_status() == PICOTM_SIGINFO_T && picotm_error_as_siginfo_t()->si_signo == SIGUSR1, "recovery", "T%d: recovery with status %d", t, picotm_error_status());
            picotm_end
            /* the signal aborts the transaction or reaches a handler; between release and re-installation neither */
            mc_check(rec + mycalls <= 1, "recovery", "T%d: %d recoveries and %d calls of handlers for one signal", t, rec, mycalls);
            if (tp[t][i] == TTXOFF) mc_check(!rec, "recovery", "T%d has not enabled the signal, but recovers", t);
            trec[t] += rec;
            break;
        case TRAISE: pthread_kill(pthread_self(), SIGUSR1); mc_check(mycalls <= 1, "handler", "T%d: %d calls", t, mycalls); break;
        }
        mc_check(!picotm_error_is_set(&e), "error", "T%d: %s reports an error", t, tname[tp[t][i]]);
        tcall[t] += mycalls;
    }
    picotm_release();
}
static void go(int v, int n)
{
    static char s[300];
    int k = 0, nraise = 0, ntx = 0;
    bool rel = false, acq;
    nthr_ = n;
    for (int t = 0; t < n; t++) for (int i = 0; i < 2; i++) {
        tp[t][i] = t == 0 && i == 0 ? v : n == 3 && i && !mc_tier_thorough ? NTOP : mc_choose(NTOP);
        if (tp[t][i] < NTOP) k += snprintf(s + k, sizeof s - (size_t)k, "T%d %s; ", t, tname[tp[t][i]]);
        rel |= tp[t][i] == TREL;
        nraise += tp[t][i] >= TTX && tp[t][i] < NTOP; ntx += tp[t][i] == TTX;
    }
    acq = mc_choose(2);
    mc_ctx("%s%s", s, acq ? "acquired before" : ""); mc_note("%s", s);
    for (int i = 1; i < NSIGS; i++) install_old(i);
    struct sigaction a, b;
    memset(&a, 0, sizeof a); sigemptyset(&a.sa_mask); a.sa_sigaction = t_old; a.sa_flags = SA_SIGINFO | SA_RESTART;
    sigaction(SIGUSR1, &a, NULL);
    memset((void*)trec, 0, sizeof trec); memset((void*)tcall, 0, sizeof tcall);
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    if (acq) picotm_libc_acquire_proc_signal(SIGUSR1, t_old, &e);
    mc_run_threads(n, thread_fn);
    int r = 0, c = 0;
    for (int t = 0; t < n; t++) { r += trec[t]; c += tcall[t]; }
    if (!rel) mc_check(r + c == nraise, "signal", "%d signals cause %d recoveries and %d calls", nraise, r, c);
    if (!rel && acq) mc_check(r == ntx, "signal", "%d of %d transactions recover", r, ntx);
    picotm_libc_release_proc_signal(SIGUSR1, &e);
    sigaction(SIGUSR1, NULL, &b);
    mc_check(b.sa_sigaction == t_old && (b.sa_flags & SA_RESTART), "disposition", "the signal's disposition is not restored");
    picotm_release();
    mc_outcome(r * 10 + c);
    mc_cases(1);
}
static void sc_two(int v) { go(v, 2); }
static void sc_threads3(int v) { go(v, 3); }
static const struct mc_scenario sc[] = {
    { "async", sc_async, 8, 0, 0, 0, 60, 300, "a signal at each step of the interface functions and of transactions" },
    { "two", sc_two, NTOP, 0, 1, 2, 60, 300, "two threads acquire, release and raise a signal" },
    { "threads3", sc_threads3, NTOP, 0, 1, 2, 40, 300, "three threads" },
};
#endif
int main(int argc, char* argv[])
{
    static const char* const as[] = { "signals within a transaction arrive in the transaction's code, not in begin, commit or abort, if recovery is enabled", NULL };
    return mc_main(argc, argv, "P24", sc, sizeof sc / sizeof *sc, as);
}
