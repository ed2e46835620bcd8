/* P20: concurrent transactions open, close and duplicate descriptors. What
 * they observe and the descriptors and files at the end match a serial order. */
#include "fsx.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/fcntl.h"
#include "picotm/unistd.h"
#include "picotm/sys/stat.h"

enum { NT = 3, NOP = 2, NFD = 2, FD0 = 40 };
enum kind { NONE, CLOSE, WRITE, DUP, OPEN, DUPWRITE, GETFD, SETFD, DUP2, PIPE, NKIND };
static const char* const kname[] = { "-", "close", "write", "dup", "open", "dup and write", "F_GETFD", "F_SETFD", "dup2", "pipe" };
struct op { enum kind k; int a; };
enum { OUT_COMMIT, OUT_ERROR, OUT_RESTART };
static const char* const oname[] = { "commit", "error", "restart once, then commit" };
static struct { struct op op[NOP]; int out; } prog[NT];
static int res[NT][NOP], status[NT];     /* descriptor numbers and flags of the committed attempt */
static int npfd[NT][NOP][2];
static volatile int owner[128];         /* which transaction got this number */

static void got(int t, int fd)
{
    mc_check(fd >= 0 && fd < 128, "descriptor number", "T%d: descriptor %d", t, fd);
    mc_check(fcntl(fd, F_GETFD) >= 0, "descriptor", "T%d: the new descriptor %d is not open", t, fd);
}
static int run_op(int t, int i)
{
    const struct op* o = prog[t].op + i;
    int fd = FD0 + o->a, n;
    char c = (char)('a' + t), name[3] = { 'n', c, 0 };
    switch (o->k) {
    case CLOSE: return close_tx(fd);
    case WRITE: return write_tx(fd, &c, 1) == 1 ? 0 : 100;
    case DUP: n = dup_tx(fd); got(t, n); return n;
    case OPEN: n = open_tx(name, O_RDWR | O_CREAT, 0600); got(t, n); return n;
    case DUPWRITE: n = dup_tx(fd); got(t, n); return write_tx(n, &c, 1) == 1 ? n : 100;
    case GETFD: return fcntl_tx(fd, F_GETFD);
    case SETFD: return fcntl_tx(fd, F_SETFD, FD_CLOEXEC);
    case DUP2: n = dup2_tx(fd, 60 + t); mc_check(n == 60 + t, "result", "dup2() returns %d", n); return n;
    case PIPE: pipe_tx(npfd[t][i]); got(t, npfd[t][i][0]); got(t, npfd[t][i][1]); return 0;
    default: return 0;
    }
}
static bool mine(enum kind k) { return k == DUP || k == OPEN || k == DUPWRITE; }
static void thread_fn(int t)
{
    volatile int tries = 0;
    static volatile int irr[NT];
    status[t] = -1;
    picotm_begin
        if (picotm_number_of_restarts()) mc_yield();
        irr[t] = 0;
        tries = tries + 1;
        for (int i = 0; i < NOP; i++) res[t][i] = run_op(t, i);
        irr[t] = picotm_is_irrevocable();
        if (prog[t].out == OUT_ERROR && !irr[t]) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
        if (prog[t].out == OUT_RESTART && tries == 1 && !irr[t]) picotm_restart();
    picotm_commit
        status[t] = picotm_error_status() == PICOTM_ERRNO ? picotm_error_as_errno() : 1000;
        mc_check(status[t] == EBADF || (status[t] == 1000 && prog[t].out == OUT_ERROR), "unexpected error", "T%d: error status %d, errno %d", t, picotm_error_status(), picotm_error_as_errno());
        mc_check(!picotm_error_is_non_recoverable(), "non-recoverable", "T%d: non-recoverable error", t);
    picotm_end
    picotm_release();
    /* what the transaction opened belongs to it */
    if (status[t] < 0) for (int i = 0; i < NOP; i++) {
        if (mine(prog[t].op[i].k)) { mc_check(!owner[res[t][i]], "descriptor number", "two transactions got descriptor %d", res[t][i]); owner[res[t][i]] = t + 1; }
        if (prog[t].op[i].k == PIPE) for (int j = 0; j < 2; j++) { mc_check(!owner[npfd[t][i][j]], "descriptor number", "two transactions got descriptor %d", npfd[t][i][j]); owner[npfd[t][i][j]] = t + 1; }
    }
}
struct st { bool open[NFD], cx[NFD]; char txt[NFD][16]; };
static struct st final;
static bool explain(int n, int done, struct st s)
{
    bool any = false;
    for (int t = 0; t < n; t++) {
        if (done >> t & 1) continue;
        any = true;
        struct st c = s; bool ok = true; int fail = -1;
        for (int i = 0; i < NOP && ok && fail < 0; i++) {
            const struct op* o = prog[t].op + i;
            int a = o->a, r = res[t][i];
            if (o->k != NONE && o->k != OPEN && o->k != PIPE && !c.open[a]) { fail = i; break; }
            switch (o->k) {
            case CLOSE: c.open[a] = c.cx[a] = false; break;   /* flags of a closed descriptor mean nothing */
            case WRITE: case DUPWRITE: sprintf(c.txt[a] + strlen(c.txt[a]), "%c", 'a' + t); break;
            case GETFD: if (status[t] < 0) ok = r == (c.cx[a] ? FD_CLOEXEC : 0); break;
            case SETFD: c.cx[a] = true; break;
            default: break;
            }
        }
        if (fail >= 0) ok = ok && status[t] == EBADF;
        else ok = ok && (status[t] < 0 || status[t] == 1000);
        if (status[t] >= 0) {
            /* F_SETFD takes effect at once and makes the transaction irrevocable */
            struct st u = s;
            if (status[t] == EBADF) {
                for (int i = 0; i < fail; i++) if (prog[t].op[i].k == SETFD || prog[t].op[i].k == DUP2) return true;
            }
            c = u;
        }
        if (ok && explain(n, done | 1 << t, c)) return true;
    }
    return !any && !memcmp(&s, &final, sizeof s);
}
static void run(int n)
{
    static char s[400];
    int k = 0;
    for (int t = 0; t < n; t++) {
        k += snprintf(s + k, sizeof s - (size_t)k, "T%d:", t);
        for (int i = 0; i < NOP; i++) k += snprintf(s + k, sizeof s - (size_t)k, prog[t].op[i].k != NONE && prog[t].op[i].k != OPEN && prog[t].op[i].k != PIPE ? " %s(%d)" : " %s", kname[prog[t].op[i].k], FD0 + prog[t].op[i].a);
        k += snprintf(s + k, sizeof s - (size_t)k, ", %s; ", oname[prog[t].out]);
    }
    mc_ctx("%s", s); mc_note("%s", s);
    fsx_begin();
    int nfd0 = 0, nfd1 = 0;
    for (int i = 0; i < NFD; i++) { char nm[2] = { (char)('0' + i), 0 }; fsx_move(open(nm, O_RDWR | O_CREAT, 0600), FD0 + i); }
    picotm_begin
        for (int i = 0; i < NFD; i++) fcntl_tx(FD0 + i, F_GETFD);
        int fd = open_tx("warm", O_RDWR | O_CREAT, 0600);
        close_tx(dup_tx(fd));
        close_tx(fd);
    picotm_commit
    picotm_end
    for (int i = 0; i < 128; i++) nfd0 += fcntl(i, F_GETFD) >= 0;
    mc_run_threads(n, thread_fn);
    for (int i = 0; i < 128; i++) nfd1 += fcntl(i, F_GETFD) >= 0;
    memset(&final, 0, sizeof final);
    int expect = nfd0;
    for (int i = 0; i < NFD; i++) {
        char nm[2] = { (char)('0' + i), 0 };
        int f = open(nm, O_RDONLY);
        if (read(f, final.txt[i], 15) < 0) _exit(3);
        close(f);
        int g = fcntl(FD0 + i, F_GETFD);
        final.open[i] = g >= 0; final.cx[i] = g > 0;
        expect -= g < 0;
    }
    bool irr = false;
    for (int t = 0; t < n; t++) for (int i = 0; i < NOP; i++) {
        const struct op* o = prog[t].op + i;
        char nm[3] = { 'n', (char)('a' + t), 0 };
        bool imm = false;        /* it became irrevocable */
        for (int j = 0; j < NOP; j++) imm |= prog[t].op[j].k == SETFD || prog[t].op[j].k == DUP2;
        irr |= imm && status[t] >= 0;
        if (o->k == OPEN && !(imm && status[t] >= 0)) mc_check(access(nm, F_OK) == (status[t] < 0 ? 0 : -1), "file", "T%d: the new file %s", t, status[t] < 0 ? "is missing" : "is left behind");
        if (status[t] >= 0) continue;
        if (mine(o->k)) { mc_check(fcntl(res[t][i], F_GETFD) >= 0, "descriptor", "descriptor %d of T%d is closed", res[t][i], t); expect++; }
        if (o->k == DUP2) { mc_check(fcntl(60 + t, F_GETFD) >= 0, "descriptor", "descriptor %d of T%d is closed", 60 + t, t); expect += i == 0 || prog[t].op[0].k != DUP2; }
        if (o->k == PIPE) { for (int j = 0; j < 2; j++) mc_check(fcntl(npfd[t][i][j], F_GETFD) >= 0, "descriptor", "descriptor %d of T%d is closed", npfd[t][i][j], t); expect += 2; }
    }
    struct st s0 = { .open = { true, true } };
    char r[300]; k = 0;
    for (int t = 0; t < n; t++) k += snprintf(r + k, sizeof r - (size_t)k, "T%d status %d results %d %d; ", t, status[t], res[t][0], res[t][1]);
    for (int i = 0; i < NFD; i++) k += snprintf(r + k, sizeof r - (size_t)k, "%d is %s, contains '%s'; ", FD0 + i, final.open[i] ? "open" : "closed", final.txt[i]);
    if (!irr) {
        mc_check(nfd1 == expect, "descriptors", "%s%d descriptors are open at the end, expected %d", r, nfd1, expect);
        mc_check(explain(n, 0, s0), "not serializable", "%s", r);
    }
    volatile int tries = 0;
    picotm_begin
        mc_check(++tries < 4, "leaked lock", "a later transaction restarts although no other transaction runs");
        for (int i = 0; i < NFD; i++) if (final.open[i]) { write_tx(FD0 + i, "z", 1); close_tx(dup_tx(FD0 + i)); }
        close_tx(open_tx("later", O_RDWR | O_CREAT, 0600));
    picotm_commit
        mc_fail("later transaction", "a later transaction fails with error %d, errno %d", picotm_error_status(), picotm_error_as_errno());
    picotm_end
    picotm_release();
    unsigned h = 0;
    for (int t = 0; t < n; t++) h = h * 7 + (unsigned)(status[t] < 0 ? 0 : status[t]);
    for (int i = 0; i < NFD; i++) for (const char* p = final.txt[i]; *p; p++) h = h * 5 + (unsigned)*p;
    fsx_end();
    mc_outcome((long)h);
    mc_cases(1);
}
static const struct op tab[] = { { CLOSE, 0 }, { WRITE, 0 }, { DUP, 0 }, { OPEN, 0 }, { DUPWRITE, 0 }, { GETFD, 0 }, { SETFD, 0 }, { DUP2, 0 }, { PIPE, 0 } };
#define N ((int)(sizeof tab / sizeof *tab))
static int ch(int q, int n) { return mc_choose(mc_tier_thorough ? n : q); }
static struct op second(int q, int n) { struct op o = { NONE, 0 }; int c = ch(q, n); if (c) { o = tab[c - 1]; } return o; }
/* the operations of a transaction on a descriptor it closed fail */
static bool fine(int t) { return prog[t].op[0].k != CLOSE || prog[t].op[1].k == NONE || prog[t].op[1].k == OPEN || prog[t].op[1].k == PIPE || prog[t].op[1].a != prog[t].op[0].a; }
static void sc_two(int v)
{
    memset(prog, 0, sizeof prog);
    prog[0].op[0] = tab[v]; prog[0].op[1] = second(3, 5);
    prog[1].op[0] = tab[ch(5, N)];
    if (mc_tier_thorough) prog[1].op[1] = second(1, 2);
    prog[0].out = mc_choose(2);
    if (fine(0) && fine(1)) run(2);
}
static void sc_three(int v)
{
    memset(prog, 0, sizeof prog);
    prog[0].op[0] = tab[v]; prog[0].op[1] = second(1, 2);
    prog[1].op[0] = tab[ch(3, 5)];
    prog[2].op[0] = tab[ch(2, 3)];
    if (fine(0)) run(3);
}
static const struct mc_scenario sc[] = {
    { "two", sc_two, N, 0, 1, 1, 60, 600, "two transactions that open, close, duplicate and write" },
    { "three", sc_three, 5, 0, 0, 1, 30, 400, "three transactions" },
};
int main(int argc, char* argv[])
{
    static const char* const as[] = { "system calls execute in one step", NULL };
    fsx_init();
    int r = mc_main(argc, argv, "P20", sc, sizeof sc / sizeof *sc, as);
    fsx_cleanup();
    return r;
}
