/* P22: concurrent transactions see changes of the working directory only
 * after commit. Threads run small programs under the controlled scheduler;
 * the directories they see have to match a serial order. */
#include "fsx.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/fcntl.h"
#include "picotm/stdlib.h"
#include "picotm/sys/stat.h"
#include "picotm/unistd.h"

enum { NT = 3, NOP = 2, NDIR = 3 };
enum kind { NONE, CHDIR, FCHDIR, GETCWD, GETCWD0, STAT, LSTAT, OPEN, NKIND };
static const char* const kname[] = { "-", "chdir", "fchdir", "getcwd", "getcwd(NULL)", "stat", "lstat", "open" };
struct op { enum kind k; int a; };
enum { OUT_COMMIT, OUT_ERROR, OUT_RESTART };
static const char* const oname[] = { "commit", "error", "restart once, then commit" };
static struct { struct op op[NOP]; int out; } prog[NT];
static int res[NT][NOP];
static char dir[NDIR][128];
static int dirfd_[NDIR];

static int which(const char* p) { for (int i = 0; i < NDIR; i++) if (!strcmp(p, dir[i])) return i; return 100; }
static int run_op(int t, int i)
{
    static struct stat st[NT]; /* they outlive the transactions */
    static char buf[NT][256];
    const struct op* o = prog[t].op + i;
    switch (o->k) {
    case CHDIR: return chdir_tx(dir[o->a]);
    case FCHDIR: return fchdir_tx(dirfd_[o->a]);
    case GETCWD: return which(getcwd_tx(buf[t], sizeof *buf));
    case GETCWD0: { char* p = getcwd_tx(NULL, 0); int r = which(p); free_tx(p); return r; }
    /* the file k has another size in each directory */
    case STAT: stat_tx("k", st + t); return (int)st[t].st_size - 1;
    case LSTAT: lstat_tx("k", st + t); return (int)st[t].st_size - 1;
    case OPEN: { int fd = open_tx("k", O_RDONLY); fstat_tx(fd, st + t); return (int)st[t].st_size - 1; }
    default: return 0;
    }
}
static void thread_fn(int t)
{
    volatile int tries = 0;
    picotm_begin
        if (picotm_number_of_restarts()) mc_yield();
        tries++;
        for (int i = 0; i < NOP; i++) res[t][i] = run_op(t, i);
        if (prog[t].out == OUT_ERROR) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
        if (prog[t].out == OUT_RESTART && tries == 1) picotm_restart();
    picotm_commit
        mc_check(prog[t].out == OUT_ERROR, "unexpected error", "T%d: recovery with error status %d", t, picotm_error_status());
        for (int i = 0; i < NOP; i++) res[t][i] = -1;
    picotm_end
    picotm_release();
}
static bool explain(int n, int done, int cwd, int final)
{
    bool any = false;
    for (int t = 0; t < n; t++) {
        if (done >> t & 1) continue;
        any = true;
        int c = cwd; bool ok = true;
        if (prog[t].out != OUT_ERROR) for (int i = 0; i < NOP && ok; i++) switch (prog[t].op[i].k) {
            case NONE: break;
            case CHDIR: case FCHDIR: c = prog[t].op[i].a; ok = res[t][i] == 0; break;
            default: ok = res[t][i] == c;
        }
        if (ok && explain(n, done | 1 << t, c, final)) return true;
    }
    return !any && cwd == final;
}
static void run(int n)
{
    static char s[400];
    int k = 0;
    for (int t = 0; t < n; t++) {
        k += snprintf(s + k, sizeof s - (size_t)k, "T%d:", t);
        for (int i = 0; i < NOP; i++) k += snprintf(s + k, sizeof s - (size_t)k, prog[t].op[i].k == CHDIR || prog[t].op[i].k == FCHDIR ? " %s(%d)" : " %s", kname[prog[t].op[i].k], prog[t].op[i].a);
        k += snprintf(s + k, sizeof s - (size_t)k, ", %s; ", oname[prog[t].out]);
    }
    mc_ctx("%s", s); mc_note("%s", s);
    if (chdir(dir[0])) _exit(3);
    for (int i = 0; i < NDIR; i++) { fsx_move(open(dir[i], O_RDONLY | O_DIRECTORY), 40 + i); dirfd_[i] = 40 + i; }
    picotm_begin
        static char b[200];
        getcwd_tx(b, sizeof b);
    picotm_commit
    picotm_end
    mc_run_threads(n, thread_fn);
    char c[200];
    int final = which(getcwd(c, sizeof c));
    char r[200]; k = 0;
    for (int t = 0; t < n; t++) k += snprintf(r + k, sizeof r - (size_t)k, "T%d %d %d; ", t, res[t][0], res[t][1]);
    mc_check(explain(n, 0, 0, final), "not serializable", "%sdirectory %d at the end", r, final);
    /* the lock is free again */
    volatile int tries = 0, rec = 0;
    picotm_begin
        mc_check(++tries < 4, "leaked lock", "a transaction cannot change the directory although no other transaction runs");
        chdir_tx(dir[1]);
        picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        rec = 1;
    picotm_end
    mc_check(rec && getcwd(c, sizeof c) && which(c) == final, "restored", "the directory is not restored");
    picotm_release();
    unsigned h = (unsigned)final;
    for (int t = 0; t < n; t++) for (int i = 0; i < NOP; i++) h = h * 5 + (unsigned)(res[t][i] + 1);
    mc_outcome((long)h);
    mc_cases(1);
}
static const struct op tab[] = { { CHDIR, 1 }, { FCHDIR, 2 }, { GETCWD, 0 }, { STAT, 0 }, { OPEN, 0 }, { LSTAT, 0 }, { GETCWD0, 0 }, { NONE, 0 } };
#define N ((int)(sizeof tab / sizeof *tab))
static int ch(int q, int n) { return mc_choose(mc_tier_thorough ? n : q); }
static void sc_two(int v)
{
    memset(prog, 0, sizeof prog);
    prog[0].op[0] = tab[v]; prog[0].op[1] = tab[ch(3, N)];
    prog[1].op[0] = tab[ch(4, N - 1)];
    if (mc_tier_thorough) prog[1].op[1] = tab[mc_choose(N)];
    if (prog[1].op[0].k == CHDIR) prog[1].op[0].a = 2;
    if (prog[1].op[1].k == CHDIR) prog[1].op[1].a = 0;
    prog[0].out = ch(2, 3);
    run(2);
}
static void sc_three(int v)
{
    memset(prog, 0, sizeof prog);
    prog[0].op[0] = tab[v]; prog[0].op[1] = tab[ch(1, 4)];
    prog[1].op[0] = tab[ch(2, 5)];
    prog[2].op[0] = tab[2 + ch(2, 3)];
    if (prog[1].op[0].k == CHDIR) prog[1].op[0].a = 2;
    prog[1].out = ch(1, 3);
    run(3);
}
static const struct mc_scenario sc[] = {
    { "two", sc_two, N - 1, 0, 1, 2, 40, 300, "two transactions that change and observe the working directory" },
    { "three", sc_three, 4, 0, 1, 2, 30, 200, "three transactions" },
};
int main(int argc, char* argv[])
{
    static const char* const as[] = { "system calls execute in one step", NULL };
    fsx_init();
    strcpy(dir[0], fsx_base);
    for (int i = 1; i < NDIR; i++) { sprintf(dir[i], "%s/%c", fsx_base, 'c' + i); if (mkdir(dir[i], 0755)) exit(3); }
    for (int i = 0; i < NDIR; i++) { if (chdir(dir[i])) exit(3); fsx_put("k", "kkkk", (size_t)i + 1); }
    unsetenv("PWD");
    int r = mc_main(argc, argv, "P22", sc, sizeof sc / sizeof *sc, as);
    fsx_cleanup();
    return r;
}
