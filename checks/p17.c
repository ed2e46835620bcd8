/* P17: errno is saved and restored around transactions */
#include "fsx.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-tm.h"
#include "picotm/errno.h"
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/locale.h"
#include "picotm/locale-tm.h"
#include "picotm/sched.h"
#include "picotm/stdio.h"
#include "picotm/stdio-tm.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include "picotm/string.h"
#include "picotm/string-tm.h"
#include "picotm/sys/socket.h"
#include "picotm/sys/socket-tm.h"
#include "picotm/sys/stat.h"
#include "picotm/sys/stat-tm.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include <locale.h>
#include <sys/socket.h>
#include <sys/un.h>

/* fixture: files f (8 bytes), g, directory d; descriptors below */
enum { RDO = 40, WRO = 41, DIRFD = 42, PIPER = 43, PIPEW = 44, SOCK = 45, NOFD = 77 };
static char buf[64], buf2[64];
static char tmpl[32];
static struct sockaddr_un sa;
static locale_t loc;

/* operations: M is the transactional variant, D the direct call (failing operations only) */
#define OPS(X) \
    X(open_missing, open_tx("none", O_RDONLY), open("none", O_RDONLY)) \
    X(open_excl, open_tx("f", O_CREAT | O_EXCL | O_RDWR, 0600), open("f", O_CREAT | O_EXCL | O_RDWR, 0600)) \
    X(open_dirw, open_tx("d", O_WRONLY), open("d", O_WRONLY)) \
    X(open_notdir, open_tm("f/x", O_RDONLY), open("f/x", O_RDONLY)) \
    X(close_bad, close_tx(NOFD), close(NOFD)) \
    X(close_neg, close_tx(-1), close(-1)) \
    X(read_bad, read_tx(NOFD, buf, 4), read(NOFD, buf, 4)) \
    X(read_wronly, read_tx(WRO, buf, 4), read(WRO, buf, 4)) \
    X(read_dir, read_tx(DIRFD, buf, 4), read(DIRFD, buf, 4)) \
    X(write_bad, write_tx(NOFD, "abc", 3), write(NOFD, "abc", 3)) \
    X(write_rdonly, write_tx(RDO, "abc", 3), write(RDO, "abc", 3)) \
    X(write_piper, write_tx(PIPER, "abc", 3), write(PIPER, "abc", 3)) \
    X(read_pipew, read_tx(PIPEW, buf, 4), read(PIPEW, buf, 4)) \
    X(pread_bad, pread_tm(NOFD, buf, 4, 0), pread(NOFD, buf, 4, 0)) \
    X(pwrite_rdonly, pwrite_tm(RDO, "abc", 3, 0), pwrite(RDO, "abc", 3, 0)) \
    X(pwrite_pipe, pwrite_tx(PIPEW, "abc", 3, 0), pwrite(PIPEW, "abc", 3, 0)) \
    X(lseek_bad, lseek_tx(NOFD, 0, SEEK_SET), lseek(NOFD, 0, SEEK_SET)) \
    X(lseek_pipe, lseek_tx(PIPER, 0, SEEK_SET), lseek(PIPER, 0, SEEK_SET)) \
    X(lseek_neg, lseek_tx(RDO, -5, SEEK_SET), lseek(RDO, -5, SEEK_SET)) \
    X(lseek_whence, lseek_tx(RDO, 0, 99), lseek(RDO, 0, 99)) \
    X(fcntl_bad, fcntl_tx(NOFD, F_GETFD), fcntl(NOFD, F_GETFD)) \
    X(fcntl_cmd, fcntl_tm(RDO, 9999), fcntl(RDO, 9999)) \
    X(dup_bad, dup_tx(NOFD), dup(NOFD)) \
    X(dup2_bad, dup2_tx(NOFD, 50), dup2(NOFD, 50)) \
    X(fchdir_file, fchdir_tx(RDO), fchdir(RDO)) \
    X(fchdir_bad, fchdir_tx(NOFD), fchdir(NOFD)) \
    X(fsync_bad, fsync_tx(NOFD), fsync(NOFD)) \
    X(fsync_pipe, fsync_tx(PIPEW), fsync(PIPEW)) \
    X(chdir_missing, chdir_tx("none"), chdir("none")) \
    X(chdir_file, chdir_tm("f"), chdir("f")) \
    X(getcwd_small, -!getcwd_tx(buf, 2), -!getcwd(buf, 2)) \
    X(getcwd_zero, -!getcwd_tm(buf, 0), -!getcwd(buf, 0)) \
    X(link_missing, link_tx("none", "l"), link("none", "l")) \
    X(link_exists, link_tm("f", "g"), link("f", "g")) \
    X(unlink_missing, unlink_tx("none"), unlink("none")) \
    X(unlink_dir, unlink_tm("d"), unlink("d")) \
    X(mkdir_exists, mkdir_tx("d", 0700), mkdir("d", 0700)) \
    X(mkdir_missing, mkdir_tm("none/x", 0700), mkdir("none/x", 0700)) \
    X(mkfifo_exists, mkfifo_tx("f", 0600), mkfifo("f", 0600)) \
    X(mknod_exists, mknod_tx("f", S_IFREG | 0600, 0), mknod("f", S_IFREG | 0600, 0)) \
    X(stat_missing, stat_tx("none", (struct stat*)(void*)sb), stat("none", (struct stat*)(void*)sb)) \
    X(lstat_notdir, lstat_tm("f/x", (struct stat*)(void*)sb), lstat("f/x", (struct stat*)(void*)sb)) \
    X(fstat_bad, fstat_tx(NOFD, (struct stat*)(void*)sb), fstat(NOFD, (struct stat*)(void*)sb)) \
    X(chmod_missing, chmod_tx("none", 0600), chmod("none", 0600)) \
    X(fchmod_bad, fchmod_tx(NOFD, 0600), fchmod(NOFD, 0600)) \
    X(mkstemp_bad, mkstemp_tx(strcpy(tmpl, "abc")), mkstemp(strcpy(tmpl, "abc"))) \
    X(mkdtemp_bad, -!mkdtemp_tx(strcpy(tmpl, "abc")), -!mkdtemp(strcpy(tmpl, "abc"))) \
    X(socket_bad, socket_tx(9999, 0, 0), socket(9999, 0, 0)) \
    X(bind_bad, bind_tx(NOFD, (void*)&sa, sizeof sa), bind(NOFD, (void*)&sa, sizeof sa)) \
    X(bind_notsock, bind_tm(RDO, (void*)&sa, sizeof sa), bind(RDO, (void*)&sa, sizeof sa)) \
    X(connect_refused, connect_tx(SOCK, (void*)&sa, sizeof sa), connect(SOCK, (void*)&sa, sizeof sa)) \
    X(listen_unbound, listen_tx(SOCK, 1), listen(SOCK, 1)) \
    X(accept_notsock, accept_tm(RDO, NULL, NULL), accept(RDO, NULL, NULL)) \
    X(send_notsock, send_tx(RDO, "a", 1, 0), send(RDO, "a", 1, 0)) \
    X(recv_notsock, recv_tx(RDO, buf, 1, 0), recv(RDO, buf, 1, 0)) \
    X(shutdown_unconn, shutdown_tx(SOCK, SHUT_RDWR), shutdown(SOCK, SHUT_RDWR)) \
    X(malloc_huge, -!malloc_tx(SIZE_MAX - 9), (errno = ENOMEM, -1)) \
    X(calloc_huge, -!calloc_tx(SIZE_MAX / 2, 4), (errno = ENOMEM, -1)) \
    X(realloc_huge, -!realloc_tx(NULL, SIZE_MAX - 9), (errno = ENOMEM, -1)) \
    X(memalign_bad, (posix_memalign_tx((void**)(void*)buf, 3, 8), 0), (errno = EINVAL, -1)) \
    X(strdup_ok, -!strdup_tx("abc"), 0) \
    X(setlocale_bad, -!setlocale_tx(LC_ALL, "no_such_locale"), -2) \
    X(setlocale_get, -!setlocale_tm(LC_ALL, NULL), 0) \
    X(newlocale_bad, newlocale_tx(LC_ALL_MASK, "no_such_locale", (locale_t)0) ? 0 : -1, -3 /* glibc sets errno only the first time */) \
    X(newlocale_ok, newlocale_tm(LC_ALL_MASK, "C", (locale_t)0) ? 0 : -1, 0) \
    X(duplocale_ok, duplocale_tx(loc) ? 0 : -1, 0) \
    X(freelocale_ok, (freelocale_tx(duplocale_tx(loc)), 0), 0) \
    X(localeconv_ok, -!localeconv_tx(), 0) \
    X(strerror_bad, -!strerror_r_gnu(), 0) \
    X(strerror_posix, (__strerror_r_posix_tx(99999, buf, sizeof buf), 0), -3) \
    X(strerror_small, (__strerror_r_posix_tm(EINVAL, buf, 2), 0), -3) \
    X(errno_tx, (errno_tx = E2BIG, 0), 0) \
    X(read_ok, (read_tx(RDO, buf, 4) == 4) - 1, 0) \
    X(write_ok, (write_tx(WRO, "xyz", 3) == 3) - 1, 0) \
    X(open_ok, open_tx("new", O_CREAT | O_RDWR, 0600), 0) \
    X(mkdir_ok, 0, 0) \
    X(dup_ok, dup_tx(RDO), 0) \
    X(pipe_ok, pipe_tm((int*)(void*)buf2), 0) \
    X(chdir_ok, chdir_tx("d"), 0) \
    X(snprintf_ok, snprintf_tx(buf, 9, "%d", 7), 0) \
    X(sscanf_none, (sscanf_tx("x", "%d", (int*)(void*)buf), 0), 0) \
    X(getcwd_ok, -!getcwd_tm(cwdbuf, sizeof cwdbuf), 0) \
    X(close_ok, close_tx(PIPER), 0) \
    X(free_ok, (free_tx(malloc_tx(9)), 0), 0) \
    X(yield_ok, sched_yield_tx(), 0)

static char cwdbuf[4096];
static long sb[64];
static char* strerror_r_gnu(void) { return __strerror_r_gnu_tx(99999, buf, sizeof buf); }

#define T(n, m, d) static long t_##n(void) { return (long)(m); } static long d_##n(void) { return (long)(d); }
OPS(T)
#define E(n, m, d) { #n, t_##n, d_##n },
static const struct { const char* name; long (*tx)(void), (*direct)(void); } ops[] = { OPS(E) };
#define NOPS ((int)(sizeof ops / sizeof *ops))

static int want[NOPS]; /* errno of the direct call, 0: succeeds, -1: either */
static void fixture(void)
{
    fsx_begin();
    fsx_put("f", "01234567", 8); fsx_put("g", "", 0);
    mkdir("d", 0755);
    fsx_move(open("f", O_RDONLY), RDO);
    fsx_move(open("g", O_WRONLY), WRO);
    fsx_move(open("d", O_RDONLY), DIRFD);
    int p[2];
    if (pipe(p)) abort();
    fsx_move(p[0], PIPER); fsx_move(p[1], PIPEW);
    fsx_move(socket(AF_UNIX, SOCK_STREAM, 0), SOCK);
    sa.sun_family = AF_UNIX; strcpy(sa.sun_path, "nosock");
}
static void learn(void)
{
    static bool done;
    if (done) return;
    done = true;
    loc = newlocale(LC_ALL_MASK, "C", (locale_t)0);
    for (int i = 0; i < NOPS; i++) {
        fixture();
        errno = 0;
        long r = ops[i].direct();
        want[i] = r == -2 || r == -3 ? -1 : r < 0 ? errno : 0;
    }
}

enum { E_COMMIT, E_ERROR, E_CONFLICT, E_RESTART, E_IRREVOCABLE, NEND };
static const char* const endname[] = { "commit", "error", "conflict, then commit", "restart, then commit", "irrevocable, then commit" };
static int prog[3], plen, end_, clobber, status, at_end, e0, in_recovery, first;
static volatile int attempts, pos;

/* one transaction: the operations of prog, then end_ */
static void one(void)
{
    status = -1; attempts = 0; pos = 0; first = -1;
    errno = e0;
    picotm_begin
        int e = errno;
        mc_check(e == e0, attempts ? "retry" : "begin", "attempt %d starts with errno %d instead of %d", attempts + 1, e, e0);
        attempts++;
        for (pos = 0; pos < plen; pos++) {
            long r = ops[prog[pos]].tx();
            mc_check(r >= 0, "no recovery", "%s returns %ld", ops[prog[pos]].name, r);
            mc_check(pos || want[prog[pos]] <= 0, "no recovery", "%s returns, the direct call fails with errno %d", ops[prog[pos]].name, want[prog[pos]]);
        }
        if (clobber) errno_tx = ECHILD;
        if (end_ == E_ERROR) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
        if (end_ == E_CONFLICT && attempts == 1) {
            struct picotm_error ce = PICOTM_ERROR_INITIALIZER;
            picotm_error_set_conflicting(&ce, NULL);
            picotm_recover_from_error(&ce);
        }
        if (end_ == E_RESTART && attempts == 1) picotm_restart();
        if (end_ == E_IRREVOCABLE) picotm_irrevocable();
        at_end = errno;
    picotm_commit
        in_recovery = errno;
        status = picotm_error_status() == PICOTM_ERRNO ? picotm_error_as_errno() : picotm_error_status() == PICOTM_ERROR_CODE ? 1000 : 1001;
    picotm_end
    int after = errno;
    if (status == -1) {
        mc_check(end_ != E_ERROR, "commit", "the transaction commits after an error");
        mc_check(after == at_end, "commit", "errno is %d after the commit, the transaction left %d", after, at_end);
        if (clobber) mc_check(after == ECHILD, "commit", "errno is %d after the commit, the transaction set %d", after, ECHILD);
    } else {
        mc_check(in_recovery == e0, "abort", "errno is %d in the recovery code, was %d at begin", in_recovery, e0);
        mc_check(after == e0, "abort", "errno is %d after the abort, was %d at begin", after, e0);
        if (pos < plen) {
            int w = pos ? -1 : want[prog[pos]]; /* the first operation may have changed what the second one finds */
            mc_check(w, "unexpected error", "%s fails with errno %d, the direct call succeeds", ops[prog[pos]].name, status);
            if (w > 0) mc_check(status == w || (w == ENOMEM && status == 1000) , "wrong error", "%s reports error %d (%s), the direct call fails with %d (%s)", ops[prog[pos]].name, status, strerror(status), w, strerror(w));
        } else mc_check(end_ == E_ERROR && status == 1000, "unexpected error", "the transaction ends with error %d", status);
    }
}
/* what was free_ok'ed and the like is of no interest here */
static void run(int len, bool repeat)
{
    learn();
    static const int init[] = { 0, EDOM, EAGAIN };
    plen = len;
    for (int i = 0; i < len; i++) prog[i] = mc_choose(NOPS);
    end_ = mc_choose(NEND);
    e0 = init[mc_choose(len > 1 ? 2 : 3)];
    clobber = mc_choose(2);
    for (int i = 0; i < len; i++) mc_note("%s", ops[prog[i]].name);
    mc_note("%s; errno is %d at begin%s", endname[end_], e0, clobber ? "; changed by the transaction afterwards" : "");
    mc_ctx("%s%s%s, then %s; errno is %d at begin%s", ops[prog[0]].name, len > 1 ? ", " : "", len > 1 ? ops[prog[1]].name : "", endname[end_], e0, clobber ? "; changed by the transaction afterwards" : "");
    for (int rep = 0; rep < 1 + repeat; rep++) {
        fixture();
        one();
        mc_cases(1);
        e0 = ENOTTY; /* the next transaction has to restore its own errno */
    }
    picotm_release();
    setlocale(LC_ALL, "C");
    fsx_end();
    mc_outcome(status + 2);
}
/* transactions one after the other in the same thread: each of them has its own errno to restore */
static void history(int ntx)
{
    static const char* const some[] = { "open_missing", "errno_tx", "getcwd_ok", "read_ok", "malloc_huge", "strerror_bad", "yield_ok", "setlocale_bad", "close_bad" };
    enum { NSOME = sizeof some / sizeof *some };
    static const int init[] = { EDOM, 0, EAGAIN };
    learn();
    fixture();
    for (int i = 0; i < ntx; i++) {
        int c = mc_choose(NSOME + 1);
        plen = c < NSOME;
        for (int k = 0; plen && k < NOPS; k++) if (!strcmp(ops[k].name, some[c])) prog[0] = k;
        end_ = mc_choose(NEND);
        clobber = mc_choose(2);
        e0 = init[i];
        mc_note("transaction %d: %s, then %s; errno is %d at begin%s", i + 1, plen ? some[c] : "nothing", endname[end_], e0, clobber ? "; changed by the transaction afterwards" : "");
        mc_ctx("transaction %d: %s, then %s; errno is %d at begin%s", i + 1, plen ? some[c] : "nothing", endname[end_], e0, clobber ? "; changed by the transaction afterwards" : "");
        one();
    }
    mc_cases(1);
    picotm_release();
    setlocale(LC_ALL, "C");
    fsx_end();
    mc_outcome(status + 2);
}
static void sc_single(int v) { (void)v; run(1, true); }
static void sc_pair(int v) { (void)v; run(2, false); }
static void sc_history(int v) { (void)v; history(2 + mc_tier_thorough); }
static const struct mc_scenario sc[] = {
    { "single", sc_single, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 30, 60, "every operation that fails or succeeds x how the transaction ends x errno at begin and set by the transaction; twice" },
    { "pair", sc_pair, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 400, "all pairs of these operations" },
    { "history", sc_history, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 300, "two (thorough: three) transactions one after the other, each with its own errno at begin: operation, how it ends, errno set by the transaction" },
};
int main(int argc, char* argv[])
{
    static const char* const as[] = { "arguments are fixed per operation; the direct call in the same state gives the expected error", NULL };
    fsx_init();
    int r = mc_main(argc, argv, "P17", sc, sizeof sc / sizeof *sc, as);
    fsx_cleanup();
    return r;
}
