/* P20: file descriptors are opened, closed and duplicated by the transaction as
 * a whole. The same calls run directly in a second directory with descriptors
 * of the same kinds. */
#include "fsx.h"
#include <sys/resource.h>
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-tm.h"
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include "picotm/sys/socket.h"
#include "picotm/sys/socket-tm.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include <dirent.h>

enum kind { OPEN, OPENNEW, OPENNONE, CREAT, MKSTEMP, PIPE, SOCKET, CLOSE, DUP, DUPFD, DUPFDX, DUP2NEW, DUP2SELF, DUP2, GETFD, SETFD, GETFL, SETFL, GETLK, SETLK, GETOWN, WRITE, LSEEK, NKIND };
static const char* const kname[] = { "open(RDWR)", "open(CREAT|EXCL)", "open(missing)", "creat", "mkstemp", "pipe", "socket", "close", "dup", "F_DUPFD", "F_DUPFD_CLOEXEC", "dup2 to a free number", "dup2 to itself", "dup2", "F_GETFD", "F_SETFD", "F_GETFL", "F_SETFL", "F_GETLK", "F_SETLK", "F_GETOWN", "write", "lseek" };
enum { NINIT = 5, NSLOT = 16, MAXLEN = 4, MINFD = 48 };
static const char* const sname[] = { "file", "pipe (write)", "directory", "socket", "pipe (read)" };
enum { BAD_NEG = -1, BAD_FREE = -2, BAD_LARGE = -3 };   /* no descriptors */
static const int badfd[] = { 0, -1, 88, 100000 };
struct op { enum kind k; int s, t; };
static struct op prog[MAXLEN];
static int plen;
enum { E_COMMIT, E_ERROR, E_RESTART, E_CONFLICT, E_IRREVOCABLE, NEND };
static const char* const endname[] = { "commit", "error", "restart, then commit", "conflict, then commit", "become irrevocable, then commit" };
static int end_;
static volatile int slot[2][NSLOT], nslot[2], slot0[2][NSLOT];
static int other[2][3], outside;        /* the far ends of pipe, socket and second pipe */
static int ofdlock[2];
static char dir[2][200];
static char tmpl[2][MAXLEN][16];
static int pfd[2][MAXLEN][2];
static struct flock lk[2][MAXLEN];
struct res { long r; int err; char txt[120]; };
static struct res want[MAXLEN];
static bool use_tm, oom, few;

static int num(int w, int s) { return s < 0 ? badfd[-s] : slot[w][s]; }
static void add(int w, int fd) { slot[w][nslot[w]] = fd; nslot[w] = nslot[w] + 1; }
static unsigned char was[128];
static void remember(void) { for (int i = 0; i < 128; i++) was[i] = fcntl(i, F_GETFD) >= 0; }
static void lowest(const char* what, int fd, int min)
{
    if (fd < 0) return;
    if (fd >= 128) mc_fail("descriptor number", "%s returns %d", what, fd);
    mc_check(!was[fd], "descriptor number", "%s returns %d, which is in use", what, fd);
    for (int i = min; i < fd; i++) mc_check(was[i], "descriptor number", "%s returns %d, although %d is free", what, fd, i);
    was[fd] = 1;
}
static const char* opstr(const struct op* o)
{
    static char s[4][80]; static int n; char* p = s[n++ & 3];
    char b[2][24];
    for (int i = 0; i < 2; i++) {
        int x = i ? o->t : o->s;
        if (x < 0) snprintf(b[i], sizeof b[i], "%d", badfd[-x]);
        else snprintf(b[i], sizeof b[i], x < NINIT ? "%s" : "new descriptor", x < NINIT ? sname[x] : "");
    }
    if (o->k < CLOSE) return kname[o->k];
    snprintf(p, 80, o->k == DUP2 ? "%s(%s, %s)" : "%s(%s)", kname[o->k], b[0], b[1]);
    return p;
}

/* The number of a descriptor the transaction closed is free after the commit only. */
static int held[NSLOT], nheld;
static void hold(void)
{
    nheld = 0;
    const int null = 110;
    fsx_move(open("/dev/null", O_RDONLY), null);
    for (int i = 0; i < nslot[1]; i++) if (fcntl(slot[1][i], F_GETFD) < 0) {
        if (dup2(null, slot[1][i]) < 0) abort();
        held[nheld++] = slot[1][i];
    }
    close(null);
}
static void unhold(void) { while (nheld) close(held[--nheld]); }
/* world 0: transaction, 1: direct */
static struct res do_op(int w, int i);
static struct res run_op(int w, int i)
{
    enum kind k = prog[i].k;
    bool opens = w && (k < CLOSE || k == DUP || k == DUPFD || k == DUPFDX) && nslot[1] > NINIT;
    bool dead = prog[i].s >= 0 && k >= CLOSE && fcntl(slot[w][prog[i].s], F_GETFD) < 0;
    if (opens && !dead) hold();
    struct res r = do_op(w, i);
    if (opens) { int e = errno; unhold(); errno = e; }
    return r;
}
static struct res do_op(int w, int i)
{
    const struct op* o = prog + i;
    struct res r = { 0, 0, "" };
    int fd = num(w, o->s), n = -1;
    errno = 0;
    if (!w) remember();
#define CALL(name, ...) (w ? name(__VA_ARGS__) : use_tm ? name##_tm(__VA_ARGS__) : name##_tx(__VA_ARGS__))
#define CALL1(name, ...) (w ? name(__VA_ARGS__) : name##_tx(__VA_ARGS__))
    switch (o->k) {
    case OPEN: n = CALL(open, "f1", O_RDWR); break;
    case OPENNEW: n = CALL(open, "n", O_RDWR | O_CREAT | O_EXCL | O_CLOEXEC, 0600); break;
    case OPENNONE: n = CALL(open, "missing", O_RDWR); break;
    case CREAT: n = CALL1(creat, "c", 0600); break;
    case MKSTEMP: n = CALL(mkstemp, tmpl[w][i]); break;
    case SOCKET: n = CALL1(socket, AF_UNIX, SOCK_DGRAM, 0); break;
    case PIPE: r.r = CALL(pipe, pfd[w][i]);
        if (r.r >= 0) {
            if (!w) { lowest("pipe()", pfd[w][i][0], 0); lowest("pipe()", pfd[w][i][1], 0); }
            add(w, pfd[w][i][0]); add(w, pfd[w][i][1]);
        }
        break;
    case CLOSE: r.r = CALL1(close, fd); break;
    case DUP: n = CALL1(dup, fd); break;
    case DUPFD: n = CALL(fcntl, fd, F_DUPFD, MINFD); break;
    case DUPFDX: n = CALL(fcntl, fd, F_DUPFD_CLOEXEC, MINFD); break;
    case DUP2NEW: n = CALL1(dup2, fd, (w ? 70 : 60) + i);
        if (n >= 0) { mc_check(n == (w ? 70 : 60) + i, "descriptor number", "dup2() returns %d", n); add(w, n); }
        break;
    case DUP2SELF: r.r = CALL1(dup2, fd, fd); if (r.r >= 0) r.r -= fd; break;
    case DUP2: n = CALL1(dup2, fd, num(w, o->t));
        if (n >= 0) { mc_check(n == num(w, o->t), "descriptor number", "dup2() returns %d instead of %d", n, num(w, o->t)); }
        break;
    case GETFD: r.r = CALL(fcntl, fd, F_GETFD); break;
    case SETFD: r.r = CALL(fcntl, fd, F_SETFD, FD_CLOEXEC); break;
    case GETFL: r.r = CALL(fcntl, fd, F_GETFL); break;
    case SETFL: r.r = CALL(fcntl, fd, F_SETFL, O_NONBLOCK); break;
    case GETOWN: r.r = CALL(fcntl, fd, F_GETOWN); break;
    case GETLK: case SETLK: {
        struct flock* f = lk[w] + i;
        struct flock g = { .l_type = F_WRLCK, .l_whence = SEEK_SET, .l_start = o->k == GETLK ? 90 : 2, .l_len = o->k == GETLK ? 30 : 3 };
        if (!w && !use_tm) store_tx(f, &g, sizeof g); /* the transaction's own store */
        else *f = g;
        r.r = CALL(fcntl, fd, o->k == GETLK ? F_GETLK : F_SETLK, f);
        g = *f;
        if (!w && !use_tm) load_tx(f, &g, sizeof g);
        if (r.r >= 0) snprintf(r.txt, sizeof r.txt, "type %d start %ld len %ld", g.l_type, (long)g.l_start, (long)g.l_len);
        break;
    }
    case WRITE: r.r = CALL(write, fd, "Wr", 2); break;
    case LSEEK: r.r = CALL1(lseek, fd, 1, SEEK_CUR); break;
    default: break;
    }
    r.err = errno;
    if (o->k < PIPE || o->k == SOCKET || (o->k >= DUP && o->k <= DUP2)) {
        if (o->k != DUP2SELF) r.r = n < 0 ? -1 : 0;
        if (n >= 0 && o->k < DUP2NEW) {
            if (!w) lowest(opstr(o), n, o->k == DUPFD || o->k == DUPFDX ? MINFD : 0);
            add(w, n);
        }
    }
    return r;
}

/* descriptors, files and what has arrived at the far ends, as text */
static size_t desc_fds(int w, char* out, size_t max, bool numbers)
{
    size_t n = 0;
    static ino_t ino[NSLOT];
    long off[NSLOT];
    for (int i = 0; i < nslot[w]; i++) {
        struct stat st;
        int fd = slot[w][i], same = i;
        if (numbers) n += (size_t)snprintf(out + n, max - n, "%d ", fd);
        off[i] = -1; ino[i] = 0;
        if (fstat(fd, &st) < 0) { n += (size_t)snprintf(out + n, max - n, "#%d closed; ", i); continue; }
        ino[i] = st.st_ino;
        for (int j = i - 1; j >= 0; j--) if (ino[j] == ino[i]) same = j;
        off[i] = S_ISREG(st.st_mode) ? lseek(fd, 0, SEEK_CUR) : -1;
        n += (size_t)snprintf(out + n, max - n, "#%d %o as #%d flags %x %x at %ld; ", i, st.st_mode, same, fcntl(fd, F_GETFD), fcntl(fd, F_GETFL), off[i]);
    }
    /* which of them share their offset */
    for (int i = 0; i < nslot[w]; i++) if (off[i] >= 0) {
        lseek(slot[w][i], 1000 + i, SEEK_SET);
        for (int j = 0; j < i; j++) if (off[j] >= 0 && lseek(slot[w][j], 0, SEEK_CUR) == 1000 + i) n += (size_t)snprintf(out + n, max - n, "#%d shares with #%d; ", i, j);
        lseek(slot[w][i], off[i], SEEK_SET);
    }
    return n;
}
static size_t desc_files(int w, char* out, size_t max)
{
    static const char* const names[] = { "f0", "f1", "n", "c", NULL };
    size_t n = 0;
    char p[300], c[64];
    for (int i = 0; names[i]; i++) {
        snprintf(p, sizeof p, "%s/%s", dir[w], names[i]);
        int fd = open(p, O_RDONLY);
        if (fd < 0) { n += (size_t)snprintf(out + n, max - n, "no %s; ", names[i]); continue; }
        ssize_t k = read(fd, c, sizeof c - 1);
        c[k < 0 ? 0 : k] = 0;
        n += (size_t)snprintf(out + n, max - n, "%s '%s'; ", names[i], c);
        if (fd >= 0) close(fd);
    }
    int entries = 0;
    DIR* d = opendir(dir[w]);
    while (d && readdir(d)) entries++;
    if (d) closedir(d);
    n += (size_t)snprintf(out + n, max - n, "%d entries; ", entries);
    for (int i = 0; i < plen; i++) if (prog[i].k == MKSTEMP) {
        snprintf(p, sizeof p, "%s/%s", dir[w], tmpl[w][i]);
        n += (size_t)snprintf(out + n, max - n, "%s; ", !strcmp(tmpl[w][i], "sXXXXXX") ? "unchanged template" : access(p, F_OK) ? "no temporary file" : "temporary file");
    }
    return n;
}
static size_t desc_far(int w, char* out, size_t max)
{
    size_t n = 0;
    for (int i = 0; i < 2; i++) {
        char c[64];
        ssize_t k;
        int fl = fcntl(other[w][i], F_GETFL);
        fcntl(other[w][i], F_SETFL, fl | O_NONBLOCK);
        while ((k = read(other[w][i], c, sizeof c - 1)) > 0) { c[k] = 0; n += (size_t)snprintf(out + n, max - n, "%s gets '%s'; ", i ? "socket" : "pipe", c); }
        if (!k) n += (size_t)snprintf(out + n, max - n, "%s at its end; ", i ? "socket" : "pipe");
    }
    return n;
}
static size_t desc_locks(int w, char* out, size_t max)
{
    struct flock f = { .l_type = F_WRLCK, .l_whence = SEEK_SET, .l_start = 0, .l_len = 20 };
    if (fcntl(ofdlock[w], F_OFD_GETLK, &f) < 0) return (size_t)snprintf(out, max, "lock error; ");
    return (size_t)snprintf(out, max, f.l_type == F_UNLCK ? "no locks; " : "locked %ld, %ld; ", (long)f.l_start, (long)f.l_len);
}
/* reading f0 by another descriptor would drop the locks: they come first */
static void snapshot(int w, char* out, size_t max, bool numbers, bool files)
{
    size_t n = desc_locks(w, out, max);
    n += desc_fds(w, out + n, max - n, numbers);
    n += desc_far(w, out + n, max - n);
    if (files) n += desc_files(w, out + n, max - n);
}
static int count_fds(void) { int n = 0; for (int i = 0; i < FSX_NFD; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static void make_world(int w)
{
    int p[2];
    if (mkdir(w ? "b" : "a", 0755) || chdir(w ? "b" : "a")) abort();
    if (!getcwd(dir[w], sizeof dir[w])) abort();
    fsx_put("f0", "0123456789", 10);
    fsx_put("f1", "abcdefghij", 10);
    int base = w ? 30 : 20, far = w ? 90 : 80;
    fsx_move(open("f0", O_RDWR), base); lseek(base, 3, SEEK_SET);
    if (pipe(p)) abort();
    fsx_move(p[1], base + 1); fsx_move(p[0], far);
    fsx_move(open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC), base + 2); fcntl(base + 2, F_SETFD, FD_CLOEXEC);
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) abort();
    fsx_move(p[1], base + 3); fsx_move(p[0], far + 1);
    if (pipe(p)) abort();
    fsx_move(p[0], base + 4); fsx_move(p[1], far + 2);
    fsx_move(open("f0", O_RDWR), far + 3);
    ofdlock[w] = far + 3;
    struct flock f = { .l_type = F_WRLCK, .l_whence = SEEK_SET, .l_start = 100, .l_len = 10 };
    if (fcntl(ofdlock[w], F_OFD_SETLK, &f) < 0) { perror("lock"); abort(); }
    for (int i = 0; i < 3; i++) other[w][i] = far + i;
    for (int i = 0; i < NINIT; i++) slot0[w][i] = base + i;
    if (chdir("..")) abort();
}
static void reset(int w)
{
    nslot[w] = NINIT;
    for (int i = 0; i < NINIT; i++) slot[w][i] = slot0[w][i];
}
static void templates(int w) { for (int i = 0; i < plen; i++) strcpy(tmpl[w][i], "sXXXXXX"); }

static volatile int attempts, pos, status, irrev, restart_at;
static char before[2][4096], after[2][4096];
static void point(void)
{
    if (attempts == 1 && pos == restart_at && !picotm_is_irrevocable()) {
        if (end_ == E_RESTART) picotm_restart();
        if (end_ == E_CONFLICT) {
            struct picotm_error ce = PICOTM_ERROR_INITIALIZER;
            picotm_error_set_conflicting(&ce, NULL);
            picotm_recover_from_error(&ce);
        }
    }
}
/* one descriptor per file */
static bool single(int i)
{
    struct stat st, su;
    if (fstat(slot0[0][i], &st) < 0) return false;
    for (int j = 0; j < NINIT; j++) if (j != i && !fstat(slot0[0][j], &su) && st.st_ino == su.st_ino && st.st_dev == su.st_dev) return false;
    return true;
}
static int initial_open(void) { int n = 0; for (int i = 0; i < NINIT; i++) n += single(i); return n; }
/* a later transaction uses all descriptors */
static void probe(void)
{
    static const char x[] = "probe";
    volatile int tries = 0;
    int fd0 = count_fds(), ini = initial_open();
    picotm_begin
        mc_check(++tries < 6, "leaked lock", "a later transaction restarts again and again");
        int fd = open_tx("probe", O_RDWR | O_CREAT, 0600), d = dup_tx(fd);
        write_tx(d, x, 5);
        mc_check(lseek_tx(fd, 0, SEEK_CUR) == 5, "later transaction", "the offset is not shared with the duplicate");
        for (int i = 0; i < NINIT; i++) if (single(i)) { int e = dup_tx(slot0[0][i]); close_tx(e); close_tx(slot0[0][i]); }
        close_tx(fd); close_tx(d);
    picotm_commit
        mc_fail("later transaction", "a later transaction fails with error %d, errno %d", picotm_error_status(), picotm_error_as_errno());
    picotm_end
    mc_check(count_fds() == fd0 - ini, "later transaction", "a later transaction closes %d descriptors, expected %d", fd0 - count_fds(), ini);
    mc_check(!initial_open(), "later transaction", "close() has no effect in a later transaction");
}

static void run(void)
{
    const char* name = "transaction";
    fsx_begin();
    make_world(0); make_world(1);
    reset(0); reset(1); templates(0); templates(1);
    int stop = plen, fd0 = count_fds();
    if (chdir(dir[1])) abort();
    snapshot(1, before[1], sizeof *before, false, true);
    for (int i = 0; i < plen; i++) { want[i] = run_op(1, i); if (want[i].r < 0) { stop = i; break; } }
    int newfds = count_fds() - fd0;
    snapshot(1, after[1], sizeof *after, false, true);
    if (chdir(dir[0])) abort();
    snapshot(0, after[0], sizeof *after, false, true);
    mc_check(!strcmp(before[1], after[0]), "harness", "%s / %s", before[1], after[0]);
    snapshot(0, before[0], sizeof *before, true, true);
    fd0 = count_fds();
    attempts = 0; status = -1; irrev = 0;
    memset(pfd, 0x5b, sizeof pfd); memset(lk[0], 0x5b, sizeof lk[0]);
    if (oom) mc_alloc_fault = 1;
    picotm_begin
        attempts++;
        reset(0);
        if (use_tm) templates(0);
        if (end_ == E_IRREVOCABLE) picotm_irrevocable();
        for (pos = 0; pos < plen; pos++) {
            point();
            irrev = picotm_is_irrevocable();
            struct res g = run_op(0, pos);
            mc_check(pos < stop, "no error", "%s: %s returns %ld, the direct call fails with %d (%s)", name, opstr(prog + pos), g.r, want[pos].err, strerror(want[pos].err));
            mc_check(g.r == want[pos].r, "result", "%s: %s returns %ld, the direct call %ld", name, opstr(prog + pos), g.r, want[pos].r);
            mc_check(!strcmp(g.txt, want[pos].txt), "result", "%s: %s gives %s, the direct call %s", name, opstr(prog + pos), g.txt, want[pos].txt);
        }
        point();
        irrev = picotm_is_irrevocable();
        if (end_ == E_ERROR) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        status = picotm_error_status() == PICOTM_ERRNO ? picotm_error_as_errno() : 1000 + picotm_error_status();
        mc_check(!picotm_error_is_non_recoverable(), "non-recoverable", "%s: non-recoverable error %d", name, status);
    picotm_end
    mc_alloc_fault = 0;
    mc_check(attempts <= 5, "retries", "%s: the transaction ran %d times", name, attempts);
    if (status >= 0) {
        if (oom && (status == ENOMEM || status == 1000 + PICOTM_ERROR_CODE)) {
        } else if (stop < plen) {
            mc_check(pos == stop, "unexpected error", "%s: %s fails with %d (%s), the direct call returns %ld", name, opstr(prog + pos), status, strerror(status), want[pos].r);
            mc_check(status == want[stop].err, "wrong error", "%s: %s fails with %d (%s), the direct call with %d (%s)", name, opstr(prog + stop), status, strerror(status), want[stop].err, strerror(want[stop].err));
        } else
            mc_check(end_ == E_ERROR, "unexpected error", "%s: %s fails with %d (%s), the direct call succeeds", name, pos < plen ? opstr(prog + pos) : "commit", status, strerror(status));
        reset(0);
        if (use_tm) templates(0);
        snapshot(0, after[0], sizeof *after, true, true);
        bool trunc = oom && plen && prog[0].k == CREAT;
        if (!irrev || (pos == 0 && !trunc)) {
            mc_check(!strcmp(before[0], after[0]), "left after an abort", "%s: before [%s], after the abort [%s]", name, before[0], after[0]);
            mc_check(count_fds() == fd0, "descriptors", "%s: %d descriptors are open after the abort, %d before", name, count_fds(), fd0);
            if (!use_tm) for (int i = 0; i < plen; i++) mc_check(pfd[0][i][0] == 0x5b5b5b5b && lk[0][i].l_type == 0x5b5b, "buffer", "%s: what %s stored is not restored", name, opstr(prog + i));
        }
    } else {
        mc_check(end_ != E_ERROR && stop == plen, "commit", "%s: the transaction commits after an error", name);
        snapshot(0, after[0], sizeof *after, false, true);
        mc_check(!strcmp(after[0], after[1]), "effect", "%s: after commit [%s], expected [%s]", name, after[0], after[1]);
        mc_check(count_fds() == fd0 + newfds, "descriptors", "%s: %d more descriptors are open after commit, expected %d", name, count_fds() - fd0, newfds);
    }
    probe();
    picotm_release();
    fsx_end();
    mc_cases(1);
    mc_outcome(status < 0 ? 0 : status);
}
/* writing to directories gives EISDIR instead of EBADF, and seeking in them is not supported; new pipes and sockets have no other end */
static bool usable(int i)
{
    if (prog[i].k != WRITE && prog[i].k != LSEEK) return true;
    if (prog[i].s < 0) return true;
    enum { FINE, DIR_, NEWPIPE } type[NSLOT + 2 * MAXLEN] = { FINE };
    int n = NINIT;
    type[2] = DIR_;
    for (int j = 0; j < i; j++) {
        const struct op* o = prog + j;
        if (o->k < PIPE) type[n++] = FINE;
        else if (o->k == PIPE) { type[n++] = NEWPIPE; type[n++] = NEWPIPE; }
        else if (o->k == SOCKET) type[n++] = NEWPIPE;
        else if (o->k >= DUP && o->k <= DUP2NEW) type[n++] = o->s >= 0 ? type[o->s] : FINE;
        else if (o->k == DUP2 && o->s >= 0 && o->t >= 0) type[o->t] = type[o->s];
    }
    return prog[i].s < n && (type[prog[i].s] == FINE || (prog[i].k == LSEEK && type[prog[i].s] == NEWPIPE));
}
static bool choose(int len, const int* kinds, int nk, bool bad)
{
    plen = len;
    int slots = NINIT;
    for (int i = 0; i < len; i++) {
        enum kind k = (enum kind)(kinds ? kinds[mc_choose(nk)] : mc_choose(NKIND));
        prog[i] = (struct op){ k, 0, 0 };
        if (k >= CLOSE) { int c = mc_choose(slots + (bad ? 3 : 0)); prog[i].s = c < slots ? c : -(c - slots) - 1; }
        if (k == DUP2) {
            int c = mc_choose(slots + (bad ? 2 : 0));
            prog[i].t = c < slots ? c : c == slots ? BAD_NEG : BAD_LARGE;
            if (prog[i].t == prog[i].s) return false;   /* see DUP2SELF */
        }
        if (k < PIPE || k == SOCKET || (k >= DUP && k <= DUP2NEW)) slots++;
        if (k == PIPE) slots += 2;
        if (few && ((prog[i].s > 1 && prog[i].s < NINIT) || (prog[i].t > 1 && prog[i].t < NINIT))) return false;
        if (!usable(i)) return false;
    }
    return true;
}
static void finish_choice(void)
{
    end_ = mc_choose(NEND);
    restart_at = -1;
    if (end_ == E_RESTART || end_ == E_CONFLICT) restart_at = plen > 1 && mc_choose(2) ? 1 : plen;
    use_tm = mc_choose(plen > 2 ? 1 : 2);
    static char s[400];
    int n = 0;
    for (int i = 0; i < plen; i++) n += snprintf(s + n, sizeof s - (size_t)n, "%s%s, ", opstr(prog + i), use_tm ? " (_tm)" : "");
    mc_ctx("%s%s", s, endname[end_]);
    mc_note("%s%s, restart at %d", s, endname[end_], restart_at);
    run();
}
static void sc_seq1(int v) { (void)v; if (choose(1, NULL, 0, true)) finish_choice(); }
static void sc_seq2(int v) { (void)v; if (choose(2, NULL, 0, true)) finish_choice(); }
static const int k3[] = { OPEN, OPENNEW, CLOSE, DUP, DUPFD, DUP2, SETFD, WRITE, LSEEK };
static void sc_seq3(int v) { (void)v; if (choose(3, k3, sizeof k3 / sizeof *k3, false)) finish_choice(); }
static const int kshort[] = { OPEN, CLOSE, DUP, DUP2, WRITE };
static void sc_seq4(int v) { (void)v; few = true; if (choose(4, kshort, sizeof kshort / sizeof *kshort, false)) finish_choice(); }
static void sc_oom1(int v) { (void)v; mc_fault_budget = 2; oom = true; if (choose(1, NULL, 0, false)) finish_choice(); }
static void sc_oom2(int v) { (void)v; mc_fault_budget = 1; oom = true; if (choose(2, k3, sizeof k3 / sizeof *k3, false)) finish_choice(); }
/* descriptors at the end of picotm's tables and beyond it */
#ifndef MAXNUMFD
#define MAXNUMFD 1024
#endif
enum { LIM = MAXNUMFD, TOP = LIM + 16 };
enum { L_READ, L_CLOSE, L_DUP, L_DUPFD, L_DUP2, L_OPEN, L_CREATE, L_PIPE, L_SOCKET, L_MKSTEMP, NLOP };
static const char* const lname[] = { "read", "close", "dup", "F_DUPFD", "dup2", "open", "open(CREAT|EXCL)", "pipe", "socket", "mkstemp" };
static const int larg[] = { LIM - 2, LIM - 1, LIM, LIM + 3 };
static bool lopen0[TOP + 8];
static void sc_limit(int v)
{
    static char b[8], tmpl[] = "tXXXXXX";
    static int got[2], err, n1;
    static volatile long r;
    static volatile bool second;
    struct rlimit rl;
    getrlimit(RLIMIT_NOFILE, &rl);
    if (rl.rlim_max < TOP) { mc_outcome(99); return; }
    rl.rlim_cur = rl.rlim_max;
    setrlimit(RLIMIT_NOFILE, &rl);
    int op = v, arg = larg[op <= L_DUP2 ? mc_choose(4) : 0], nfree = op <= L_DUPFD ? mc_choose(3) : op == L_DUP2 ? 0 : mc_choose(4), two = mc_choose(2);
    bool abort_it = mc_choose(2);
    fsx_begin();
    fsx_put("f", "0123456789", 10);
    int fd = open("f", O_RDONLY);
    /* everything below the end of the table is in use, except for nfree numbers */
    for (int i = 3; i < LIM - nfree; i++) if (fcntl(i, F_GETFD) < 0) dup2(fd, i);
    for (int i = LIM - nfree; i < TOP; i++) close(i);
    if (op <= L_DUP && fcntl(arg, F_GETFD) < 0) { dup2(fd, arg); }
    if (op == L_DUPFD || op == L_DUP2) { close(larg[0]); if (op == L_DUP2 && two) dup2(fd, arg); }
    int many = op == L_DUP2 ? 1 : 1 + two, fds[2] = { -1, -1 };
    for (int i = 0; i < TOP + 8; i++) lopen0[i] = fcntl(i, F_GETFD) >= 0;
    mc_ctx("%s(%d)%s, %d numbers below the limit are free, %s", lname[op], arg, many > 1 ? " twice" : "", nfree, abort_it ? "abort" : "commit");
    mc_note("%s(%d)%s, %d numbers below the limit are free, %s", lname[op], arg, many > 1 ? " twice" : "", nfree, abort_it ? "abort" : "commit");
    n1 = 0; err = 0; got[0] = got[1] = -1;
    (void)fds;
    picotm_begin
        n1 = 0;
        for (int i = 0; i < many; i++) {
            switch (op) {
            case L_READ: r = read_tx(arg, b, 2); break;
            case L_CLOSE: r = close_tx(arg); break;
            case L_DUP: r = got[i] = dup_tx(arg); break;
            case L_DUPFD: r = got[i] = fcntl_tx(fd, F_DUPFD, arg); break;
            case L_DUP2: r = got[i] = dup2_tx(fd, arg); break;
            case L_OPEN: r = got[i] = open_tx("f", O_RDONLY); break;
            case L_CREATE: r = got[i] = open_tx(i ? "new2" : "new", O_RDWR | O_CREAT | O_EXCL, 0600); break;
            case L_PIPE: r = pipe_tx(got); break;
            case L_SOCKET: r = got[i] = socket_tx(AF_UNIX, SOCK_STREAM, 0); break;
            case L_MKSTEMP: r = got[i] = mkstemp_tx(strcpy(tmpl, "tXXXXXX")); break;
            }
            mc_check(r >= 0, "no recovery", "%s returns %ld", lname[op], r);
            n1++;
        }
        if (abort_it) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        err = picotm_error_status() == PICOTM_ERRNO ? picotm_error_as_errno() : 1000;
    picotm_end
    if (err && err != 1000) {
        mc_check(err == EBADF || err == EMFILE || err == EINVAL || err == ENFILE, "wrong error", "%s fails with errno %d (%s)", lname[op], err, strerror(err));
        /* the second close() or a dup2() to a number outside fail rightly */
        bool inside = op <= L_DUP ? arg < LIM : true;
        int need = op == L_PIPE ? 2 : 1;
        if (op == L_DUPFD) inside = arg < LIM && (nfree > 0 || arg == larg[0]);
        else if (op == L_DUP2) inside = arg < LIM;
        else if (op == L_DUP || op >= L_OPEN) inside = inside && nfree - (op == L_DUP && arg >= LIM - nfree) >= need;
        mc_check(n1 || !inside, "unexpected error", "%s fails with errno %d (%s), although the descriptors are below the limit", lname[op], err, strerror(err));
    } else if (err) {
        mc_check(abort_it, "unexpected error", "%s: error without errno", lname[op]);
    } else {
        mc_check(!abort_it, "commit", "commits after an error");
        for (int i = 0; i < many && op != L_PIPE; i++) if (got[i] >= 0) mc_check(fcntl(got[i], F_GETFD) >= 0, "closed", "descriptor %d of %s is closed after the commit", got[i], lname[op]);
    }
    for (int i = 0; i < TOP + 8; i++) {
        bool is = fcntl(i, F_GETFD) >= 0, want = lopen0[i];
        if (!err && (i == got[0] || i == got[1])) want = true;
        if (!err && op == L_CLOSE && i == arg) want = false;
        if (err && op == L_DUP2) continue; /* irrevocable: nothing is undone */
        mc_check(is == want, "descriptors", "%s: descriptor %d is %s after the %s", lname[op], i, is ? "open" : "closed", err ? "abort" : "commit");
    }
    struct stat st;
    if (err) mc_check(stat("new", &st) < 0 && stat("new2", &st) < 0 && (op != L_MKSTEMP || !n1 || stat(tmpl, &st) < 0), "files", "%s: a file is left behind by the abort", lname[op]);
    /* the next transaction works */
    second = false;
    picotm_begin
        mc_check(pread_tx(fd, b, 4, 2) == 4 && !memcmp(b, "2345", 4), "afterwards", "pread() in the next transaction");
    picotm_commit
        second = true;
    picotm_end
    mc_check(!second, "afterwards", "the next transaction fails");
    picotm_release();
    for (int i = FSX_NFD; i < TOP + 8; i++) if (i != fsx_dirfd) close(i);
    fsx_end();
    mc_cases(1);
    mc_outcome(err);
}
static const struct mc_scenario sc[] = {
    { "limit", sc_limit, NLOP, MC_NOPREEMPT, 0, 0, 30, 60, "descriptors with numbers at the end of picotm's tables and beyond; operations that return such numbers" },
    { "seq1", sc_seq1, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 60, "every operation x descriptor x how the transaction ends x _tx and _tm" },
    { "seq2", sc_seq2, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 150, 400, "all pairs of operations and descriptors, including those the transaction opened or closed" },
    { "oom1", sc_oom1, 1, MC_NOPREEMPT, 0, 0, 60, 200, "every operation with every allocation failing (twice)" },
    { "seq3", sc_seq3, 1, MC_NOPREEMPT | MC_INPROC | MC_THOROUGH_ONLY, 0, 0, 60, 600, "all triples" },
    { "seq4", sc_seq4, 1, MC_NOPREEMPT | MC_INPROC | MC_THOROUGH_ONLY, 0, 0, 60, 600, "four operations of open, close, dup, dup2 and write on the file, the pipe and new descriptors" },
    { "oom2", sc_oom2, 1, MC_NOPREEMPT | MC_THOROUGH_ONLY, 0, 0, 60, 400, "pairs of operations with every allocation failing" },
};
int main(int argc, char* argv[])
{
    static const char* const as[] = { "the direct calls with descriptors of the same kinds are the reference", "numbers of descriptors that the transaction closed are free after the commit only", "only one descriptor of a file that was opened outside is used in a transaction", NULL };
    (void)outside;
    fsx_init();
    int r = mc_main(argc, argv, "P20", sc, sizeof sc / sizeof *sc, as);
    fsx_cleanup();
    return r;
}
