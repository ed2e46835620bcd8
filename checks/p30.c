/* P30: directory entries and file attributes change once or not at all.
 * P22 (PROP 22): the working directory follows the transaction.
 * The same calls run directly in a second tree with the same contents. */
#include "fsx.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-tm.h"
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include "picotm/sys/stat.h"
#include "picotm/sys/stat-tm.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#ifndef PROP
#define PROP 30
#endif

enum kind { STAT, LSTAT, CHMOD, LINK, UNLINK, MKDIR, MKFIFO, MKNOD, MKDTEMP, MKSTEMP, OPEN, CREAT, FSTAT, FCHMOD, WRITE, CLOSE, CHDIR, FCHDIR, GETCWD, GETCWD0 };
static const char* const kname[] = { "stat", "lstat", "chmod", "link", "unlink", "mkdir", "mkfifo", "mknod", "mkdtemp", "mkstemp", "open", "creat", "fstat", "fchmod", "write", "close", "chdir", "fchdir", "getcwd", "getcwd(NULL)" };
struct op { enum kind k; const char* p; const char* q; int a, b; };

/* what exists: f (file), d (directory with d/g), e (empty directory), l -> f, m -> d, x -> missing */
#define RW O_RDWR
static const struct op ops[] = {
#if PROP == 30
    { STAT, "f" }, { STAT, "l" }, { STAT, "n" }, { LSTAT, "l" }, { LSTAT, "x" }, { LSTAT, "n" },
    { CHMOD, "f", 0, 0600 }, { CHMOD, "l", 0, 0640 }, { CHMOD, "n", 0, 0600 },
    { LINK, "f", "n" }, { LINK, "l", "n" }, { LINK, "f", "d" },
    { UNLINK, "f" }, { UNLINK, "l" }, { UNLINK, "n" }, { UNLINK, "d" },
    { MKDIR, "n", 0, 0750 }, { MKDIR, "f", 0, 0755 },
    { MKFIFO, "n", 0, 0644 }, { MKNOD, "n", 0, S_IFREG | 0640 },
    { MKDTEMP, "tXXXXXX" }, { MKSTEMP, "sXXXXXX" },
    { OPEN, "f", 0, RW }, { OPEN, "n", 0, RW | O_CREAT, 0644 }, { OPEN, "n", 0, RW | O_CREAT | O_EXCL, 0600 },
    { OPEN, "f", 0, RW | O_TRUNC }, { CREAT, "n", 0, 0644 },
    { FSTAT }, { FCHMOD, 0, 0, 0611 }, { WRITE }, { CLOSE },
    { CHDIR, "d" },
#define NSEQ 32 /* those before take part in longer sequences */
    { STAT, "x" }, { STAT, "d" }, { STAT, "f/" }, { STAT, "" }, { STAT, "d/../f" }, { STAT, "m/g" },
    { LSTAT, "f" }, { LSTAT, "d" }, { LSTAT, "m/" }, { LSTAT, "m/g" }, { LSTAT, "" },
    { CHMOD, "d", 0, 0700 }, { CHMOD, "x", 0, 0700 }, { CHMOD, "f", 0, 04755 }, { CHMOD, "", 0, 0600 },
    { LINK, "x", "n" }, { LINK, "n", "o" }, { LINK, "f", "l" }, { LINK, "f", "d/n" }, { LINK, "d", "n" }, { LINK, "f", "n/o" }, { LINK, "", "n" }, { LINK, "f", "" },
    { UNLINK, "x" }, { UNLINK, "d/g" }, { UNLINK, "m" }, { UNLINK, "m/g" }, { UNLINK, "" }, { UNLINK, "f/" },
    { MKDIR, "d/n", 0, 0755 }, { MKDIR, "n/o", 0, 0755 }, { MKDIR, "x", 0, 0755 }, { MKDIR, "", 0, 0755 }, { MKDIR, "n/", 0, 0755 }, { MKDIR, "d", 0, 0755 },
    { MKFIFO, "f", 0, 0644 }, { MKFIFO, "n/o", 0, 0644 }, { MKFIFO, "", 0, 0644 },
    { MKNOD, "f", 0, S_IFREG | 0640 }, { MKNOD, "n", 0, S_IFIFO | 0640 }, { MKNOD, "n/o", 0, S_IFREG | 0640 }, { MKNOD, "", 0, S_IFREG | 0640 },
    { MKDTEMP, "d/tXXXXXX" }, { MKDTEMP, "tXXXXX" }, { MKDTEMP, "n/tXXXXXX" }, { MKDTEMP, "XXXXXX" },
    { MKSTEMP, "d/sXXXXXX" }, { MKSTEMP, "sXXXXX" }, { MKSTEMP, "n/sXXXXXX" }, { MKSTEMP, "XXXXXX" },
    { OPEN, "n", 0, RW }, { OPEN, "d", 0, O_RDONLY }, { OPEN, "d", 0, RW }, { OPEN, "f", 0, RW | O_CREAT, 0600 }, { OPEN, "f", 0, RW | O_CREAT | O_EXCL, 0600 },
    { OPEN, "x", 0, RW | O_CREAT, 0600 }, { OPEN, "x", 0, RW | O_CREAT | O_EXCL, 0600 }, { OPEN, "l", 0, RW | O_TRUNC }, { OPEN, "n", 0, RW | O_CREAT | O_TRUNC, 01 },
    { OPEN, "", 0, O_RDONLY }, { OPEN, "", 0, RW | O_CREAT, 0600 }, { OPEN, "l", 0, RW | O_NOFOLLOW }, { OPEN, "d", 0, RW | O_CREAT, 0600 }, { OPEN, "d/n", 0, RW | O_CREAT, 0666 },
    { OPEN, "n/o", 0, RW | O_CREAT, 0600 }, { OPEN, "f", 0, O_RDONLY | O_DIRECTORY }, { OPEN, "n", 0, O_RDONLY | O_CREAT, 02777 },
    { CREAT, "f", 0, 0600 }, { CREAT, "x", 0, 0600 }, { CREAT, "d", 0, 0600 },
#else
    { CHDIR, "d" }, { CHDIR, ".." }, { CHDIR, "e" }, { CHDIR, "m" }, { CHDIR, "n" }, { CHDIR, "f" },
    { GETCWD, 0, 0, 256 }, { GETCWD0 }, { OPEN, "d", 0, O_RDONLY }, { FCHDIR },
    { STAT, "g" }, { OPEN, "n", 0, RW | O_CREAT | O_EXCL, 0600 }, { MKDIR, "n", 0, 0755 },
#define NSEQ 13
    { CHDIR, "." }, { CHDIR, "" }, { CHDIR, "x" }, { CHDIR, "d/../e" }, { CHDIR, "/" }, { CHDIR, "l" },
    { GETCWD, 0, 0, 2 }, { GETCWD, 0, 0, 0 }, { OPEN, ".", 0, O_RDONLY }, { OPEN, "f", 0, O_RDONLY }, { UNLINK, "g" }, { CLOSE },
#endif
};
enum { NOPS = sizeof ops / sizeof *ops };
enum { E_COMMIT, E_ERROR, E_RESTART, E_CONFLICT, E_IRREVOCABLE, NEND };
static const char* const endname[] = { "commit", "error", "restart, then commit", "conflict, then commit", "become irrevocable, then commit" };
enum { MAXLEN = 4, DEEP = 4, TXT = 160 };

static struct op prog[MAXLEN];
static int plen, end_;
static bool use_tm;
static char tmpl[2][MAXLEN][32];
static char cwdbuf[2][MAXLEN][256];
static struct stat stbuf[2][MAXLEN];
struct res { long r; int err; char txt[TXT]; };
static struct res want[MAXLEN], got[MAXLEN];
static char root[2][256], start[2][256];
static volatile int fds[2];      /* last descriptor opened */

static void show_stat(char* t, const struct stat* s) { snprintf(t, TXT, "%o links %lu size %ld", s->st_mode, S_ISDIR(s->st_mode) ? 0 : (unsigned long)s->st_nlink, S_ISDIR(s->st_mode) ? 0 : (long)s->st_size); }
static const char* rel(int s, const char* p) { size_t n = strlen(root[s]); return !strncmp(p, root[s], n) ? (p[n] ? p + n : "/") : p; }
static void show_fd(char* t, int fd) { struct stat st; if (fstat(fd, &st) < 0) snprintf(t, TXT, "not open"); else { show_stat(t, &st); } }
static bool template_ok(const char* p, const char* q) { size_t n = strlen(p); return strlen(q) == n && !strncmp(p, q, n - 6) && !strstr(q, "XXXXXX"); }

/* 0: transaction, 1: direct */
static struct res run_op(int s, int i)
{
    const struct op* o = prog + i;
    struct res r = { 0, 0, "" };
    errno = 0;
#define CALL(name, ...) (s ? name(__VA_ARGS__) : use_tm ? name##_tm(__VA_ARGS__) : name##_tx(__VA_ARGS__))
#define CALL1(name, ...) (s ? name(__VA_ARGS__) : name##_tx(__VA_ARGS__))
    switch (o->k) {
    case STAT: r.r = CALL(stat, o->p, stbuf[s] + i); break;
    case LSTAT: r.r = CALL(lstat, o->p, stbuf[s] + i); break;
    case FSTAT: r.r = CALL(fstat, fds[s], stbuf[s] + i); break;
    case CHMOD: r.r = CALL(chmod, o->p, (mode_t)o->a); break;
    case FCHMOD: r.r = CALL1(fchmod, fds[s], (mode_t)o->a); break;
    case LINK: r.r = CALL(link, o->p, o->q); break;
    case UNLINK: r.r = CALL(unlink, o->p); break;
    case MKDIR: r.r = CALL(mkdir, o->p, (mode_t)o->a); break;
    case MKFIFO: r.r = CALL(mkfifo, o->p, (mode_t)o->a); break;
    case MKNOD: r.r = CALL(mknod, o->p, (mode_t)o->a, 0); break;
    case MKDTEMP: {
        char* t = tmpl[s][i];
        char* p = CALL(mkdtemp, t);
        r.r = p ? 0 : -1;
        if (p) snprintf(r.txt, TXT, "%s", p == t && template_ok(o->p, p) && !access(p, F_OK) ? "good name" : p);
        break;
    }
    case MKSTEMP: {
        char* t = tmpl[s][i];
        int fd = CALL(mkstemp, t);
        r.r = fd < 0 ? -1 : 0;
        if (fd >= 0) { fds[s] = fd; snprintf(r.txt, TXT, "%s", template_ok(o->p, t) && !access(t, F_OK) ? "good name" : t); }
        break;
    }
    case OPEN: case CREAT: {
        int fd = o->k == CREAT ? CALL(creat, o->p, (mode_t)o->a) : CALL(open, o->p, o->a, (mode_t)o->b);
        r.r = fd < 0 ? -1 : 0;
        if (fd >= 0) fds[s] = fd;
        break;
    }
    case WRITE: r.r = CALL(write, fds[s], "Wr", 2); break;
    case CLOSE: r.r = CALL1(close, fds[s]); break;
    case CHDIR: r.r = CALL(chdir, o->p); break;
    case FCHDIR: r.r = CALL1(fchdir, fds[s]); break;
    case GETCWD: {
        char* p = CALL(getcwd, cwdbuf[s][i], (size_t)o->a);
        r.r = p ? 0 : -1;
        if (p) snprintf(r.txt, TXT, "%s", p == cwdbuf[s][i] ? rel(s, p) : "wrong address");
        break;
    }
    case GETCWD0: {
        char* p = CALL(getcwd, NULL, 0);
        r.r = p ? 0 : -1;
        if (p) snprintf(r.txt, TXT, "%s", rel(s, p));
        if (p && s) free(p);
        if (p && !s) free_tx(p);
        break;
    }
    }
    r.err = errno;
    if (r.r >= 0 && (o->k == STAT || o->k == LSTAT || o->k == FSTAT)) show_stat(r.txt, stbuf[s] + i);
    if (r.r >= 0 && (o->k == OPEN || o->k == CREAT)) show_fd(r.txt, fds[s]);
    return r;
}
static const char* opstr(const struct op* o)
{
    static char s[4][64]; static int i;
    char* p = s[i++ & 3];
    switch (o->k) {
    case LINK: snprintf(p, 64, "link(\"%s\", \"%s\")", o->p, o->q); break;
    case OPEN: snprintf(p, 64, "open(\"%s\", %s%s%s%s%s%s, %o)", o->p, (o->a & 3) == O_RDWR ? "RDWR" : "RDONLY", o->a & O_CREAT ? "|CREAT" : "", o->a & O_EXCL ? "|EXCL" : "", o->a & O_TRUNC ? "|TRUNC" : "", o->a & O_NOFOLLOW ? "|NOFOLLOW" : "", (o->a & O_DIRECTORY) ? "|DIRECTORY" : "", o->b); break;
    case CHMOD: case MKDIR: case MKFIFO: case MKNOD: case CREAT: snprintf(p, 64, "%s(\"%s\", %o)", kname[o->k], o->p, o->a); break;
    case GETCWD: snprintf(p, 64, "getcwd(%d)", o->a); break;
    default: snprintf(p, 64, o->p ? "%s(\"%s\")" : "%s", kname[o->k], o->p);
    }
    return p;
}

/* the state of a tree as text */
static char* sn; static size_t snlen, snmax; static size_t snroot;
static char snline[64][200]; static int snlines;
static int snap_one(const char* p, const struct stat* st, int t, struct FTW* f)
{
    (void)t;
    char name[64], what[64] = "";
    snprintf(name, sizeof name, "%s", p + snroot);
    if (f->level > 0) { /* random names look alike */
        char* b = strrchr(name, '/');
        b = b ? b + 1 : name;
        if (strlen(b) == 7 && (*b == 't' || *b == 's')) strcpy(b + 1, "*");
        else if (strlen(b) == 6) strcpy(b, "*");
    }
    if (S_ISREG(st->st_mode)) { int fd = open(p, O_RDONLY); ssize_t n = read(fd, what, sizeof what - 1); if (n >= 0) what[n] = 0; close(fd); }
    if (S_ISLNK(st->st_mode)) { ssize_t n = readlink(p, what, sizeof what - 1); if (n >= 0) what[n] = 0; }
    snprintf(snline[snlines++ & 63], 200, "%s %o links %lu '%s'; ", name, st->st_mode, S_ISDIR(st->st_mode) ? 0 : (unsigned long)st->st_nlink, what);
    return 0;
}
static int cmpline(const void* a, const void* b) { return strcmp(a, b); }
static void snapshot(int s, char* out, size_t max)
{
    char c[300];
    sn = out; snlen = 0; snmax = max; snroot = strlen(root[s]); snlines = 0;
    if (!getcwd(c, sizeof c)) strcpy(c, "?");
    nftw(root[s], snap_one, 8, FTW_PHYS);
    qsort(snline, (size_t)snlines, sizeof *snline, cmpline);
    for (int i = 0; i < snlines; i++) snlen += (size_t)snprintf(out + snlen, max - snlen, "%s", snline[i]);
    snprintf(out + snlen, max - snlen, "in %s", rel(s, c));
}
/* the entries that differ */
static const char* differ(const char* a, const char* b)
{
    static char s[2][700]; static int n; char* o = s[n++ & 1];
    size_t k = 0;
    o[0] = 0;
    for (const char* e = a; *e; ) {
        const char* end = strstr(e, "; ");
        size_t len = end ? (size_t)(end - e) + 2 : strlen(e);
        static char one[300]; snprintf(one, sizeof one, "%.*s", (int)len, e);
        if (!strstr(b, one) && k + len < sizeof *s) k += (size_t)snprintf(o + k, sizeof *s - k, "%s", one);
        e += len;
    }
    return o;
}
static int count_fds(void) { int n = 0; for (int i = 0; i < FSX_NFD; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static void make_tree(int s, const char* name)
{
    /* the tree is deep enough for all changes to the parent */
    if (mkdir(name, 0755) || chdir(name)) abort();
    if (!getcwd(root[s], sizeof root[s])) abort();
    for (int i = 1; i < DEEP; i++) if (mkdir("w", 0755) || chdir("w")) abort();
    if (!getcwd(start[s], sizeof start[s])) abort();
    fsx_put("f", "hello", 5);
    if (mkdir("d", 0755) || mkdir("e", 0755)) abort();
    fsx_put("d/g", "in d", 4);
    if (symlink("f", "l") || symlink("d", "m") || symlink("missing", "x")) abort();
    for (int i = 0; i < DEEP; i++) if (chdir("..")) abort();
}
static void templates(int s) { for (int i = 0; i < plen; i++) if (prog[i].k == MKDTEMP || prog[i].k == MKSTEMP) strcpy(tmpl[s][i], prog[i].p); }

static volatile int attempts, pos, status, irrev, restart_at;
static char before[2][4096], after[2][4096];

static void point(void)
{
    if (attempts == 1 && pos == restart_at && !picotm_is_irrevocable()) {
        if (end_ == E_RESTART) picotm_restart();
        if (end_ == E_CONFLICT) {
            struct picotm_error ce = PICOTM_ERROR_INITIALIZER;
            picotm_error_set_conflicting(&ce, NULL);
            picotm_recover_from_error(&ce);
        }
    }
}
static bool oom;
/* what the functions store into is restored by an abort */
static void fill(void) { memset(cwdbuf, 0x5b, sizeof cwdbuf); memset(stbuf, 0x5b, sizeof stbuf); }
static void restored(const char* name)
{
    if (use_tm) return;
    for (int i = 0; i < plen; i++) {
        if (prog[i].k == MKDTEMP || prog[i].k == MKSTEMP) mc_check(!strcmp(tmpl[0][i], prog[i].p), "template", "%s: the template is '%s' after the abort", name, tmpl[0][i]);
        for (size_t j = 0; j < sizeof cwdbuf[0][i]; j++) mc_check(cwdbuf[0][i][j] == 0x5b, "buffer", "%s: the buffer of getcwd() is not restored", name);
        for (size_t j = 0; j < sizeof stbuf[0][i]; j++) mc_check(((char*)&stbuf[0][i])[j] == 0x5b, "buffer", "%s: the buffer of %s is not restored", name, kname[prog[i].k]);
    }
}
/* a later transaction is not affected */
static void probe(void)
{
    static struct stat st;
    volatile int tries = 0, rec = 0;
    picotm_begin
        mc_check(++tries < 6, "leaked lock", "a later transaction restarts again and again");
        stat_tx("/", &st);
        chdir_tx(root[0]);
        int fd = open_tx("probe", O_RDWR | O_CREAT, 0600);
        write_tx(fd, "x", 1);
        fchmod_tx(fd, 0644);
        close_tx(fd);
        picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        rec = 1;
        mc_check(!picotm_error_is_non_recoverable(), "non-recoverable", "a later transaction ends with a non-recoverable error");
        mc_check(picotm_error_status() == PICOTM_ERROR_CODE, "unexpected error", "a later transaction ends with another error");
    picotm_end
    mc_check(rec, "unexpected commit", "a later transaction commits after an error");
}
static void one_tx(const char* name)
{
    int fd0 = count_fds(), stop = plen;
    fds[0] = fds[1] = -1;
    if (chdir(start[1])) abort();
    snapshot(1, before[1], sizeof *before);
    templates(1);
    for (int i = 0; i < plen; i++) {
        want[i] = run_op(1, i);
        if (want[i].r < 0) { stop = i; break; }
    }
    snapshot(1, after[1], sizeof *after);
    int newfds = count_fds() - fd0;
    fd0 = count_fds();
    if (chdir(start[0])) abort();
    snapshot(0, before[0], sizeof *before);
    mc_check(!strcmp(before[0], before[1]), "harness", "%s / %s", before[0], before[1]);
    templates(0);
    attempts = 0; status = -1; irrev = 0;
    fill();
    if (oom) mc_alloc_fault = 1;
    picotm_begin
        attempts++;
        fds[0] = -1;
        if (use_tm) templates(0);
        if (end_ == E_IRREVOCABLE) picotm_irrevocable();
        for (pos = 0; pos < plen; pos++) {
            point();
            irrev = picotm_is_irrevocable();
            struct res g = run_op(0, pos);
            mc_check(pos < stop, "no error", "%s: %s returns %ld, the direct call fails with %d (%s)", name, opstr(prog + pos), g.r, want[pos].err, strerror(want[pos].err));
            mc_check(g.r == want[pos].r, "result", "%s: %s returns %ld, the direct call %ld", name, opstr(prog + pos), g.r, want[pos].r);
            mc_check(!strcmp(g.txt, want[pos].txt), "result", "%s: %s returns %s, the direct call %s", name, opstr(prog + pos), g.txt, want[pos].txt);
        }
        point();
        irrev = picotm_is_irrevocable();
        if (end_ == E_ERROR) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        status = picotm_error_status() == PICOTM_ERRNO ? picotm_error_as_errno() : 1000 + picotm_error_status();
        mc_check(!picotm_error_is_non_recoverable(), "non-recoverable", "%s: non-recoverable error %d", name, status);
    picotm_end
    mc_alloc_fault = 0;
    snapshot(0, after[0], sizeof *after);
    mc_check(attempts <= 5, "retries", "%s: the transaction ran %d times", name, attempts);
    if (status >= 0) {
        if (oom && (status == ENOMEM || status == 1000 + PICOTM_ERROR_CODE)) {
        } else if (stop < plen) {
            mc_check(pos == stop, "unexpected error", "%s: %s fails with %d (%s), the direct call returns %ld", name, opstr(prog + pos), status, strerror(status), want[pos].r);
            mc_check(status == want[stop].err, "wrong error", "%s: %s fails with %d (%s), the direct call with %d (%s)", name, opstr(prog + stop), status, strerror(status), want[stop].err, strerror(want[stop].err));
        } else
            mc_check(end_ == E_ERROR, "unexpected error", "%s: %s fails with %d (%s), the direct call succeeds", name, pos < plen ? opstr(prog + pos) : "commit", status, strerror(status));
        /* truncating comes before the bookkeeping that can run out of memory */
        bool trunc = oom && plen && (prog[0].k == CREAT || (prog[0].k == OPEN && (prog[0].a & (O_TRUNC | O_CREAT))));
        if (!irrev || (pos == 0 && !trunc)) {
            mc_check(!strcmp(before[0], after[0]), "left after an abort", "%s: before [%s], after the abort [%s]", name, differ(before[0], after[0]), differ(after[0], before[0]));
            mc_check(count_fds() == fd0, "descriptors", "%s: %d descriptors are open after the abort, %d before", name, count_fds(), fd0);
            restored(name);
        }
    } else {
        mc_check(end_ != E_ERROR && stop == plen, "commit", "%s: the transaction commits after an error", name);
        mc_check(!strcmp(after[0], after[1]), "effect", "%s: after commit [%s], expected [%s]", name, differ(after[0], after[1]), differ(after[1], after[0]));
        mc_check(count_fds() == fd0 + newfds, "descriptors", "%s: %d more descriptors are open after commit, expected %d", name, count_fds() - fd0, newfds);
    }
    mc_cases(1);
}
static bool sensible(void)
{
    bool open_ = false, dirfd = false, fifo = false;
    for (int i = 0; i < plen; i++) switch (prog[i].k) {
    case MKFIFO: fifo = true; break;
    case OPEN: case CREAT: if (fifo) return false; /* would wait for the other end */ // fall through
    case MKSTEMP: if (open_) return false; open_ = true; dirfd = prog[i].k == OPEN && (!strcmp(prog[i].p, "d") || !strcmp(prog[i].p, ".")); break;
    case WRITE: if (dirfd) return false; /* EISDIR instead of EBADF */ // fall through
    case FSTAT: case FCHMOD: case FCHDIR: if (!open_) return false; break;
    case CLOSE: if (!open_) return false; open_ = false; break;
    case CHDIR: if (prog[i].p[0] == '/') for (int j = i + 1; j < plen; j++) if (prog[j].k != GETCWD && prog[j].k != GETCWD0) return false; /* nothing outside the scratch directory */
        break;
    case MKNOD: if (S_ISFIFO(prog[i].a)) fifo = true; break;
    default: break;
    }
    return true;
}
static void run_prog(int len);
static void seq(int len, int ntab)
{
    for (int i = 0; i < len; i++) prog[i] = ops[mc_choose(ntab)];
    run_prog(len);
}
static void run_prog(int len)
{
    plen = len;
    if (!sensible()) return;
    end_ = mc_choose(NEND);
    restart_at = -1;
    if (end_ == E_RESTART || end_ == E_CONFLICT) restart_at = len > 1 && mc_choose(2) ? 1 : len;
    use_tm = mc_choose(len > 2 ? 1 : 2);
    static char s[300];
    int n = 0;
    for (int i = 0; i < plen; i++) n += snprintf(s + n, sizeof s - (size_t)n, "%s%s, ", opstr(prog + i), use_tm ? " (_tm)" : "");
    mc_ctx("%s%s", s, endname[end_]);
    mc_note("%s%s, restart at %d", s, endname[end_], restart_at);
    fsx_begin();
    make_tree(0, "t"); make_tree(1, "r");
    one_tx("transaction");
    if (oom || status >= 0) probe();
    picotm_release();
    fsx_end();
    mc_outcome(status < 0 ? 0 : status);
}
static void sc_seq1(int v) { (void)v; seq(1, NOPS); }
static void sc_seq2(int v) { (void)v; seq(2, NOPS); }
static void sc_seq3(int v) { (void)v; seq(3, NSEQ); }
#if PROP == 30
/* the attributes of one file, changed through its descriptor and its name */
static void sc_attr(int v)
{
    static const struct op first[] = { { OPEN, "f", 0, RW }, { OPEN, "l", 0, RW }, { CREAT, "n", 0, 0644 }, { OPEN, "d", 0, O_RDONLY } };
    static const struct op next[] = { { FCHMOD, 0, 0, 0611 }, { FCHMOD, 0, 0, 0640 }, { FCHMOD, 0, 0, 02750 }, { CHMOD, "f", 0, 0600 }, { CHMOD, "n", 0, 0604 }, { CHMOD, "d", 0, 0711 }, { FSTAT }, { WRITE }, { CLOSE } };
    prog[0] = first[v % 4];
    int len = v < 4 ? 3 : 4;
    for (int i = 1; i < len; i++) prog[i] = next[mc_choose(9)];
    run_prog(len);
}
#endif
static void sc_oom1(int v) { (void)v; mc_fault_budget = 2; oom = true; seq(1, NOPS); }
static void sc_oom2(int v) { (void)v; mc_fault_budget = mc_tier_thorough ? 2 : 1; oom = true; seq(2, NSEQ); }
static const struct mc_scenario sc[] = {
    { "seq1", sc_seq1, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 60, "every operation x target x how the transaction ends x _tx and _tm" },
    { "seq2", sc_seq2, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 90, 400, "all pairs of operations" },
#if PROP == 30
    { "attr", sc_attr, 8, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 400, "an open and all pairs and triples of changes to attributes through the descriptor and the name" },
#endif
    { "oom1", sc_oom1, 1, MC_NOPREEMPT, 0, 0, 60, 200, "every operation with every allocation failing (twice)" },
    { "oom2", sc_oom2, 1, MC_NOPREEMPT | (PROP == 30 ? MC_THOROUGH_ONLY : 0), 0, 0, 60, 400, "all pairs of operations with every allocation failing (thorough: twice)" },
    { "seq3", sc_seq3, 1, MC_NOPREEMPT | MC_INPROC | (PROP == 30 ? MC_THOROUGH_ONLY : 0), 0, 0, 60, 400, "all triples of operations" },
};
int main(int argc, char* argv[])
{
    static const char* const as[] = { "the direct calls in a second directory with the same contents are the reference", "every operation runs with root's permissions", "an abort of a transaction that has become irrevocable is only compared if its first operation failed", NULL };
    fsx_init();
    int r = mc_main(argc, argv, PROP == 22 ? "P22" : "P30", sc, sizeof sc / sizeof *sc, as);
    fsx_cleanup();
    return r;
}
