/* P18: regular-file I/O in a transaction equals direct I/O; aborts leave no trace.
 * The same operations run directly on a second file with the same contents. */
#include "fsx.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-tm.h"
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/stdlib.h"
#include "picotm/sys/stat.h"
#include "picotm/sys/stat-tm.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"

enum { FD = 40, REF = 50, NBUF = 48, FSZ = 10 };
enum kind { READ, WRITE, PREAD, PWRITE, SEEK, FSYNC, FSTAT, DUP, OPEN2, SWAP, CLOSE2 };
struct op { enum kind k; long a, b; };
static const char* const kname[] = { "read", "write", "pread", "pwrite", "lseek", "fsync", "fstat", "dup", "open", "other descriptor", "close" };

static const struct op ops[] = {
    { READ, 0, 0 }, { READ, 3, 0 }, { READ, 20, 0 },
    { WRITE, 0, 0 }, { WRITE, 2, 0 }, { WRITE, 12, 0 },
    { PREAD, 4, 0 }, { PREAD, 4, 8 }, { PREAD, 30, 0 }, { PREAD, 6, 18 },
    { PWRITE, 2, 0 }, { PWRITE, 3, 9 }, { PWRITE, 2, 25 }, { PWRITE, 0, 40 },
    { SEEK, 0, SEEK_SET }, { SEEK, 12, SEEK_SET }, { SEEK, 31, SEEK_SET }, { SEEK, -1, SEEK_SET },
    { SEEK, 0, SEEK_CUR }, { SEEK, 2, SEEK_CUR }, { SEEK, -3, SEEK_CUR },
    { SEEK, 0, SEEK_END }, { SEEK, -3, SEEK_END }, { SEEK, 5, SEEK_END }, { SEEK, 0, 77 },
    { FSYNC, 0, 0 }, { FSTAT, 0, 0 },
};
/* what the sequences of several descriptors and transactions consist of */
static const struct op ops2[] = {
    { READ, 3, 0 }, { READ, 20, 0 }, { WRITE, 2, 0 }, { WRITE, 12, 0 },
    { PREAD, 30, 0 }, { PWRITE, 3, 9 },
    { SEEK, 12, SEEK_SET }, { SEEK, -3, SEEK_CUR }, { SEEK, 0, SEEK_END }, { FSTAT, 0, 0 },
    { DUP, 0, 0 }, { OPEN2, 0, 0 }, { SWAP, 0, 0 },
};
static const int oflags[] = { O_RDWR, O_RDWR | O_APPEND, O_RDONLY, O_WRONLY };
static const char* const ofname[] = { "O_RDWR", "O_RDWR|O_APPEND", "O_RDONLY", "O_WRONLY" };

enum { E_COMMIT, E_ERROR, E_RESTART, E_CONFLICT, E_IRREVOCABLE, NEND };
static const char* const endname[] = { "commit", "error", "restart, then commit", "conflict, then commit", "become irrevocable, then commit" };

struct side { int cur, other; };
static struct side tx, ref, tx0, ref0;
static char buf[NBUF], rbuf[NBUF];
static const char* wdata[] = { "abcdefghijklmn", "ABCDEFGHIJKLMN", "opqrstuvwxyzop", "OPQRSTUVWXYZOP", "#$%&()*+,-./:;" };

static long direct(const struct op* o, int n)
{
    struct stat st;
    memset(rbuf, '.', sizeof rbuf);
    errno = 0;
    switch (o->k) {
    case READ: return read(ref.cur, rbuf, (size_t)o->a);
    case WRITE: return write(ref.cur, wdata[n], (size_t)o->a);
    case PREAD: return pread(ref.cur, rbuf, (size_t)o->a, o->b);
    case PWRITE: return pwrite(ref.cur, wdata[n], (size_t)o->a, o->b);
    case SEEK: return lseek(ref.cur, o->a, (int)o->b);
    case FSYNC: return fsync(ref.cur);
    case FSTAT: return fstat(ref.cur, &st) < 0 ? -1 : st.st_size;
    case DUP: ref.other = dup(ref.cur); return ref.other < 0 ? -1 : 0;
    case OPEN2: ref.other = open("ref", O_RDWR); return ref.other < 0 ? -1 : 0;
    case SWAP: { int t = ref.cur; ref.cur = ref.other; ref.other = t; return 0; }
    case CLOSE2: { int r = close(ref.other); ref.other = -1; return r; }
    }
    return 0;
}
static bool use_tm;
static long in_tx(const struct op* o, int n)
{
    static struct stat st; /* outlives the transaction */
    memset(buf, '.', sizeof buf);
    switch (o->k) {
    case READ: return use_tm ? read_tm(tx.cur, buf, (size_t)o->a) : read_tx(tx.cur, buf, (size_t)o->a);
    case WRITE: return use_tm ? write_tm(tx.cur, wdata[n], (size_t)o->a) : write_tx(tx.cur, wdata[n], (size_t)o->a);
    case PREAD: return use_tm ? pread_tm(tx.cur, buf, (size_t)o->a, o->b) : pread_tx(tx.cur, buf, (size_t)o->a, o->b);
    case PWRITE: return use_tm ? pwrite_tm(tx.cur, wdata[n], (size_t)o->a, o->b) : pwrite_tx(tx.cur, wdata[n], (size_t)o->a, o->b);
    case SEEK: return lseek_tx(tx.cur, o->a, (int)o->b);
    case FSYNC: return fsync_tx(tx.cur);
    case FSTAT: return (use_tm ? fstat_tm(tx.cur, &st) : fstat_tx(tx.cur, &st)) < 0 ? -1 : st.st_size;
    case DUP: tx.other = dup_tx(tx.cur); return tx.other < 0 ? -1 : 0;
    case OPEN2: tx.other = use_tm ? open_tm("f", O_RDWR) : open_tx("f", O_RDWR); return tx.other < 0 ? -1 : 0;
    case SWAP: { int t = tx.cur; tx.cur = tx.other; tx.other = t; return 0; }
    case CLOSE2: { int r = close_tx(tx.other); tx.other = -1; return r; }
    }
    return 0;
}
static const char* opstr(const struct op* o, int n)
{
    static char s[4][64]; static int i;
    char* p = s[i++ & 3];
    switch (o->k) {
    case READ: case WRITE: snprintf(p, 64, "%s(%ld)", kname[o->k], o->a); break;
    case PREAD: case PWRITE: snprintf(p, 64, "%s(%ld at %ld)", kname[o->k], o->a, o->b); break;
    case SEEK: snprintf(p, 64, "lseek(%ld, %s)", o->a, o->b == SEEK_SET ? "SET" : o->b == SEEK_CUR ? "CUR" : o->b == SEEK_END ? "END" : "?"); break;
    default: snprintf(p, 64, "%s", kname[o->k]);
    }
    (void)n;
    return p;
}
/* sparse files: only the bytes around these offsets are compared */
#define BIGS { 0, 1l << 31, 1l << 32, (1l << 32) + (1l << 31), 1l << 40 }
enum { NBIG = 5, WIN = 48 };
static const long bigs[NBIG] = BIGS;
static bool wide;
static long wide_size;
static void wide_file(const char* name)
{
    int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    for (int i = 0; i < NBIG; i++) if (bigs[i] <= wide_size && pwrite(fd, i ? "9876543210" : "0123456789", 10, i ? bigs[i] - 5 : 0) != 10) abort();
    if (ftruncate(fd, wide_size)) abort();
    close(fd);
}
static size_t slurp_wide(const char* name, char* b)
{
    int fd = open(name, O_RDONLY);
    struct stat st;
    if (fstat(fd, &st)) abort();
    memset(b, 0, 256);
    memcpy(b, &st.st_size, 8);
    for (int i = 0; i < NBIG; i++) if (pread(fd, b + 8 + i * WIN, WIN, i ? bigs[i] - WIN / 2 : 0) < 0) abort();
    close(fd);
    return 8 + NBIG * WIN;
}
static size_t slurp(const char* name, char* b) { if (wide) return slurp_wide(name, b); int fd = open(name, O_RDONLY); ssize_t n = read(fd, b, 256); close(fd); return n < 0 ? 0 : (size_t)n; }

static void same(const char* when, int fd, int rfd)
{
    static char a[256], b[256];
    size_t n = slurp("f", a), m = slurp("ref", b);
    mc_check(n == m, "length", "%s: the file has %zu bytes, expected %zu", when, n, m);
    for (size_t i = 0; i < n; i++)
        mc_check(a[i] == b[i], "contents", "%s: byte %zu is %02x, expected %02x", when, i, (unsigned char)a[i], (unsigned char)b[i]);
    long o = lseek(fd, 0, SEEK_CUR), p = lseek(rfd, 0, SEEK_CUR);
    mc_check(o == p, "offset", "%s: the offset is %ld, expected %ld", when, o, p);
}

static struct op prog[8];
static int plen, end_;
static volatile int attempts, pos, done, status;
static volatile int want_errno;

static int count_fds(void) { int n = 0; for (int i = 0; i < FSX_NFD; i++) n += fcntl(i, F_GETFD) >= 0; return n; }

/* undo what the direct execution did: restore the reference to the state before the transaction */
static char save[256]; static size_t savelen; static long saveoff;
static void ref_save(void) { savelen = slurp("ref", save); saveoff = lseek(ref.cur, 0, SEEK_CUR); ref0 = ref; tx0 = tx; }
static void ref_restore(void)
{
    if (ref.other != ref0.other && ref.other != ref0.cur && ref.other >= 0) close(ref.other);
    if (ref.cur != ref0.cur && ref.cur != ref0.other && ref.cur >= 0) close(ref.cur);
    ref = ref0; tx = tx0;
    if (wide) { wide_file("ref"); lseek(ref.cur, saveoff, SEEK_SET); return; }
    int fd = open("ref", O_WRONLY | O_TRUNC);
    if (write(fd, save, savelen) < 0) abort();
    close(fd);
    lseek(ref.cur, saveoff, SEEK_SET);
}
static long res[8]; static int rerr[8]; static char rdata[8][NBUF];

static void one_tx(const char* name, int from, int to, int end, int restart_at)
{
    /* the direct execution */
    ref_save();
    int fds = count_fds();
    int stop = to;
    for (int i = from; i < to; i++) {
        res[i] = direct(prog + i, i); rerr[i] = errno; memcpy(rdata[i], rbuf, NBUF);
        if (res[i] < 0) { stop = i; break; }
    }
    attempts = 0; status = -1; done = from;
    memset(buf, '!', sizeof buf);
    picotm_begin
        attempts++;
        if (attempts > 1 && end != E_IRREVOCABLE) tx = tx0;
        if (end == E_IRREVOCABLE) { picotm_irrevocable(); tx = tx0; }
        for (pos = from; pos < to; pos++) {
            if (attempts == 1 && pos == restart_at) {
                if (end == E_RESTART) picotm_restart();
                if (end == E_CONFLICT) {
                    struct picotm_error ce = PICOTM_ERROR_INITIALIZER;
                    picotm_error_set_conflicting(&ce, NULL);
                    picotm_recover_from_error(&ce);
                }
            }
            long r = in_tx(prog + pos, pos);
            mc_check(pos < stop, "no error", "%s: %s returns %ld, the direct call fails with errno %d (%s)", name, opstr(prog + pos, pos), r, rerr[pos], strerror(rerr[pos]));
            mc_check(r == res[pos], "result", "%s: %s returns %ld, the direct call %ld", name, opstr(prog + pos, pos), r, res[pos]);
            if (prog[pos].k == READ || prog[pos].k == PREAD)
                for (int i = 0; i < NBUF; i++)
                    mc_check(buf[i] == rdata[pos][i], "data", "%s: byte %d of %s is %02x, the direct call returns %02x", name, i, opstr(prog + pos, pos), (unsigned char)buf[i], (unsigned char)rdata[pos][i]);
        }
        if (attempts == 1 && pos == restart_at) {
            if (end == E_RESTART) picotm_restart();
            if (end == E_CONFLICT) {
                struct picotm_error ce = PICOTM_ERROR_INITIALIZER;
                picotm_error_set_conflicting(&ce, NULL);
                picotm_recover_from_error(&ce);
            }
        }
        if (end == E_ERROR) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        status = picotm_error_status() == PICOTM_ERRNO ? picotm_error_as_errno() : 1000 + picotm_error_status();
    picotm_end
    if (status >= 0) {
        if (stop < to) {
            mc_check(pos == stop, "unexpected error", "%s: %s fails with errno %d, the direct call returns %ld", name, opstr(prog + pos, pos), status, res[pos]);
            mc_check(status == rerr[stop], "wrong error", "%s: %s fails with %d (%s), the direct call with %d (%s)", name, opstr(prog + stop, stop), status, strerror(status), rerr[stop], strerror(rerr[stop]));
        } else {
            mc_check(end == E_ERROR, "unexpected error", "%s: %s fails with errno %d, the direct call returns %ld", name, pos < to ? opstr(prog + pos, pos) : "commit", status, pos < to ? res[pos] : 0);
        }
        if (end != E_IRREVOCABLE) {
            ref_restore();
            same(name, tx.cur, ref.cur);
            mc_check(count_fds() == fds, "descriptors", "%s: %d descriptors are open after the abort, %d before", name, count_fds(), fds);
        } else {
            /* nothing is undone; bring both files into the same state again */
            ref_restore();
            mc_prune();
        }
    } else {
        mc_check(end != E_ERROR, "commit", "%s: the transaction commits after an error", name);
        same(name, tx.cur, ref.cur);
        if (tx.other >= 0 && ref.other >= 0) same(name, tx.other, ref.other);
    }
    mc_cases(1);
}

static void fixture(int fl, int off)
{
    fsx_begin();
    fsx_put("f", "0123456789", FSZ); fsx_put("ref", "0123456789", FSZ);
    fsx_move(open("f", oflags[fl]), FD); fsx_move(open("ref", oflags[fl]), REF);
    lseek(FD, off, SEEK_SET); lseek(REF, off, SEEK_SET);
    tx.cur = FD; ref.cur = REF; tx.other = ref.other = -1;
}
static bool has_swap_ok(int n)
{
    bool other = false;
    /* picotm refuses descriptors it learns about after another one of the
     * same file, see find_by_id() in filetab.c */
    if (prog[0].k == OPEN2) return false;
    for (int i = 0; i < n; i++) {
        if (prog[i].k == DUP || prog[i].k == OPEN2) { if (other) return false; other = true; }
        if ((prog[i].k == SWAP || prog[i].k == CLOSE2) && !other) return false;
        if (prog[i].k == CLOSE2) other = false;
    }
    return true;
}
static void describe(int fl, int off, int restart_at)
{
    static char s[300];
    int n = 0;
    for (int i = 0; i < plen; i++) n += snprintf(s + n, sizeof s - (size_t)n, "%s, ", opstr(prog + i, i));
    mc_ctx("%s at %d: %s%s%s", ofname[fl], off, s, endname[end_], restart_at >= 0 ? " (from the middle)" : "");
    mc_note("%s at %d: %s%s, restart at %d", ofname[fl], off, s, endname[end_], restart_at);
}
static void seq(int len, const struct op* tab, int ntab, int nfl)
{
    int fl = mc_choose(nfl), off = nfl > 1 ? mc_choose(2) * 4 : 0, restart_at = -1;
    plen = len;
    for (int i = 0; i < len; i++) prog[i] = tab[mc_choose(ntab)];
    if (!has_swap_ok(len)) return;
    if (oflags[fl] & O_APPEND) for (int i = 0; i < len; i++) if (prog[i].k == PWRITE) return; /* appends on Linux */
    if (fl && nfl > 1) for (int i = 0; i < len; i++) if (prog[i].k == DUP || prog[i].k == OPEN2) return;
    end_ = mc_choose(NEND);
    if (end_ == E_RESTART || end_ == E_CONFLICT) restart_at = mc_choose(2) ? len : len / 2;
    use_tm = mc_choose(len > 2 ? 1 : 2);
    describe(fl, off, restart_at);
    fixture(fl, off);
    one_tx("transaction", 0, len, end_, restart_at);
    picotm_release();
    fsx_end();
    mc_outcome(status < 0 ? 0 : status);
}
static void sc_seq1(int v) { (void)v; seq(1, ops, sizeof ops / sizeof *ops, 4); }
static void sc_seq2(int v) { (void)v; seq(2, ops, sizeof ops / sizeof *ops, 4); }
static void sc_seq3(int v) { (void)v; seq(3, ops, sizeof ops / sizeof *ops, 2); }
static void sc_multi(int v) { (void)v; seq(4, ops2, sizeof ops2 / sizeof *ops2, 1); }

/* two transactions, one after the other, on the same descriptor or on different files */
static void sc_twice(int v)
{
    (void)v;
    static const int N = 10;
    plen = 4;
    for (int i = 0; i < plen; i++) prog[i] = ops2[mc_choose(N)];
    end_ = mc_choose(3);
    describe(0, 0, -1);
    fixture(0, 0);
    one_tx("first", 0, 2, end_ == 1 ? E_ERROR : end_ == 2 ? E_CONFLICT : E_COMMIT, 2);
    if (status < 0) { tx.cur = FD; ref.cur = REF; }
    one_tx("second", 2, 4, E_COMMIT, -1);
    picotm_release();
    fsx_end();
    mc_outcome(status < 0 ? 0 : status);
}
/* offsets that need more than 31 and more than 32 bits; around record boundaries */
static void sc_wide(int v)
{
    static const struct op tab[] = {
        { READ, 20, 0 }, { WRITE, 12, 0 },
        { PREAD, 30, 0 }, { PREAD, 30, (1l << 31) - 7 }, { PREAD, 30, (1l << 32) - 7 }, { PREAD, 20, (1l << 32) + (1l << 31) - 4 }, { PREAD, 20, (1l << 40) - 9 },
        { PWRITE, 4, 3 }, { PWRITE, 9, (1l << 31) - 3 }, { PWRITE, 9, (1l << 32) - 3 }, { PWRITE, 9, (1l << 32) + (1l << 31) - 2 }, { PWRITE, 9, (1l << 40) - 3 },
        { SEEK, (1l << 31) - 4, SEEK_SET }, { SEEK, (1l << 32) - 4, SEEK_SET }, { SEEK, (1l << 40) - 4, SEEK_SET }, { SEEK, 1l << 31, SEEK_CUR }, { SEEK, -(1l << 32), SEEK_CUR }, { SEEK, -6, SEEK_END }, { SEEK, 1l << 31, SEEK_END },
        { FSTAT, 0, 0 },
    };
    static const long sizes[] = { 10, (1l << 31) + 3, (1l << 32) + 8, (1l << 40) + 6 };
    wide = true;
    wide_size = sizes[v % 4];
    plen = v / 4 + 2;
    for (int i = 0; i < plen; i++) prog[i] = tab[mc_choose((int)(sizeof tab / sizeof *tab))];
    end_ = mc_choose(2) ? E_ERROR : E_COMMIT;
    use_tm = false;
    describe(0, 0, -1);
    fsx_begin();
    wide_file("f"); wide_file("ref");
    fsx_move(open("f", O_RDWR), FD); fsx_move(open("ref", O_RDWR), REF);
    tx.cur = FD; ref.cur = REF; tx.other = ref.other = -1;
    if (mc_choose(2)) { lseek(FD, -4, SEEK_END); lseek(REF, -4, SEEK_END); }
    one_tx("transaction", 0, plen, end_, -1);
    picotm_release();
    fsx_end();
    wide = false;
    mc_outcome(status < 0 ? 0 : status);
}
/* long transfers, and long sequences of short ones */
enum { LMAX = 1 << 15 };
static char lw[2][LMAX], lr[LMAX], ld[LMAX];
static bool l_many; static int l_pat;
static struct op l_op(int i)
{
    static const struct op tab[] = {
        { WRITE, 2100, 0 }, { WRITE, 4096, 0 }, { PWRITE, 4097, 4095 }, { PWRITE, 256, 3 }, { PWRITE, 300, 8000 },
        { READ, 257, 0 }, { READ, 9000, 0 }, { PREAD, 4098, 4094 }, { PREAD, 1025, 2 }, { SEEK, -3, SEEK_END }, { SEEK, 4095, SEEK_SET }, { FSTAT, 0, 0 },
    };
    if (!l_many) return tab[i];
    switch (l_pat) {
    case 0: return (struct op){ WRITE, 1 + i % 5, 0 };                                     /* appends to its own writes */
    case 1: return i % 3 == 2 ? (struct op){ PREAD, 40, (i * 7) % 60 } : (struct op){ PWRITE, 1 + i % 3, (i * 11) % 67 }; /* overlapping */
    case 2: return (struct op){ i & 1 ? READ : WRITE, 1 + i % 4, 0 };
    case 3: return i % 2 ? (struct op){ PREAD, 20, (600 - i) * 3 } : (struct op){ PWRITE, 4, (600 - i) * 3 }; /* downwards */
    default: return i % 3 ? (struct op){ WRITE, 3, 0 } : (struct op){ SEEK, i % 2 ? -2 : 1, SEEK_CUR };
    }
}
static long l_do(const struct op* o, int i, bool t, char* b)
{
    static struct stat st;
    const char* w = lw[i & 1] + i % 13;
    int fd = t ? FD : REF;
    switch (o->k) {
    case READ: return t ? read_tx(fd, b, (size_t)o->a) : read(fd, b, (size_t)o->a);
    case WRITE: return t ? write_tx(fd, w, (size_t)o->a) : write(fd, w, (size_t)o->a);
    case PREAD: return t ? pread_tx(fd, b, (size_t)o->a, o->b) : pread(fd, b, (size_t)o->a, o->b);
    case PWRITE: return t ? pwrite_tx(fd, w, (size_t)o->a, o->b) : pwrite(fd, w, (size_t)o->a, o->b);
    case SEEK: return t ? lseek_tx(fd, o->a, (int)o->b) : lseek(fd, o->a, (int)o->b);
    default: return (t ? fstat_tx(fd, &st) : fstat(fd, &st)) < 0 ? -1 : st.st_size;
    }
}
static void l_same(const char* when)
{
    ssize_t n = pread(FD, ld, LMAX, 0), m = pread(REF, lr, LMAX, 0);
    mc_check(n == m, "length", "%s: the file has %zd bytes, expected %zd", when, n, m);
    for (ssize_t i = 0; i < n; i++) mc_check(ld[i] == lr[i], "contents", "%s: byte %zd is %02x, expected %02x", when, i, (unsigned char)ld[i], (unsigned char)lr[i]);
    long o = lseek(FD, 0, SEEK_CUR), q = lseek(REF, 0, SEEK_CUR);
    mc_check(o == q, "offset", "%s: the offset is %ld, expected %ld", when, o, q);
}
static void sc_long(int v)
{
    static int n, seqs[4]; static volatile int how, tries, rec, i;
    for (int j = 0; j < LMAX; j++) { lw[0][j] = (char)('A' + j % 23); lw[1][j] = (char)('a' + j % 19); }
    l_many = v & 1;
    how = mc_choose(3);
    if (l_many) { l_pat = mc_choose(5); n = (int[]){ 60, 300, 600 }[mc_choose(3)]; }
    else { n = 2 + mc_choose(mc_tier_thorough ? 3 : 2); for (int j = 0; j < n; j++) seqs[j] = mc_choose(12); }
    size_t size = mc_choose(2) ? 8201 : 10;
    if (l_many) { mc_ctx("%d operations of pattern %d on %zu bytes, %s", n, l_pat, size, how == 0 ? "commit" : how == 1 ? "error" : "restart"); }
    else { struct op a = l_op(seqs[0]), b = l_op(seqs[1]); mc_ctx("%s, %s, ... on %zu bytes, %s", opstr(&a, 0), opstr(&b, 0), size, how == 0 ? "commit" : how == 1 ? "error" : "restart"); }
    fsx_begin();
    fsx_put("f", lw[0], size); fsx_put("ref", lw[0], size);
    fsx_move(open("f", O_RDWR), FD); fsx_move(open("ref", O_RDWR), REF);
    lseek(FD, 4, SEEK_SET); lseek(REF, 4, SEEK_SET);
    tries = rec = 0;
    picotm_begin
        tries++;
        if (tries > 1) { fsx_put("ref", lw[0], size); lseek(REF, 4, SEEK_SET); }
        for (i = 0; i < n; i++) {
            struct op o = l_op(l_many ? i : seqs[i]);
            bool rd = o.k == READ || o.k == PREAD;
            if (rd) { memset(lr, '.', (size_t)o.a + 8); memset(ld, '.', (size_t)o.a + 8); }
            long want = l_do(&o, i, false, lr), got = l_do(&o, i, true, ld);
            mc_check(want == got, "result", "operation %d, %s, returns %ld, the direct call %ld", (int)i, opstr(&o, 0), got, want);
            if (rd) for (long j = 0; j < o.a + 8; j++) mc_check(lr[j] == ld[j], "data", "byte %ld of operation %d, %s, is %02x, the direct call returns %02x", j, (int)i, opstr(&o, 0), (unsigned char)ld[j], (unsigned char)lr[j]);
        }
        if (how == 1) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
        if (how == 2 && tries == 1) picotm_restart();
    picotm_commit
        rec = 1;
    picotm_end
    mc_check(rec == (how == 1), "unexpected error", "operation %d: the transaction %s", (int)i, rec ? "fails" : "commits after an error");
    if (rec) { fsx_put("ref", lw[0], size); lseek(REF, 4, SEEK_SET); }
    l_same(rec ? "after the error" : "after the commit");
    picotm_release();
    fsx_end();
    mc_cases(1);
    mc_outcome(how);
}
static const struct mc_scenario sc[] = {
    { "long", sc_long, 2, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 200, "transfers of thousands of bytes; transactions of hundreds of short operations" },
    { "wide", sc_wide, 8, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 200, "sparse files of up to 1 TiB: pairs and triples of operations at offsets of more than 31 and 32 bits" },
    { "seq1", sc_seq1, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 30, 60, "every operation x open mode x offset x how the transaction ends x _tx and _tm" },
    { "seq2", sc_seq2, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 120, "all pairs of operations" },
    { "seq3", sc_seq3, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 400, "all triples of operations" },
    { "multi", sc_multi, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 400, "four operations with a duplicated descriptor or a second one opened in the transaction" },
    { "twice", sc_twice, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 400, "two transactions of two operations" },
};
int main(int argc, char* argv[])
{
    static const char* const as[] = { "the direct calls on a second file with the same contents are the reference", "lseek only with SEEK_SET, SEEK_CUR and SEEK_END; no pwrite with O_APPEND", NULL };
    fsx_init();
    int r = mc_main(argc, argv, "P18", sc, sizeof sc / sizeof *sc, as);
    fsx_cleanup();
    return r;
}
