/* P19: concurrent transactions on files are isolated and serializable.
 * Threads run small programs on one file (or two) under the controlled
 * scheduler. What they read, the final contents, size and offset have to
 * match some serial order of the transactions, executed on an array. */
#include "fsx.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/fcntl.h"
#include "picotm/sys/stat.h"
#include "picotm/unistd.h"
#include <stdlib.h>
#include <sys/mman.h>

enum { MAXF = 20480, NOP = 3, MAXB = 40, FD = 40 };
enum kind { NONE, READ, WRITE, PREAD, PWRITE, SEEK, SIZE, CHMOD, MODE };
struct op { enum kind k; int a; long b; int f; };
static const char* const kname[] = { "-", "read", "write", "pread", "pwrite", "lseek", "fstat", "fchmod", "mode" };
enum { OUT_COMMIT, OUT_ERROR, OUT_RESTART };
static const char* const oname[] = { "commit", "error", "restart once, then commit" };

struct prog { struct op op[NOP]; int out; bool own; };
static struct prog prog[3];
static long res[3][NOP]; static char data[3][NOP][MAXB];
static bool append, twice;
static long initsize[2];

static void pattern(char* p, int t, int i, int n) { for (int j = 0; j < n; j++) p[j] = (char)('A' + t * 20 + i * 6 + j % 5); }

static long run_op(int fd, int t, int i, const struct op* o, char* buf)
{
    static struct stat sts[3]; /* outlives the transaction */
    static char outs[3][MAXB];
    char* out = outs[t]; struct stat* st = sts + t;
    switch (o->k) {
    case READ: return read_tx(fd, buf, (size_t)o->a);
    case WRITE: pattern(out, t, i, o->a); return write_tx(fd, out, (size_t)o->a);
    case PREAD: return pread_tx(fd, buf, (size_t)o->a, o->b);
    case PWRITE: pattern(out, t, i, o->a); return pwrite_tx(fd, out, (size_t)o->a, o->b);
    case SEEK: return lseek_tx(fd, o->b, o->a);
    case SIZE: return fstat_tx(fd, st) < 0 ? -1 : st->st_size;
    case CHMOD: return fchmod_tx(fd, (mode_t)o->a);
    case MODE: return fstat_tx(fd, st) < 0 ? -1 : (long)(st->st_mode & 0777);
    case NONE: break;
    }
    return 0;
}
static void warm_up(void)
{
    int fd = memfd_create("w", 0);
    picotm_begin
        static char c;
        pread_tx(fd, &c, 1, 0);
        fsync_tx(fd);
    picotm_commit
        mc_fail("unexpected recovery", "recovery in warm-up");
    picotm_end
    close(fd);
}
static void one_tx(int t, int from, int to)
{
    volatile int tries = 0, rec = 0, err = 0, fd;
    struct prog* p = prog + t;
    picotm_begin
        if (picotm_number_of_restarts()) mc_yield();
        tries++;
        mc_check(tries < 60, "never ends", "T%d restarts again and again", t);
        fd = FD;
        if (p->own) fd = open_tx("/proc/self/fd/40", O_RDWR);
        for (int i = from; i < to; i++) {
            memset(data[t][i], '.', MAXB);
            res[t][i] = run_op(p->own ? fd : FD + p->op[i].f, t, i, p->op + i, data[t][i]);
        }
        if (p->own) close_tx(fd);
        if (p->out == OUT_RESTART && tries == 1) picotm_restart();
        if (p->out == OUT_ERROR) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        rec = 1;
        err = picotm_error_status() == PICOTM_ERRNO ? picotm_error_as_errno() : -(int)picotm_error_status();
        mc_check(!picotm_error_is_non_recoverable(), "non-recoverable", "T%d ends with a non-recoverable error, errno %d", t, err);
    picotm_end
    if (p->out == OUT_ERROR) mc_check(rec && err <= 0, "unexpected error", "T%d ends with errno %d", t, err);
    else mc_check(!rec, "unexpected error", "T%d ends with errno %d", t, err);
}
static void thread_fn(int t)
{
    if (twice) for (int i = 0; i < NOP; i++) { if (prog[t].op[i].k) one_tx(t, i, i + 1); }
    else one_tx(t, 0, NOP);
    picotm_release();
}

/* the reference */
struct model { char d[2][MAXF]; long size[2], off[2]; int mode[2]; };
static struct model m, m0;
static char why[160];
static bool serial(int t, int from, int to)
{
    struct prog* p = prog + t;
    if (p->out == OUT_ERROR) return true;
    long own_off = 0;
    for (int i = from; i < to; i++) {
        struct op* o = p->op + i;
        int f = p->own ? 0 : o->f;
        long* off = p->own ? &own_off : &m.off[f];
        long r = 0, at = o->b;
        char out[MAXB];
        switch (o->k) {
        case READ: at = *off; /* fall through */
        case PREAD:
            r = at >= m.size[f] ? 0 : o->a < m.size[f] - at ? o->a : m.size[f] - at;
            if (r == res[t][i] && memcmp(m.d[f] + at, data[t][i], (size_t)r)) {
                snprintf(why, sizeof why, "T%d: %s(%d at %ld) has other data", t, kname[o->k], o->a, at);
                return false;
            }
            if (o->k == READ) *off += r;
            break;
        case WRITE:
            at = append && !p->own ? m.size[f] : *off; *off = at + o->a;
            /* fall through */
        case PWRITE:
            pattern(out, t, i, o->a);
            memcpy(m.d[f] + at, out, (size_t)o->a);
            if (at + o->a > m.size[f]) m.size[f] = at + o->a;
            r = o->a;
            break;
        case SEEK: r = *off = o->b + (o->a == SEEK_CUR ? *off : o->a == SEEK_END ? m.size[f] : 0); break;
        case SIZE: r = m.size[f]; break;
        case CHMOD: m.mode[f] = o->a; break;
        case MODE: r = m.mode[f]; break;
        case NONE: break;
        }
        if (r != res[t][i]) {
            snprintf(why, sizeof why, "T%d: %s(%d, %ld) returned %ld instead of %ld", t, kname[o->k], o->a, o->b, res[t][i], r);
            return false;
        }
    }
    return true;
}
static void describe(int n)
{
    for (int t = 0; t < n; t++) {
        char s[300]; int k = 0;
        for (int i = 0; i < NOP; i++) {
            struct op* o = &prog[t].op[i];
            if (o->k) k += snprintf(s + k, sizeof s - (size_t)k, "%s(%d, %ld)%s, ", kname[o->k], o->a, o->b, o->f ? " of second file" : "");
        }
        mc_note("T%d: %s%s%s%s", t, prog[t].own ? "own descriptor: " : "", s, oname[prog[t].out], append ? ", O_APPEND" : "");
    }
}
static int make(int fd, long size, int ch)
{
    int f = memfd_create("f", 0);
    if (f < 0) { perror("memfd_create"); _exit(3); }
    static char b[MAXF];
    memset(b, ch, (size_t)size);
    if (write(f, b, (size_t)size) != size) _exit(3);
    lseek(f, 0, SEEK_SET);
    if (append) fcntl(f, F_SETFL, O_APPEND);
    fchmod(f, 0600);
    fsx_move(f, fd);
    return fd;
}
static char got[2][MAXF], first[160];
static long size[2], off[2];
static int mode[2];
static bool matches(void)
{
    for (int f = 0; f < 2; f++) {
        if (size[f] != m.size[f]) { snprintf(why, sizeof why, "the size is %ld instead of %ld", size[f], m.size[f]); return false; }
        if (off[f] != m.off[f]) { snprintf(why, sizeof why, "the offset is %ld instead of %ld", off[f], m.off[f]); return false; }
        if (mode[f] != m.mode[f]) { snprintf(why, sizeof why, "the mode is %o instead of %o", mode[f], m.mode[f]); return false; }
        if (memcmp(got[f], m.d[f], (size_t)size[f])) {
            long k = 0;
            while (got[f][k] == m.d[f][k]) k++;
            snprintf(why, sizeof why, "byte %ld of the file is '%c' instead of '%c'", k, got[f][k], m.d[f][k]);
            return false;
        }
    }
    return true;
}
/* tries all serial orders */
static bool search(int n, int at[3])
{
    int left = 0;
    for (int t = 0; t < n; t++) {
        if (at[t] == NOP) continue;
        left++;
        struct model* save = malloc(sizeof m);
        *save = m;
        int from = at[t], to = twice ? from + 1 : NOP;
        at[t] = to;
        bool ok = serial(t, from, to) && search(n, at);
        at[t] = from;
        if (!ok && !first[0]) memcpy(first, why, sizeof first);
        m = *save;
        free(save);
        if (ok) return true;
    }
    return !left && matches();
}
/* afterwards a transaction can access everything */
static void probe(void)
{
    volatile int tries = 0, rec = 0;
    picotm_begin
        tries++;
        mc_check(tries < 5, "leaked lock", "a transaction cannot lock the file although no other transaction runs");
        for (int f = 0; f < 2; f++) {
            static char c;
            fchmod_tx(FD + f, 0644);
            lseek_tx(FD + f, 0, SEEK_SET);
            for (long i = 0; i < m.size[f] + 96; i += 32) {
                if (m.size[f] > 2000 && i == 640) i = 512 * 32 - 160;
                pwrite_tx(FD + f, "", 1, i);
            }
            read_tx(FD + f, &c, 1);
        }
        picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        rec = 1;
    picotm_end
    mc_check(rec, "leaked lock", "the final transaction does not end");
}
static void run(int n)
{
    describe(n);
    memset(&m0, 0, sizeof m0);
    for (int f = 0; f < 2; f++) {
        make(FD + f, initsize[f], 'a' + f);
        memset(m0.d[f], 'a' + f, (size_t)initsize[f]);
        m0.size[f] = initsize[f]; m0.mode[f] = 0600;
    }
    warm_up();
    mc_run_threads(n, thread_fn);
    bool ok;
    for (int f = 0; f < 2; f++) {
        struct stat st;
        fstat(FD + f, &st);
        size[f] = st.st_size; mode[f] = st.st_mode & 0777;
        off[f] = lseek(FD + f, 0, SEEK_CUR);
        if (pread(FD + f, got[f], MAXF, 0) != size[f]) _exit(3);
    }
    m = m0; first[0] = 0;
    int at[3] = { 0, 0, 0 };
    ok = search(n, at);
    mc_check(ok, "not serializable", "no serial order gives this result; in order T0, T1%s: %s", n > 2 ? ", T2" : "", first);
    probe();
    picotm_release();
    unsigned h = 0;
    for (int t = 0; t < n; t++) for (int i = 0; i < NOP; i++) h = h * 31 + (unsigned)res[t][i] + (unsigned char)data[t][i][0];
    mc_outcome((long)h);
    mc_cases(1);
    close(FD); close(FD + 1);
}
static void reset(long s0, long s1)
{
    memset(prog, 0, sizeof prog);
    append = twice = false;
    initsize[0] = s0; initsize[1] = s1;
}
#define LEN(x) ((int)(sizeof(x) / sizeof *(x)))

/* the quick tier takes the first q of n */
static int ch(int q, int n) { return mc_choose(mc_tier_thorough ? n : q); }
static void outcome(int t) { prog[t].out = ch(2, 3); }

/* positions around record boundaries */
static const struct op pos_ops[] = {
    { PWRITE, 8, 4, 0 }, { PREAD, 12, 26, 0 }, { SIZE, 0, 0, 0 },
    { PREAD, 8, 4, 0 }, { PWRITE, 12, 26, 0 },     /* two records */
    { PREAD, 20, 50, 0 }, { PWRITE, 20, 50, 0 },   /* up to the end */
    { PREAD, 32, 32, 0 }, { PWRITE, 1, 32, 0 },
    { PWRITE, 4, 100, 0 }, { PREAD, 30, 66, 0 },   /* beyond the end */
    { NONE, 0, 0, 0 },
};
static void sc_pos(int v)
{
    reset(70, 0);
    prog[0].op[0] = pos_ops[v];
    prog[0].op[1] = pos_ops[ch(2, LEN(pos_ops))];
    prog[1].op[0] = pos_ops[ch(4, LEN(pos_ops) - 1)];
    if (mc_tier_thorough) prog[1].op[1] = pos_ops[mc_choose(LEN(pos_ops))];
    outcome(0);
    run(2);
}
/* the shared offset */
static const struct op off_ops[] = {
    { READ, 5, 0, 0 }, { WRITE, 6, 0, 0 }, { SEEK, SEEK_END, -2, 0 }, { SEEK, SEEK_CUR, 3, 0 }, { PREAD, 8, 24, 0 },
    { READ, 40, 0, 0 }, { WRITE, 34, 0, 0 }, { SEEK, SEEK_SET, 30, 0 }, { SEEK, SEEK_CUR, 0, 0 }, { PWRITE, 8, 20, 0 },
};
static void sc_off(int v)
{
    reset(28, 0);
    append = v & 1;
    prog[0].op[0] = off_ops[v >> 1];
    prog[0].op[1] = off_ops[ch(2, LEN(off_ops))];
    prog[1].op[0] = off_ops[ch(3, LEN(off_ops))];
    if (mc_tier_thorough) prog[1].op[1] = off_ops[mc_choose(LEN(off_ops))];
    outcome(0);
    if (append) for (int t = 0; t < 2; t++) for (int i = 0; i < NOP; i++) if (prog[t].op[i].k == PWRITE) return; /* appends on Linux */
    run(2);
}
/* attributes */
static const struct op attr_ops[] = { { CHMOD, 0640, 0, 0 }, { MODE, 0, 0, 0 }, { WRITE, 5, 0, 0 }, { SIZE, 0, 0, 0 } };
static void sc_attr(int v)
{
    reset(2, 0);
    prog[0].op[0] = attr_ops[v];
    prog[0].op[1] = attr_ops[ch(3, LEN(attr_ops))];
    prog[1].op[0] = attr_ops[mc_choose(LEN(attr_ops))];
    if (mc_tier_thorough) prog[1].op[1] = attr_ops[mc_choose(LEN(attr_ops))];
    if (prog[1].op[0].k == CHMOD) prog[1].op[0].a = 0604;
    outcome(0);
    run(2);
}
/* each transaction opens the file by itself */
static void sc_own(int v)
{
    reset(28, 0);
    for (int t = 0; t < 2; t++) prog[t].own = true;
    prog[0].op[0] = off_ops[v];
    prog[0].op[1] = off_ops[ch(2, LEN(off_ops))];
    prog[1].op[0] = off_ops[ch(3, LEN(off_ops))];
    if (mc_tier_thorough) prog[1].op[1] = off_ops[mc_choose(LEN(off_ops))];
    outcome(0);
    run(2);
}
/* two files, locked in different orders */
static const struct op two_ops[] = {
    { PWRITE, 8, 4, 1 }, { PREAD, 8, 4, 0 }, { READ, 8, 0, 1 }, { WRITE, 8, 0, 0 }, { WRITE, 8, 0, 1 }, { PWRITE, 8, 4, 0 }, { READ, 8, 0, 0 },{ SIZE, 0, 0, 0 }, { SIZE, 0, 0, 1 },
};
static void sc_two(int v)
{
    reset(20, 30);
    prog[0].op[0] = two_ops[v];
    prog[0].op[1] = two_ops[ch(2, LEN(two_ops))];
    prog[1].op[0] = two_ops[ch(2, LEN(two_ops))];
    prog[1].op[1] = two_ops[ch(2, LEN(two_ops))];
    if (mc_tier_thorough) prog[0].out = mc_choose(2) ? OUT_RESTART : OUT_COMMIT;
    run(2);
}
/* far apart, on different pages of record locks, and across them */
static const struct op far_ops[] = {
    { PWRITE, 8, 512 * 32 - 4, 0 }, { PREAD, 8, 512 * 32 - 4, 0 }, { PWRITE, 4, 512 * 32, 0 }, { PREAD, 4, 512 * 32 - 4, 0 }, { PWRITE, 4, 4, 0 }, { PREAD, 8, 0, 0 },
};
static void sc_far(int v)
{
    reset(512 * 32 + 100, 0);
    prog[0].op[0] = far_ops[v];
    prog[0].op[1] = far_ops[ch(2, LEN(far_ops))];
    prog[1].op[0] = far_ops[ch(4, LEN(far_ops))];
    if (mc_tier_thorough) prog[1].op[1] = far_ops[mc_choose(LEN(far_ops))];
    if (mc_tier_thorough) prog[0].out = mc_choose(2) ? OUT_RESTART : OUT_COMMIT;
    run(2);
}
/* one file after the other: what a thread remembers of the first is not used for the second */
static void sc_next(int v)
{
    reset(20, 30);
    twice = true;
    prog[0].op[0] = two_ops[v];
    prog[1].op[0] = two_ops[ch(2, LEN(two_ops))];
    prog[0].op[1] = two_ops[ch(2, LEN(two_ops))];
    prog[1].op[1] = two_ops[ch(2, LEN(two_ops))];
    run(2);
}
/* three threads */
static const struct op tri_ops[] = { { WRITE, 6, 0, 0 }, { PREAD, 12, 20, 0 }, { READ, 5, 0, 0 }, { PWRITE, 12, 26, 0 }, { SEEK, SEEK_END, 0, 0 } };
static void sc_three(int v)
{
    reset(34, 0);
    prog[0].op[0] = tri_ops[v];
    if (mc_tier_thorough) prog[0].op[1] = tri_ops[mc_choose(LEN(tri_ops))];
    prog[1].op[0] = tri_ops[ch(2, LEN(tri_ops))];
    prog[2].op[0] = tri_ops[mc_tier_thorough ? mc_choose(LEN(tri_ops)) : (v + 1) % 2];
    if (mc_tier_thorough) prog[1].out = mc_choose(3);
    run(3);
}
/* one transaction accesses a region very often, then another one wants to write it */
static int many_n, many_len, many_w;
static long many_off;
static _Atomic int many_ready;
static void many_fn(int t)
{
    static char c[2][40];
    volatile int tries = 0, rec = 0;
    if (t == 1) while (!many_ready) mc_yield();
    picotm_begin
        if (picotm_number_of_restarts()) mc_yield();
        tries++;
        mc_check(tries < 60, "never ends", "T%d restarts again and again", t);
        if (t == 0) {
            static char first_c[40];
            for (int i = 0; i < many_n; i++) {
                if (many_w && i == many_n / 2) pwrite_tx(FD, "x", 1, many_off + 64);
                pread_tx(FD, c[0], (size_t)many_len, many_off);
                if (!i) memcpy(first_c, c[0], sizeof first_c);
            }
            many_ready = 1;
            for (int i = 0; i < 12; i++) mc_yield();
            pread_tx(FD, c[0], (size_t)many_len, many_off);
            mc_check(!memcmp(c[0], first_c, (size_t)many_len), "not serializable", "the transaction reads '%c' after it has read '%c' %d times", c[0][0], first_c[0], many_n);
        } else {
            pread_tx(FD, c[1], 1, many_off);
            c[1][0]++;
            pwrite_tx(FD, c[1], 1, many_off);
        }
    picotm_commit
        rec = 1;
    picotm_end
    mc_check(!rec, "unexpected error", "T%d does not commit", t);
    picotm_release();
}
static void sc_many(int v)
{
    static const int n[] = { 3, 127, 128, 129, 255, 256, 257, 600 };
    reset(512 * 32 + 200, 0);
    many_n = n[v];
    many_len = mc_choose(2) ? 36 : 4;
    many_off = mc_choose(2) ? 512 * 32 - 4 : 8;
    many_w = mc_choose(2);
    many_ready = 0;
    mc_note("%d times %d bytes at %ld", many_n, many_len, many_off);
    make(FD, initsize[0], 'a');
    make(FD + 1, 0, 'a');
    warm_up();
    mc_run_threads(2, many_fn);
    char b = 0;
    if (pread(FD, &b, 1, many_off) != 1) _exit(3);
    mc_check(b == 'b', "not serializable", "the byte is '%c' after both transactions", b);
    mc_cases(1);
    mc_outcome(b);
    picotm_release();
    close(FD); close(FD + 1);
}
static const struct mc_scenario sc[] = {
    { "many", sc_many, 8, 0, 0, 0, 40, 60, "a transaction that accesses the same regions up to 600 times while another one writes there" },
    { "position", sc_pos, LEN(pos_ops) - 1, 0, 1, 2, 80, 300, "two transactions reading and writing at positions around record boundaries and the end of the file" },
    { "offset", sc_off, 2 * LEN(off_ops), 0, 1, 2, 80, 300, "two transactions that share a descriptor and its offset, with and without O_APPEND" },
    { "attribute", sc_attr, LEN(attr_ops), 0, 1, 2, 40, 100, "two transactions that change and read the file's mode and size" },
    { "own", sc_own, LEN(off_ops), 0, 1, 2, 50, 200, "two transactions that open the file themselves" },
    { "two-files", sc_two, LEN(two_ops), 0, 1, 2, 50, 200, "two transactions over two files" },
    { "far", sc_far, LEN(far_ops), 0, 1, 2, 40, 100, "regions on several pages of record locks" },
    { "next", sc_next, LEN(two_ops), 0, 1, 2, 50, 200, "two threads with two transactions each, on one file or the other" },
    { "three", sc_three, LEN(tri_ops), 0, 1, 1, 40, 200, "three transactions" },
};
int main(int argc, char* argv[])
{
    static const char* const as[] = { "system calls execute in one step; files are unnamed files in memory (memfd), the code does not distinguish them from named ones", NULL };
    return mc_main(argc, argv, "P19", sc, sizeof sc / sizeof *sc, as);
}
