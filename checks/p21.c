/* P21: output to pipes, FIFOs, sockets and devices arrives exactly once, in
 * program order and at commit only. The same calls run directly in a second
 * world; the far ends of all channels are observed after every operation. */
#include "fsx.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-tm.h"
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/sys/socket.h"
#include "picotm/sys/socket-tm.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include <signal.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <sys/sysmacros.h>

enum { PIPEW, FIFOW, STREAM, DGRAM, SEQPKT, CHR, PIPER, FIFOR, FIFO2, LSTN, DST, NDEV, NFDDEV = FIFO2 };
static const char* const dname[] = { "pipe", "FIFO", "stream socket", "datagram socket", "seqpacket socket", "device", "pipe (read)", "FIFO (read)", "second FIFO", "listening socket", "bound socket" };
enum kind { WRITE, WRITE0, WRITEBIG, SEND, SENDX, SEND0, READ, READBIG, RECV, PEEK, DUPW, CLOSE, SHUT, PWRITE, LSEEK, FSYNC, OPENW, ACCEPT, CONNSEND, BINDL, SENDUN, WRITEUN, NKIND };
static const char* const kname[] = { "write", "write of 0 bytes", "write of 5000 bytes", "send", "send(MSG_NOSIGNAL)", "send of 0 bytes", "read", "read of 64 bytes", "recv", "recv(MSG_PEEK)", "dup and write", "close", "shutdown(SHUT_WR)", "pwrite", "lseek", "fsync", "open and write", "accept and write", "socket, connect and send", "socket, bind and listen", "socket and send", "socket and write" };
enum { MAXLEN = 4, BIG = 5000 };
struct op { enum kind k; int d; };
static struct op prog[MAXLEN];
static int plen;
enum { E_COMMIT, E_ERROR, E_RESTART, E_CONFLICT, E_IRREVOCABLE, E_MID, NEND };
static const char* const endname[] = { "commit", "error", "restart, then commit", "conflict, then commit", "become irrevocable, then commit", "become irrevocable later, then commit" };
static int end_;
static int near_[2][NDEV], far_[2][NDEV];
static char dir[2][200];
static char wbuf[2][MAXLEN][BIG], rbuf[2][MAXLEN][64];
struct res { long r; int err; char txt[80]; };
static struct res want[MAXLEN];
static bool use_tm, oom, nonblock, faults;

/* everything that has arrived, run-length encoded */
struct text { char s[600]; size_t n; char last; int run; };
static struct text arrived[2][NDEV], expect[MAXLEN + 1][NDEV];
static void flush_run(struct text* t) { if (t->run > 3) t->n += (size_t)snprintf(t->s + t->n, sizeof t->s - t->n, "*%d", t->run); else for (int i = 1; i < t->run; i++) { t->s[t->n++] = t->last; t->s[t->n] = 0; } t->run = 0; }
static void put(struct text* t, const char* p, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        if (t->run && t->last == p[i]) { t->run++; continue; }
        flush_run(t);
        if (t->n > 500) abort();
        t->s[t->n++] = p[i]; t->s[t->n] = 0; t->last = p[i]; t->run = 1;
    }
}
static void mark(struct text* t, const char* p) { flush_run(t); t->n += (size_t)snprintf(t->s + t->n, sizeof t->s - t->n, "%s", p); }
static const char* show(struct text t) { static char s[4][600]; static int i; flush_run(&t); return strcpy(s[i++ & 3], t.s); }
static void drain(int fd, bool packets, struct text* t)
{
    static char b[8192];
    int fl = fcntl(fd, F_GETFL);
    if (fl < 0) return;
    fcntl(fd, F_SETFL, fl | O_NONBLOCK);
    if (packets) {
        ssize_t n;
        while ((n = recv(fd, b, sizeof b, MSG_DONTWAIT)) >= 0 || errno == ECONNRESET) {
            if (n < 0) continue;     /* reported once, before the data */
            /* the end of a connection looks like an empty message; it repeats */
            struct text o = *t;
            mark(t, "["); put(t, b, (size_t)n); mark(t, "]");
            if (!n && t->n > 100) { *t = o; break; }
        }
    } else {
        ssize_t n;
        while ((n = read(fd, b, sizeof b)) > 0 || (n < 0 && errno == ECONNRESET)) if (n > 0) put(t, b, (size_t)n);
        if (!n && (!t->n || t->s[t->n - 1] != '$')) mark(t, "$");
        if (n < 0 && errno != EAGAIN && errno != EIO) mark(t, "%");
        if (n < 0 && errno == EIO && (!t->n || t->s[t->n - 1] != '!')) mark(t, "!");
    }
    fcntl(fd, F_SETFL, fl);
}
static bool is_packet(int d) { return d == DGRAM || d == SEQPKT || d == DST; }
static void look(int w) { for (int d = 0; d < NDEV; d++) if (d != PIPER && d != FIFOR && d != LSTN) drain(far_[w][d], is_packet(d), &arrived[w][d]); drain(far_[w][LSTN], false, &arrived[w][LSTN]); }
/* descriptors are closed at commit or before */
static bool closing;
static bool same(struct text* a, struct text* b)
{
    const char* x = show(*a), *y = show(*b);
    size_t n = strlen(x), m = strlen(y);
    if (closing) {
        while (n && (x[n - 1] == '$' || x[n - 1] == '%' || (n > 1 && x[n - 1] == ']' && x[n - 2] == '[' && n--))) n--;
        while (m && (y[m - 1] == '$' || y[m - 1] == '%' || (m > 1 && y[m - 1] == ']' && y[m - 2] == '[' && m--))) m--;
    }
    return n == m && !memcmp(x, y, n);
}
static const char* diff(struct text* a, struct text* b)
{
    static char s[900];
    for (int d = 0; d < NDEV; d++) if (!same(a + d, b + d)) {
        snprintf(s, sizeof s, "from %s arrived '%.200s', expected '%.200s'", dname[d], show(a[d]), show(b[d]));
        return s;
    }
    return NULL;
}
/* what is left to read, and whether a bound socket accepts connections */
static void leftovers(int w, char* out, size_t max)
{
    size_t n = 0;
    for (int d = 0; d < NFDDEV; d++) {
        struct text t = { .n = 0 };
        if (fcntl(near_[w][d], F_GETFD) < 0) { n += (size_t)snprintf(out + n, max - n, "%s closed; ", dname[d]); continue; }
        if (d == PIPEW || d == FIFOW || d == CHR) continue;
        drain(near_[w][d], is_packet(d), &t);
        n += (size_t)snprintf(out + n, max - n, "%s has '%s'; ", dname[d], show(t));
    }
    char p[300];
    struct sockaddr_un a = { .sun_family = AF_UNIX };
    strcpy(a.sun_path, "lst");
    snprintf(p, sizeof p, "%s/lst", dir[w]);
    int s = socket(AF_UNIX, SOCK_STREAM, 0);
    if (chdir(dir[w])) abort();
    n += (size_t)snprintf(out + n, max - n, "%s, ", access(p, F_OK) ? "no address" : connect(s, (struct sockaddr*)&a, sizeof a) ? "address without socket" : "listening");
    close(s);
    fcntl(near_[w][LSTN], F_SETFL, O_NONBLOCK);
    s = accept(near_[w][LSTN], NULL, NULL);
    n += (size_t)snprintf(out + n, max - n, s >= 0 ? "a connection is pending" : "no pending connection");
    if (s >= 0) close(s);
}

/* the system calls of the module, with interruptions and short writes */
struct call { int fd; long n; };
static struct call trace[2][64];
static int ntrace[2];
static bool inject;
static void put(struct text* t, const char* p, size_t n);
static bool is_device(int fd) { struct stat st; return !fstat(fd, &st) && S_ISCHR(st.st_mode) && st.st_rdev == makedev(1, 5); }
static void traced(int fd, const void* b, long n)
{
    if (n > 0 && is_device(fd)) put(&arrived[0][CHR], b, (size_t)n);
    if (n <= 0 || ntrace[0] >= 64) return;
    struct stat st;
    if (fstat(fd, &st)) return;
    int id = (int)st.st_ino;
    if (ntrace[0] && trace[0][ntrace[0] - 1].fd == id) trace[0][ntrace[0] - 1].n += n;
    else trace[0][ntrace[0]++] = (struct call){ id, n };
}
ssize_t rt_write(int fd, const void* b, size_t n)
{
    struct stat st;
    if (inject && fd > 2) {
        if (mc_fault("write is interrupted")) { errno = EINTR; return -1; }
        if (n > 1 && !fstat(fd, &st) && (S_ISFIFO(st.st_mode) || S_ISCHR(st.st_mode)) && mc_fault("short write")) n = n / 2;
    }
    ssize_t r = write(fd, b, n);
    traced(fd, b, r);
    return r;
}
ssize_t rt_writev(int fd, const struct iovec* v, int n)
{
    ssize_t r = writev(fd, v, n), k = r;
    for (int i = 0; i < n && k > 0; i++) { long l = k < (ssize_t)v[i].iov_len ? k : (ssize_t)v[i].iov_len; traced(fd, v[i].iov_base, l); k -= l; }
    return r;
}
ssize_t rt_send(int fd, const void* b, size_t n, int fl)
{
    if (inject && mc_fault("send is interrupted")) { errno = EINTR; return -1; }
    ssize_t r = send(fd, b, n, fl);
    traced(fd, b, r);
    return r;
}
ssize_t rt_read(int fd, void* b, size_t n)
{
    if (inject && mc_fault("read is interrupted")) { errno = EINTR; return -1; }
    return read(fd, b, n);
}
ssize_t rt_recv(int fd, void* b, size_t n, int fl)
{
    if (inject && mc_fault("recv is interrupted")) { errno = EINTR; return -1; }
    return recv(fd, b, n, fl);
}
static int order[2][MAXLEN * 2], norder[2];     /* channels in the order of the output (direct) */

static void fill(int w, int i, size_t n)
{
    char c[BIG];
    memset(c, 'a' + i, n);
    if (n > 1 && n < 10) c[1] = (char)('A' + i);
    if (!w && !use_tm) store_tx(wbuf[w][i], c, n); else memcpy(wbuf[w][i], c, n);
}
/* the buffer belongs to the caller again */
static void spoil(int w, int i, size_t n)
{
    char c[BIG];
    memset(c, '#', n);
    if (!w && !use_tm) store_tx(wbuf[w][i], c, n); else memcpy(wbuf[w][i], c, n);
}
#define CALL(name, ...) (w ? name(__VA_ARGS__) : use_tm ? name##_tm(__VA_ARGS__) : name##_tx(__VA_ARGS__))
#define CALL1(name, ...) (w ? name(__VA_ARGS__) : name##_tx(__VA_ARGS__))
static void wrote(int w, int d, long n, const char* b) { if (n > 0) { order[w][norder[w]] = d; norder[w]++; if (w && d == CHR) put(&arrived[1][CHR], b, (size_t)n); } }
static struct res run_op(int w, int i)
{
    const struct op* o = prog + i;
    struct res r = { 0, 0, "" };
    int fd = near_[w][o->d], n = -1;
    char* b = wbuf[w][i], *in = rbuf[w][i];
    errno = 0;
    switch (o->k) {
    case WRITE: fill(w, i, 2); r.r = CALL(write, fd, b, 2); r.err = errno; wrote(w, o->d, r.r, b); spoil(w, i, 2); break;
    case WRITE0: r.r = CALL(write, fd, b, 0); r.err = errno; break;
    case WRITEBIG: fill(w, i, BIG); r.r = CALL(write, fd, b, BIG); r.err = errno; wrote(w, o->d, r.r, b); spoil(w, i, BIG); break;
    case SEND: fill(w, i, 2); r.r = CALL(send, fd, b, 2, 0); r.err = errno; wrote(w, o->d, r.r, b); spoil(w, i, 2); break;
    case SENDX: fill(w, i, 2); r.r = CALL(send, fd, b, 2, MSG_NOSIGNAL); r.err = errno; wrote(w, o->d, r.r, b); spoil(w, i, 2); break;
    case SEND0: r.r = CALL(send, fd, b, 0, 0); r.err = errno; break;
    case READ: r.r = CALL(read, fd, in, 4); r.err = errno; break;
    case READBIG: r.r = CALL(read, fd, in, 64); r.err = errno; break;
    case RECV: r.r = CALL(recv, fd, in, 4, 0); r.err = errno; break;
    case PEEK: r.r = CALL(recv, fd, in, 4, MSG_PEEK); r.err = errno; break;
    case DUPW: fill(w, i, 2); n = CALL1(dup, fd);
        if (n < 0) { r.r = -1; r.err = errno; break; }
        r.r = CALL(write, n, b, 2); r.err = errno; wrote(w, o->d, r.r, b); spoil(w, i, 2); break;
    case CLOSE: r.r = CALL1(close, fd); r.err = errno; break;
    case SHUT: r.r = CALL1(shutdown, fd, SHUT_WR); r.err = errno; break;
    case PWRITE: fill(w, i, 2); r.r = CALL(pwrite, fd, b, 2, 0); r.err = errno; break;
    case LSEEK: r.r = CALL1(lseek, fd, 0, SEEK_CUR); r.err = errno; break;
    case FSYNC: r.r = CALL1(fsync, fd); r.err = errno; break;
    case OPENW: fill(w, i, 2); n = CALL(open, "fifo2", O_WRONLY); r.r = CALL(write, n, b, 2); r.err = errno; wrote(w, o->d, r.r, b); spoil(w, i, 2); break;
    case ACCEPT: fill(w, i, 2); n = CALL(accept, near_[w][LSTN], NULL, NULL); r.r = CALL(write, n, b, 2); r.err = errno; wrote(w, o->d, r.r, b); spoil(w, i, 2); break;
    case CONNSEND: {
        static struct sockaddr_un a = { AF_UNIX, "dst" };
        fill(w, i, 2);
        n = CALL1(socket, AF_UNIX, SOCK_DGRAM, 0);
        CALL(connect, n, (struct sockaddr*)&a, (socklen_t)sizeof a);
        r.r = CALL(send, n, b, 2, 0); r.err = errno; wrote(w, DST + 16 * i, r.r, b); spoil(w, i, 2);
        break;
    }
    case SENDUN: case WRITEUN: /* not connected */
        fill(w, i, 2);
        n = CALL1(socket, AF_UNIX, o->k == SENDUN ? SOCK_DGRAM : SOCK_STREAM, 0);
        r.r = o->k == SENDUN ? CALL(send, n, b, 2, 0) : CALL(write, n, b, 2); r.err = errno;
        break;
    case BINDL: {
        static struct sockaddr_un a = { AF_UNIX, "lst" };
        n = CALL1(socket, AF_UNIX, SOCK_STREAM, 0);
        r.r = CALL(bind, n, (struct sockaddr*)&a, (socklen_t)sizeof a);
        if (r.r >= 0) r.r = CALL1(listen, n, 3);
        r.err = errno;
        break;
    }
    default: break;
    }
    if (o->k == READ || o->k == READBIG || o->k == RECV || o->k == PEEK) {
        char c[64];
        if (!w && !use_tm) load_tx(in, c, sizeof c); else memcpy(c, in, sizeof c);
        if (r.r > 0 && r.r <= 64) { memcpy(r.txt, c, (size_t)r.r); r.txt[r.r] = 0; }
    }
    return r;
}
static void pair(int w, int d, int type, int base, int far)
{
    int p[2];
    if (socketpair(AF_UNIX, type, 0, p)) abort();
    fsx_move(p[0], base + d); fsx_move(p[1], far + d);
    near_[w][d] = base + d; far_[w][d] = far + d;
}
static void say(int fd, const char* s) { if (write(fd, s, strlen(s)) < 0) abort(); }
static bool uses(int d) { for (int i = 0; i < plen; i++) if (prog[i].d == d) return true; return false; }
static void make_world(int w)
{
    int p[2], base = w ? 35 : 20, far = w ? 65 : 50;
    if (mkdir(w ? "b" : "a", 0755) || chdir(w ? "b" : "a")) abort();
    if (!getcwd(dir[w], sizeof dir[w])) abort();
    if (pipe(p)) abort();
    fsx_move(p[1], base + PIPEW); fsx_move(p[0], far + PIPEW);
    if (mkfifo("fifo", 0600) || mkfifo("fifor", 0600) || mkfifo("fifo2", 0600)) abort();
    fsx_move(open("fifo", O_RDONLY | O_NONBLOCK), far + FIFOW); fsx_move(open("fifo", O_WRONLY), base + FIFOW);
    pair(w, STREAM, SOCK_STREAM, base, far); pair(w, DGRAM, SOCK_DGRAM, base, far); pair(w, SEQPKT, SOCK_SEQPACKET, base, far);
    say(far + STREAM, "stream data"); say(far + DGRAM, "dg1"); say(far + DGRAM, "datagram2"); say(far + SEQPKT, "sq1"); say(far + SEQPKT, "packet2");
    fsx_move(open("/dev/zero", O_RDWR), base + CHR);
    if (pipe(p)) abort();
    fsx_move(p[0], base + PIPER); fsx_move(p[1], far + PIPER); say(far + PIPER, "pipe data");
    fsx_move(open("fifor", O_RDONLY | O_NONBLOCK), base + FIFOR); fsx_move(open("fifor", O_WRONLY), far + FIFOR); say(far + FIFOR, "fifo data");
    fcntl(base + FIFOR, F_SETFL, 0);
    fsx_move(open("fifo2", O_RDONLY | O_NONBLOCK), far + FIFO2);
    struct sockaddr_un a = { .sun_family = AF_UNIX };
    strcpy(a.sun_path, "acc");
    fsx_move(socket(AF_UNIX, SOCK_STREAM, 0), base + LSTN);
    fsx_move(socket(AF_UNIX, SOCK_STREAM, 0), far + LSTN);
    if (bind(base + LSTN, (struct sockaddr*)&a, sizeof a) || listen(base + LSTN, 3) || connect(far + LSTN, (struct sockaddr*)&a, sizeof a)) abort();
    strcpy(a.sun_path, "dst");
    fsx_move(socket(AF_UNIX, SOCK_DGRAM, 0), far + DST);
    if (bind(far + DST, (struct sockaddr*)&a, sizeof a)) abort();
    for (int d = 0; d < NDEV; d++) { near_[w][d] = base + d; far_[w][d] = far + d; }
    if (nonblock) for (int d = 0; d < NFDDEV; d++) fcntl(base + d, F_SETFL, O_NONBLOCK | (fcntl(base + d, F_GETFL) & O_ACCMODE));
    memset(arrived[w], 0, sizeof arrived[w]);
    norder[w] = 0;
    if (chdir("..")) abort();
}
static volatile int attempts, pos, status, irrev, restart_at;
static bool would_block(int i)
{
    const struct op* o = prog + i;
    if (o->k == ACCEPT) { for (int j = 0; j < i; j++) if (prog[j].k == ACCEPT) return true; }
    if (nonblock) return false;
    if (o->k == READ || o->k == READBIG || o->k == RECV || o->k == PEEK) {
        int fd = near_[1][o->d], fl = fcntl(fd, F_GETFL), b = 0;
        char c;
        if (fl < 0 || (fl & O_ACCMODE) == O_WRONLY) return false;
        struct stat st;
        if (!fstat(fd, &st) && S_ISSOCK(st.st_mode)) return recv(fd, &c, 1, MSG_PEEK | MSG_DONTWAIT) < 0 && errno == EAGAIN;
        extern int ioctl(int, unsigned long, ...);
        ioctl(fd, 0x541B /* FIONREAD */, &b);
        return !b;
    }
    return false;
}
static int count_fds(void) { int n = 0; for (int i = 0; i < FSX_NFD; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static void point(void)
{
    if (attempts == 1 && pos == restart_at && !picotm_is_irrevocable()) {
        if (end_ == E_RESTART) picotm_restart();
        if (end_ == E_CONFLICT) {
            struct picotm_error ce = PICOTM_ERROR_INITIALIZER;
            picotm_error_set_conflicting(&ce, NULL);
            picotm_recover_from_error(&ce);
        }
    }
    if (end_ == E_MID && pos == restart_at) picotm_irrevocable();
}
/* writing fails at commit then, which cannot be recovered from */
static bool was_shut(int d) { for (int i = 0; i < plen; i++) if (prog[i].k == SHUT && prog[i].d == d) return true; return false; }
static void probe(void)
{
    static char z[1] = { 'z' };
    volatile int tries = 0;
    memset(arrived[0], 0, sizeof arrived[0]);
    picotm_begin
        mc_check(++tries < 6, "leaked lock", "a later transaction restarts again and again");
        for (int d = 0; d < PIPER; d++) if (uses(d) && fcntl(near_[0][d], F_GETFD) >= 0 && !was_shut(d)) write_tx(near_[0][d], z, 1);
    picotm_commit
        mc_fail("later transaction", "a later transaction fails with error %d, errno %d", picotm_error_status(), picotm_error_as_errno());
    picotm_end
}
static const char* opstr(const struct op* o)
{
    static char s[4][80]; static int n; char* p = s[n++ & 3];
    if (o->k >= OPENW) return kname[o->k];
    snprintf(p, 80, "%s(%s)", kname[o->k], dname[o->d]);
    return p;
}
static void run(void)
{
    const char* d;
    static char left[2][2000];
    fsx_begin();
    signal(SIGPIPE, SIG_IGN);
    make_world(0); make_world(1);
    int stop = plen;
    static struct text none[NDEV];
    if (chdir(dir[1])) abort();
    memset(wbuf, '-', sizeof wbuf); memset(rbuf, '-', sizeof rbuf);
    look(1);
    for (int i = 0; i < plen; i++) {
        if (would_block(i)) { if (chdir("..")) abort(); fsx_end(); return; }
        memcpy(expect[i], arrived[1], sizeof expect[i]);
        want[i] = run_op(1, i);
        if (want[i].r < 0 && want[i].err != EAGAIN) { stop = i; break; }
        look(1);
    }
    if (stop == plen) memcpy(expect[plen], arrived[1], sizeof expect[plen]);
    int nord = norder[1];
    leftovers(1, left[1], sizeof *left);
    static char before[2000];
    {   /* what an aborted transaction leaves: the state of a third, untouched world is that of world 0 */
        before[0] = 0;
    }
    if (chdir(dir[0])) abort();
    look(0);
    mc_check(!(d = diff(arrived[0], expect[0])), "harness", "%s", d);
    memcpy(none, arrived[0], sizeof none);
    attempts = 0; status = -1; irrev = 0; ntrace[0] = 0;
    int fd0 = count_fds();
    if (oom) mc_alloc_fault = 1;
    inject = faults;
    picotm_begin
        attempts++;
        if (end_ == E_IRREVOCABLE) picotm_irrevocable();
        for (pos = 0; pos < plen; pos++) {
            point();
            if (!picotm_is_irrevocable()) ntrace[0] = 0;
            norder[0] = 0;
            irrev = picotm_is_irrevocable();
            struct res g = run_op(0, pos);
            irrev = picotm_is_irrevocable();
            inject = false;
            mc_check(pos < stop, "no error", "%s returns %ld, the direct call fails with %d (%s)", opstr(prog + pos), g.r, want[pos].err, strerror(want[pos].err));
            mc_check(g.r == want[pos].r && !strcmp(g.txt, want[pos].txt), "result", "%s returns %ld, '%s', the direct call %ld, '%s'", opstr(prog + pos), g.r, g.txt, want[pos].r, want[pos].txt);
            if (want[pos].r < 0) mc_check(g.err == want[pos].err, "errno", "%s sets errno to %d, the direct call to %d", opstr(prog + pos), g.err, want[pos].err);
            look(0);
            closing = irrev;
            mc_check(!(d = diff(arrived[0], irrev ? expect[pos + 1] : none)), irrev ? "late" : "visible before commit", "after %s%s: %s", opstr(prog + pos), irrev ? ", in an irrevocable transaction" : "", d);
            closing = false;
            inject = faults;
        }
        point();
        irrev = picotm_is_irrevocable();
        if (end_ == E_ERROR) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        inject = false;
        status = picotm_error_status() == PICOTM_ERRNO ? picotm_error_as_errno() : 1000 + picotm_error_status();
        mc_check(!picotm_error_is_non_recoverable(), "non-recoverable", "non-recoverable error %d (%s)", status, status < 1000 ? strerror(status) : "");
    picotm_end
    inject = false;
    mc_alloc_fault = 0;
    mc_check(attempts <= 5, "retries", "the transaction ran %d times", attempts);
    look(0);
    if (status >= 0) {
        bool om = oom && (status == ENOMEM || status == 1000 + PICOTM_ERROR_CODE);
        if (om) {
        } else if (stop < plen) {
            mc_check(pos == stop, "unexpected error", "%s fails with %d (%s), the direct call returns %ld", opstr(prog + pos), status, strerror(status), want[pos].r);
            mc_check(status == want[stop].err, "wrong error", "%s fails with %d (%s), the direct call with %d (%s)", opstr(prog + stop), status, strerror(status), want[stop].err, strerror(want[stop].err));
        } else
            mc_check(end_ == E_ERROR, "unexpected error", "%s fails with %d (%s), the direct call succeeds", pos < plen ? opstr(prog + pos) : "commit", status, strerror(status));
        bool closes = false;
        for (int i = 0; i < plen; i++) closes |= prog[i].k == CLOSE;
        mc_check(count_fds() == fd0 || (closes && irrev), "descriptors", "%d descriptors are open after the abort, %d before", count_fds(), fd0);
        if (!irrev) {
            mc_check(!(d = diff(arrived[0], none)), "visible after an abort", "%s", d);
            /* nothing has been consumed: world 0 has what a new world has */
            plen = -plen;
            leftovers(0, left[0], sizeof *left);
            plen = -plen;
            snprintf(before, sizeof before, "stream socket has 'stream data'; datagram socket has '[dg1][datagram2]'; seqpacket socket has '[sq1][packet2]'; pipe (read) has 'pipe data'; FIFO (read) has 'fifo data'; no address, a connection is pending");
            mc_check(!strcmp(left[0], before), "left after an abort", "%s, expected %s", left[0], before);
            for (int i = 0; !use_tm && i < plen; i++) mc_check(wbuf[0][i][0] == '-' && rbuf[0][i][0] == '-', "buffer", "the buffer of %s is not restored", opstr(prog + i));
        } else if (!om) { closing = true; mc_check(!(d = diff(arrived[0], expect[stop])), "irrevocable abort", "%s", d); closing = false; }
    } else {
        mc_check(end_ != E_ERROR && stop == plen, "commit", "the transaction commits after an error");
        mc_check(!(d = diff(arrived[0], expect[plen])), "effect", "after commit %s", d);
        leftovers(0, left[0], sizeof *left);
        mc_check(!strcmp(left[0], left[1]), "effect", "after commit [%s], expected [%s]", left[0], left[1]);
        /* the order of the output across channels, if the module uses these calls */
        int ord[64], n = 0; long total = 0, tw = 0;
        for (int i = 0; i < ntrace[0]; i++) { total += trace[0][i].n; if (!n || ord[n - 1] != trace[0][i].fd) ord[n++] = trace[0][i].fd; }
        for (int i = 0; i < plen; i++) if ((prog[i].k <= SEND0 || prog[i].k == DUPW || prog[i].k >= OPENW) && prog[i].k != BINDL && want[i].r > 0) tw += want[i].r;
        if (total == tw) {
            int m = 0, k = 0;
            int ids[64], devs[64], nid = 0;
            for (int i = 0; i < nord; i++) if (!i || order[1][i] != order[1][i - 1]) {
                int id = -1;
                mc_check(k < n, "order", "the output of %d channels is missing", nord - i);
                for (int j = 0; j < nid; j++) if (devs[j] == order[1][i]) id = ids[j];
                if (id >= 0) mc_check(id == ord[k], "order across channels", "output number %d does not go to %s", k + 1, dname[order[1][i] & 15]);
                else { for (int j = 0; j < nid; j++) mc_check(ids[j] != ord[k], "order across channels", "output number %d goes to %s instead of %s", k + 1, dname[devs[j] & 15], dname[order[1][i] & 15]); ids[nid] = ord[k]; devs[nid++] = order[1][i]; }
                k++; m++;
            }
            mc_check(m == n, "order across channels", "%d switches between channels, expected %d", n, m);
        }
    }
    probe();
    picotm_release();
    fsx_end();
    mc_cases(1);
    mc_outcome(status < 0 ? 0 : status);
}
static bool ok(const struct op* o) { return o->d != CHR || (o->k != LSEEK && o->k != PWRITE && o->k != FSYNC); } /* documented as unsupported */
static bool choose(int len, const int* kinds, int nk, const int* devs, int nd)
{
    plen = len;
    for (int i = 0; i < len; i++) {
        enum kind k = (enum kind)(kinds ? kinds[mc_choose(nk)] : mc_choose(NKIND));
        prog[i] = (struct op){ k, k == OPENW ? FIFO2 : k == ACCEPT ? LSTN : DST };
        if (k < OPENW) prog[i].d = devs ? devs[mc_choose(nd)] : mc_choose(NFDDEV);
        if (!ok(prog + i)) return false;
    }
    return true;
}
static void finish_choice(void)
{
    end_ = mc_choose(NEND);
    restart_at = -1;
    if (end_ == E_RESTART || end_ == E_CONFLICT || end_ == E_MID) restart_at = plen > 1 && mc_choose(2) ? 1 : plen;
    use_tm = mc_choose(plen > 2 ? 1 : 2);
    static char s[500];
    int n = 0;
    for (int i = 0; i < plen; i++) n += snprintf(s + n, sizeof s - (size_t)n, "%s%s, ", opstr(prog + i), use_tm ? " (_tm)" : "");
    snprintf(s + n, sizeof s - (size_t)n, "%s%s", nonblock ? "non-blocking, " : "", endname[end_]);
    mc_ctx("%s", s);
    mc_note("%s, restart at %d", s, restart_at);
    run();
}
static void sc_seq1(int v) { nonblock = v; if (choose(1, NULL, 0, NULL, 0)) finish_choice(); }
static void sc_seq2(int v) { nonblock = v; if (choose(2, NULL, 0, NULL, 0)) finish_choice(); }
static const int k3[] = { WRITE, SEND, READ, DUPW, CLOSE, OPENW, RECV, SHUT }, d3[] = { PIPEW, STREAM, DGRAM, CHR };
static void sc_seq3(int v) { nonblock = v; if (choose(3, k3, sizeof k3 / sizeof *k3, d3, 4)) finish_choice(); }
static const int k4[] = { WRITE, WRITEBIG, DUPW, OPENW }, d4[] = { FIFOW, SEQPKT, CHR };
static void sc_seq4(int v) { (void)v; if (choose(4, k4, 4, d4, 3)) finish_choice(); }
static const int kf[] = { WRITE, WRITEBIG, SEND, READ, RECV, DUPW, CONNSEND }, df[] = { PIPEW, STREAM, DGRAM, CHR, PIPER };
static void sc_intr(int v) { (void)v; mc_fault_budget = 2; faults = true; if (choose(1 + mc_choose(2), kf, 7, df, 5)) finish_choice(); }
static void sc_oom1(int v) { (void)v; mc_fault_budget = 2; oom = true; if (choose(1, NULL, 0, NULL, 0)) finish_choice(); }
static void sc_oom2(int v) { (void)v; mc_fault_budget = 1; oom = true; if (choose(2, k3, sizeof k3 / sizeof *k3, d3, 4)) finish_choice(); }
/* hundreds of writes of different sizes to a pipe, a FIFO and a socket in one transaction */
enum { MANY = 320, NCH = 3 };
static void sc_many(int v)
{
    static int wr[NCH], rd[NCH], len[MANY], ch[MANY]; static volatile int n, how, tries, rec, i; static bool irr;
    static char src[4200], exp[NCH][60000], got[60010]; static size_t nexp[NCH];
    static const int cnt[] = { 40, 150, 320 };
    static const int big[] = { 4095, 4096, 4097, 300 };
    (void)v;
    n = cnt[mc_choose(3)];
    how = mc_choose(5);
    int pat = mc_choose(4), sz = mc_choose(4);
    for (int j = 0; j < (int)sizeof src; j++) src[j] = (char)(33 + j % 89);
    mc_ctx("%d writes, pattern %d, sizes %d, %s", n, pat, sz, endname[how]);
    fsx_begin();
    int p[2];
    if (pipe(p)) abort();
    wr[0] = p[1]; rd[0] = p[0];
    fcntl(p[1], F_SETPIPE_SZ, 1 << 18);
    if (mkfifo("ff", 0600)) abort();
    rd[1] = open("ff", O_RDONLY | O_NONBLOCK); wr[1] = open("ff", O_WRONLY); fcntl(wr[1], F_SETPIPE_SZ, 1 << 18);
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) abort();
    wr[2] = p[0]; rd[2] = p[1];
    memset(nexp, 0, sizeof nexp);
    for (int j = 0; j < n; j++) {
        ch[j] = pat == 0 ? 0 : pat == 1 ? j % 3 : pat == 2 ? j / 37 % 3 : j % 2 + 1;
        len[j] = sz == 0 ? 1 : sz == 1 ? j % 7 : sz == 2 ? 40 + j % 90 : j % 30 == 29 ? big[j / 30 % 4] : 3;
        memcpy(exp[ch[j]] + nexp[ch[j]], src + j % 89, (size_t)len[j]);
        nexp[ch[j]] += (size_t)len[j];
    }
    tries = rec = 0; irr = false;
    picotm_begin
        tries++;
        for (i = 0; i < n; i++) {
            if (i == n / 2) {
                for (int c = 0; c < NCH; c++) { fcntl(rd[c], F_SETFL, O_NONBLOCK); mc_check(read(rd[c], got, 1) <= 0, "early output", "output arrives before the commit"); }
                if (how == E_RESTART && tries == 1) picotm_restart();
                if (how == E_MID && !irr) { irr = true; picotm_irrevocable(); }
            }
            long r = ch[i] == 2 && i & 1 ? send_tx(wr[2], src + i % 89, (size_t)len[i], 0) : write_tx(wr[ch[i]], src + i % 89, (size_t)len[i]);
            mc_check(r == len[i], "result", "write %d of %d bytes returns %ld", (int)i, len[i], r);
            if (picotm_is_irrevocable() && i == n / 2) break; /* what was logged and what is done directly aren't mixed */
        }
        if (how == E_ERROR) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
        if (how == E_CONFLICT && tries == 1) picotm_resolve_conflict(NULL);
    picotm_commit
        rec = 1;
    picotm_end
    mc_check(rec == (how == E_ERROR), "unexpected error", "the transaction %s", rec ? "fails" : "commits after an error");
    if (how == E_MID) { memset(nexp, 0, sizeof nexp); for (int j = 0; j <= n / 2; j++) nexp[ch[j]] += (size_t)len[j]; }
    for (int c = 0; c < NCH; c++) {
        fcntl(rd[c], F_SETFL, O_NONBLOCK);
        size_t m = 0; ssize_t r;
        while (m < sizeof got && (r = read(rd[c], got + m, sizeof got - m)) > 0) m += (size_t)r;
        size_t w = rec ? 0 : nexp[c];
        mc_check(m == w, "amount", "from channel %d arrive %zu bytes, expected %zu", c, m, w);
        for (size_t j = 0; j < m; j++) mc_check(got[j] == exp[c][j], "output", "byte %zu from channel %d is '%c', expected '%c'", j, c, got[j], exp[c][j]);
    }
    picotm_release();
    fsx_end();
    mc_cases(1);
    mc_outcome(how);
}
static const struct mc_scenario sc[] = {
    { "many", sc_many, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 30, 60, "hundreds of writes of different sizes to a pipe, a FIFO and a socket in one transaction" },
    { "seq1", sc_seq1, 2, MC_NOPREEMPT | MC_INPROC, 0, 0, 60, 60, "every operation x channel x how the transaction ends x _tx and _tm, blocking and non-blocking" },
    { "seq2", sc_seq2, 2, MC_NOPREEMPT | MC_INPROC, 0, 0, 150, 400, "all pairs of operations and channels" },
    { "intr", sc_intr, 1, MC_NOPREEMPT, 0, 0, 60, 100, "one and two operations with interrupted calls and short writes" },
    { "oom1", sc_oom1, 1, MC_NOPREEMPT, 0, 0, 60, 100, "every operation with every allocation failing (twice)" },
    { "seq3", sc_seq3, 2, MC_NOPREEMPT | MC_INPROC | MC_THOROUGH_ONLY, 0, 0, 60, 600, "all triples" },
    { "seq4", sc_seq4, 1, MC_NOPREEMPT | MC_INPROC | MC_THOROUGH_ONLY, 0, 0, 60, 400, "four writes to channels and duplicates" },
    { "oom2", sc_oom2, 1, MC_NOPREEMPT | MC_THOROUGH_ONLY, 0, 0, 60, 400, "pairs of operations with every allocation failing" },
};
int main(int argc, char* argv[])
{
    static const char* const as[] = { "the direct calls on channels of the same kinds are the reference", "the far ends stay open and have room for the output", NULL };
    fsx_init();
    int r = mc_main(argc, argv, "P21", sc, sizeof sc / sizeof *sc, as);
    fsx_cleanup();
    return r;
}
