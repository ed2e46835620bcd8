/* P29: failing allocations anywhere in a transaction over all modules: it
 * commits with all its effects, or recovers with none. The same transaction
 * runs again on another thread without failures. */
#include "fsx.h"
#include "picotm/picotm.h"
#include "picotm/picotm-error.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/picotm-libc.h"
#include "picotm/picotm-txlib.h"
#include "picotm/picotm-txlist.h"
#include "picotm/picotm-txlist-state.h"
#include "picotm/picotm-txmultiset.h"
#include "picotm/picotm-txmultiset-state.h"
#include "picotm/picotm-txqueue.h"
#include "picotm/picotm-txqueue-state.h"
#include "picotm/picotm-txstack.h"
#include "picotm/picotm-txstack-state.h"
#include "picotm/errno.h"
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/locale.h"
#include "picotm/locale-tm.h"
#include "picotm/math.h"
#include "picotm/stdio.h"
#include "picotm/stdio-tm.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include "picotm/string.h"
#include "picotm/string-tm.h"
#include "picotm/sys/socket.h"
#include "picotm/sys/stat.h"
#include "picotm/sys/stat-tm.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include <langinfo.h>
#include <locale.h>
#include <math.h>
#include <pthread.h>
#include <sys/socket.h>

enum { F = 40, G = 41, PR = 42, PW = 43, SP0 = 44, SP1 = 45, NE = 4, BIG = 600 };
struct lent { struct txlist_entry e; int key; };
struct ment { struct txmultiset_entry e; int key; };
struct qent { struct txqueue_entry e; int key; };
struct sent { struct txstack_entry e; int key; };
static struct lent le[NE]; static struct ment me[NE]; static struct qent qe[NE]; static struct sent se[NE];
static struct txlist_state ls; static struct txmultiset_state ms; static struct txqueue_state qs; static struct txstack_state ss;
static const void* key_of(struct txmultiset_entry* e) { return &((struct ment*)e)->key; }
static int cmp(const void* a, const void* b) { return *(const int*)a - *(const int*)b; }

/* observable memory */
static unsigned long cell[4];
static unsigned char big[BIG], big2[BIG], rbuf[64], rbuf2[64];
static void* heap[4];
static struct stat stb;
static char cwd[256];
static long ret[3][4];
static double dbl;

static void op_store(long* r) { store_ulong_tx(&cell[0], load_ulong_tx(&cell[0]) + 7); r[0] = (long)load_ulong_tx(&cell[1]); }
static void op_many(long* r) { unsigned char b[BIG]; memset(b, 9, sizeof b); store_tx(big, b, sizeof b); loadstore_tx(big + 8, big2, 300); r[0] = 0; }
static void op_priv(long* r) { privatize_tx(big2, 200, PICOTM_TM_PRIVATIZE_LOADSTORE); memset(big2 + 5, 3, 190); r[0] = 0; }
static void op_lpush(long* r) { struct txlist* l = txlist_of_state_tx(&ls); txlist_push_back_tx(l, &le[2].e); txlist_push_front_tx(l, &le[3].e); r[0] = (long)txlist_size_tx(l); }
static void op_lpop(long* r) { struct txlist* l = txlist_of_state_tx(&ls); txlist_pop_front_tx(l); r[0] = (long)txlist_size_tx(l); }
static void op_qpush(long* r) { struct txqueue* l = txqueue_of_state_tx(&qs); txqueue_push_tx(l, &qe[2].e); r[0] = (long)txqueue_size_tx(l); }
static void op_qpop(long* r) { struct txqueue* l = txqueue_of_state_tx(&qs); r[0] = ((struct qent*)txqueue_front_tx(l))->key; txqueue_pop_tx(l); txqueue_push_tx(l, &qe[3].e); }
static void op_spush(long* r) { struct txstack* l = txstack_of_state_tx(&ss); txstack_push_tx(l, &se[2].e); r[0] = (long)txstack_size_tx(l); }
static void op_spop(long* r) { struct txstack* l = txstack_of_state_tx(&ss); r[0] = ((struct sent*)txstack_top_tx(l))->key; txstack_pop_tx(l); txstack_push_tx(l, &se[3].e); }
static void op_mins(long* r) { struct txmultiset* l = txmultiset_of_state_tx(&ms); txmultiset_insert_tx(l, &me[2].e); txmultiset_insert_tx(l, &me[3].e); r[0] = (long)txmultiset_size_tx(l); }
static void op_mdel(long* r) { struct txmultiset* l = txmultiset_of_state_tx(&ms); struct txmultiset_entry* e = txmultiset_begin_tx(l); r[0] = ((struct ment*)e)->key; txmultiset_erase_tx(l, e); }
static void op_malloc(long* r) { char* p = malloc_tx(40); store_ptr_tx(&heap[0], p); store_ulong_tx((unsigned long*)p, 5); r[0] = 0; }
static void op_free(long* r) { void* p = load_ptr_tx(&heap[3]); free_tx(p); store_ptr_tx(&heap[3], NULL); r[0] = 0; }
static void op_realloc(long* r) { void* p = load_ptr_tx(&heap[2]); p = realloc_tx(p, 300); store_ptr_tx(&heap[2], p); store_ulong_tx((unsigned long*)p + 30, 4); r[0] = (long)load_ulong_tx((unsigned long*)p); }
static void op_calloc(long* r) { unsigned long* p = calloc_tx(3, 16); r[0] = (long)load_ulong_tx(p); store_ptr_tx(&heap[1], p); }
static void op_memalign(long* r) { static void* p; r[0] = posix_memalign_tx(&p, 64, 100); free_tx(p); }
static void op_strdup(long* r) { char* p = strdup_tx((char*)rbuf2); store_ptr_tx(&heap[1], p); r[0] = (long)strlen_tx(p); }
static void op_open(long* r) { int fd = open_tx("f", O_RDWR); r[0] = fd; write_tx(fd, "opened", 6); close_tx(fd); }
static void op_openfail(long* r) { int fd = open_tx("g", O_RDONLY); r[0] = fd; r[1] = read_tx(fd, rbuf, 5); }
static void op_write(long* r) { r[0] = write_tx(F, "hello", 5); r[1] = write_tx(F, "world", 5); r[2] = lseek_tx(F, 0, SEEK_CUR); }
static void op_pwrite(long* r) { r[0] = pwrite_tx(F, "P", 1, 3); r[1] = pwrite_tx(F, "Q", 1, 900); }
static void op_read(long* r) { r[0] = read_tx(F, rbuf, 6); }
static void op_pread(long* r) { r[0] = pread_tx(F, rbuf, 6, 2); }
static void op_lseek(long* r) { r[0] = lseek_tx(F, 4, SEEK_SET); }
static void op_close(long* r) { r[0] = close_tx(G); }
static void op_dup(long* r) { r[0] = dup_tx(F); r[1] = write_tx((int)r[0], "dup", 3); }
static void op_pipe(long* r) { static int p[2]; r[0] = pipe_tx(p); r[1] = p[1] - p[0]; close_tx(p[0]); }
static void op_pwpipe(long* r) { r[0] = write_tx(PW, "pipe", 4); }
static void op_send(long* r) { r[0] = send_tx(SP0, "sock", 4, 0); }
static void op_fcntl(long* r) { r[0] = fcntl_tx(F, F_GETFL) & O_ACCMODE; r[1] = fcntl_tx(F, F_GETFD); }
static void op_fchmod(long* r) { r[0] = fchmod_tx(F, 0604); }
static void op_fstat(long* r) { r[0] = fstat_tx(F, &stb); }
static void op_stat(long* r) { r[0] = stat_tx("g", &stb); }
static void op_fsync(long* r) { r[0] = fsync_tx(F); }
static void op_mkstemp(long* r) { static char t[16]; strcpy_tx(t, "tXXXXXX"); int fd = mkstemp_tx(t); r[0] = fd; close_tx(fd); }
static void op_chdir(long* r) { r[0] = chdir_tx("d"); getcwd_tx(cwd, sizeof cwd); }
static void op_getcwd(long* r) { r[0] = getcwd_tx(cwd, sizeof cwd) == cwd; char* p = getcwd_tx(NULL, 0); r[1] = p != NULL; free_tx(p); }
static void op_setlocale(long* r) { r[0] = setlocale_tx(LC_CTYPE, "C.UTF-8") != NULL; r[1] = strlen_tx(setlocale_tx(LC_NUMERIC, NULL)); }
static void op_newlocale(long* r) { locale_t l = newlocale_tx(LC_ALL_MASK, "C.UTF-8", (locale_t)0), k = duplocale_tx(l); uselocale_tx(k); uselocale_tx(LC_GLOBAL_LOCALE); freelocale_tx(k); freelocale_tx(l); r[0] = 1; }
static void op_errno(long* r) { picotm_libc_save_errno(); errno = ENOTTY; r[0] = 0; }
static void op_sin(long* r) { store_double_tx(&dbl, sqrt_tx(2.0)); r[0] = 0; }
static void op_signal(long* r) { picotm_libc_clear_signals(); r[0] = 0; }
static void op_snprintf(long* r) { r[0] = snprintf_tx((char*)rbuf, sizeof rbuf, "%d-%s", 12, "ab"); }
static void op_socket(long* r) { int s = socket_tx(AF_UNIX, SOCK_STREAM, 0); r[0] = s; close_tx(s); }
/* these need irrevocability */
static void op_chmod(long* r) { r[0] = chmod_tx("g", 0600); }
static void op_link(long* r) { r[0] = link_tx("f", "h"); r[1] = unlink_tx("h"); }
static void op_mkdir(long* r) { r[0] = mkdir_tx("n", 0755); }
static void op_recv(long* r) { r[0] = recv_tx(SP1, rbuf, 3, 0); }
static void op_piperead(long* r) { r[0] = read_tx(PR, rbuf, 3); }
static void op_dup2(long* r) { r[0] = dup2_tx(F, G); }

static const struct { const char* n; void (*f)(long*); int irrev; } ops[] = {
#define O(n_, i_) { #n_, op_##n_, i_ }
    O(store, 0), O(write, 0), O(mins, 0), O(open, 0), O(malloc, 0), O(lpush, 0), O(fchmod, 0), O(setlocale, 0), O(chdir, 0), O(dup, 0), O(pwpipe, 0), O(priv, 0),
    O(many, 0), O(lpop, 0), O(qpush, 0), O(qpop, 0), O(spush, 0), O(spop, 0), O(mdel, 0), O(free, 0), O(realloc, 0), O(calloc, 0), O(memalign, 0), O(strdup, 0), O(openfail, 0), O(pwrite, 0), O(read, 0), O(pread, 0), O(lseek, 0), O(close, 0), O(pipe, 0), O(send, 0), O(fcntl, 0), O(fstat, 0), O(stat, 0), O(fsync, 0), O(mkstemp, 0), O(getcwd, 0), O(newlocale, 0), O(errno, 0), O(sin, 0), O(signal, 0), O(snprintf, 0), O(socket, 0),
    O(chmod, 1), O(link, 1), O(mkdir, 1), O(recv, 1), O(piperead, 1), O(dup2, 1),
};
enum { NOPS = sizeof ops / sizeof *ops };
static int p[3], len;

static void reset(void)
{
    static bool once;
    fsx_begin();
    fsx_put("f", "0123456789abcdef", 16);
    fsx_put("g", "GGGGGGGG", 8);
    mkdir("d", 0755);
    fsx_move(open("f", O_RDWR), F);
    fsx_move(open("g", O_RDWR), G);
    int q[2];
    if (pipe(q)) _exit(3);
    fsx_move(q[1], 60); fsx_move(q[0], PR); fsx_move(60, PW);
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, q)) _exit(3);
    fsx_move(q[1], 60); fsx_move(q[0], SP0); fsx_move(60, SP1);
    if (write(PW, "PIPE", 4) != 4 || write(SP0, "SOCK", 4) != 4) _exit(3);
    for (int i = 0; i < 4; i++) { cell[i] = (unsigned long)i + 1; free(heap[i]); heap[i] = NULL; }
    heap[2] = calloc(1, 64); heap[3] = calloc(1, 32);
    *(long*)heap[2] = 11;
    memset(big, 1, sizeof big); memset(big2, 2, sizeof big2); memset(rbuf, 'r', sizeof rbuf); memset(&stb, 0, sizeof stb);
    strcpy((char*)rbuf2, "string"); strcpy(cwd, "none");
    memset(ret, 0, sizeof ret);
    dbl = 0; errno = 0;
    setlocale(LC_ALL, "C"); uselocale(LC_GLOBAL_LOCALE);
    if (!once) {
        once = true;
        txlist_state_init(&ls); txmultiset_state_init(&ms, key_of, cmp); txqueue_state_init(&qs); txstack_state_init(&ss);
    }
}
/* the containers are filled in transactions */
static void fill(void)
{
    picotm_begin
        struct txlist* l = txlist_of_state_tx(&ls); struct txmultiset* m = txmultiset_of_state_tx(&ms); struct txqueue* q = txqueue_of_state_tx(&qs); struct txstack* s = txstack_of_state_tx(&ss);
        txlist_clear_tx(l); txmultiset_clear_tx(m);
        while (!txqueue_empty_tx(q)) txqueue_pop_tx(q);
        while (!txstack_empty_tx(s)) txstack_pop_tx(s);
    picotm_commit
    picotm_end
    for (int i = 0; i < NE; i++) {
        txlist_entry_init(&le[i].e); txmultiset_entry_init(&me[i].e); txqueue_entry_init(&qe[i].e); txstack_entry_init(&se[i].e);
        static const int k[NE] = { 5, 1, 3, 9 };
        le[i].key = me[i].key = qe[i].key = se[i].key = k[i];
    }
    picotm_begin
        struct txlist* l = txlist_of_state_tx(&ls); struct txmultiset* m = txmultiset_of_state_tx(&ms); struct txqueue* q = txqueue_of_state_tx(&qs); struct txstack* s = txstack_of_state_tx(&ss);
        for (int i = 0; i < 2; i++) { txlist_push_back_tx(l, &le[i].e); txmultiset_insert_tx(m, &me[i].e); txqueue_push_tx(q, &qe[i].e); txstack_push_tx(s, &se[i].e); }
    picotm_commit
    picotm_end
}
static void put(char* s, size_t n, size_t* k, const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    *k += (size_t)vsnprintf(s + *k, n - *k, f, ap);
    va_end(ap);
}
static unsigned hash(const void* p_, size_t n) { unsigned h = 7; for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char*)p_)[i]; return h; }
#define P(...) put(s, n, &k, __VA_ARGS__)
static void describe(char* s, size_t n)
{
    size_t k = 0;
    int e = errno;
    char b[1200];
    P("cells %lu %lu; big %x %x; rbuf %.6s; ", cell[0], cell[1], hash(big, BIG), hash(big2, BIG), rbuf);
    for (int i = 0; i < 4; i++) P("heap%d %d %lx; ", i, heap[i] != NULL, heap[i] ? *(unsigned long*)heap[i] : 0);
    P("stat %ld %o; dbl %d; ", (long)stb.st_size, stb.st_mode, (int)(dbl * 1000));
    for (int i = 0; i < 3; i++) P("ret %ld %ld %ld; ", ret[i][0], ret[i][1], ret[i][2]);
    char here[256];
    if (!getcwd(here, sizeof here)) strcpy(here, "?");
    P("cwd %s %s; ", !strcmp(cwd, "none") ? "none" : strrchr(cwd, '/'), strrchr(here, '/'));
    if (fchdir(fsx_dirfd)) _exit(3);
    static const char* const fs[] = { "f", "g", "h", "n", "d" };
    for (int i = 0; i < 5; i++) {
        struct stat st;
        if (lstat(fs[i], &st)) { P("%s none; ", fs[i]); continue; }
        P("%s %o %ld %d", fs[i], st.st_mode, S_ISREG(st.st_mode) ? (long)st.st_size : 0, S_ISREG(st.st_mode) ? (int)st.st_nlink : 0);
        int fd = S_ISREG(st.st_mode) ? open(fs[i], O_RDONLY | O_CLOEXEC) : -1;
        if (fd >= 0) { ssize_t l = read(fd, b, sizeof b); P(" %x", hash(b, l > 0 ? (size_t)l : 0)); close(fd); }
        P("; ");
    }
    if (chdir(here)) _exit(3);
    P("offsets %ld %ld; fds", (long)lseek(F, 0, SEEK_CUR), (long)lseek(G, 0, SEEK_CUR));
    for (int i = 0; i < FSX_NFD; i++) if (!fsx_fd0[i] && fcntl(i, F_GETFD) >= 0) P(" %d", i);
    ssize_t l = 0;
    fcntl(PR, F_SETFL, O_NONBLOCK); l = read(PR, b, sizeof b); P("; pipe %.*s", l > 0 ? (int)l : 0, b);
    fcntl(SP1, F_SETFL, O_NONBLOCK); l = recv(SP1, b, sizeof b, 0); P("; socket %.*s", l > 0 ? (int)l : 0, b);
    P("; locale %s %d; ", setlocale(LC_ALL, NULL), uselocale((locale_t)0) == LC_GLOBAL_LOCALE);
    static volatile int ls_[8], ms_[8], qs_[8], ss_[8];
    static volatile int nl, nm, nq, ns;
    picotm_begin
        nl = nm = nq = ns = 0;
        struct txlist* l = txlist_of_state_tx(&ls); struct txmultiset* m = txmultiset_of_state_tx(&ms); struct txqueue* q = txqueue_of_state_tx(&qs); struct txstack* st = txstack_of_state_tx(&ss);
        for (struct txlist_entry* i = txlist_begin_tx(l); i != txlist_end_tx(l) && nl < 8; i = txlist_entry_next_tx(i)) ls_[nl++] = ((struct lent*)i)->key;
        for (struct txmultiset_entry* i = txmultiset_begin_tx(m); i != txmultiset_end_tx(m) && nm < 8; i = txmultiset_entry_next_tx(i)) ms_[nm++] = ((struct ment*)i)->key;
        while (!txqueue_empty_tx(q) && nq < 8) { qs_[nq++] = ((struct qent*)txqueue_front_tx(q))->key; txqueue_pop_tx(q); }
        while (!txstack_empty_tx(st) && ns < 8) { ss_[ns++] = ((struct sent*)txstack_top_tx(st))->key; txstack_pop_tx(st); }
        picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
    picotm_end
    P("list"); for (int i = 0; i < nl; i++) P(" %d", ls_[i]);
    P("; set"); for (int i = 0; i < nm; i++) P(" %d", ms_[i]);
    P("; queue"); for (int i = 0; i < nq; i++) P(" %d", qs_[i]);
    P("; stack"); for (int i = 0; i < ns; i++) P(" %d", ss_[i]);
    errno = e;
}
static volatile int rec, status, tries;
static volatile long code;
static void tx(void)
{
    rec = status = tries = 0; code = 0;
    picotm_begin
        tries++;
        for (int i = 0; i < len; i++) {
            long r[4] = { 0 };
            ops[p[i]].f(r);
            store_tx(ret[i], r, sizeof r);
        }
    picotm_commit
        rec = 1;
        status = picotm_error_status();
        code = status == PICOTM_ERRNO ? picotm_error_as_errno() : status == PICOTM_ERROR_CODE ? picotm_error_as_error_code() : 0;
        if (picotm_error_is_non_recoverable()) mc_fail("error", "the error is not recoverable (status %d, code %ld)", status, code);
    picotm_end
}
static char s0[4000], s1[4000], s2[4000];
static int done;
static void* again(void* a)
{
    (void)a;
    tx();
    describe(s2, sizeof s2);
    picotm_release();
    done = 1;
    return NULL;
}
static const char* differ(const char* a, const char* b)
{
    static char r[300];
    int i = 0;
    while (a[i] && a[i] == b[i]) i++;
    while (i > 0 && a[i - 1] != ';') i--;
    snprintf(r, sizeof r, "'%.90s' instead of '%.90s'", a + i, b + i);
    return r;
}
static void run(int warm)
{
    bool irrev = false;
    for (int i = 0; i < len; i++) irrev |= ops[p[i]].irrev;
    mc_ctx("%s%s%s%s%s, %s", ops[p[0]].n, len > 1 ? ", " : "", len > 1 ? ops[p[1]].n : "", len > 2 ? ", " : "", len > 2 ? ops[p[2]].n : "", warm ? "after other transactions" : "first transaction");
    mc_note("%s %s", ops[p[0]].n, len > 1 ? ops[p[1]].n : "");
    alarm(20);
    /* the state before, and the state of the transaction without failures */
    reset(); fill(); describe(s0, sizeof s0);
    picotm_release();
    pthread_t t;
    if (len > 1) {
        /* pairs that fail by themselves are left out */
        reset(); fill();
        picotm_release();
        done = 0;
        if (pthread_create(&t, NULL, again, NULL) || pthread_join(t, NULL) || !done) mc_fail("harness", "thread");
        if (rec) mc_prune();
    }
    reset(); fill();
    if (warm) {
        tx();
        reset(); fill();
    } else {
        picotm_release();
        reset();
    }
    mc_fault_budget = len < 2 || (mc_tier_thorough && len < 3) ? 2 : 1;
    mc_alloc_fault = 1;
    tx();
    mc_alloc_fault = 0;
    int r1 = rec, st1 = status; long c1 = code;
    describe(s1, sizeof s1);
    if (r1) mc_check((st1 == PICOTM_ERRNO && (c1 == ENOMEM || c1 == ENOBUFS)) || (st1 == PICOTM_ERROR_CODE && c1 == PICOTM_OUT_OF_MEMORY), "error", "the recovery code finds status %d, code %ld", st1, c1);
    /* the same on another thread */
    reset(); fill();
    picotm_release();
    done = 0;
    if (pthread_create(&t, NULL, again, NULL) || pthread_join(t, NULL)) mc_fail("harness", "thread");
    mc_check(done && !rec, "afterwards", "the transaction fails without failing allocations (status %d, code %ld)", status, code);
    if (r1) { if (!irrev) mc_check(!strcmp(s1, s0), "effects", "the transaction recovered with effects: %s", differ(s1, s0)); }
    else mc_check(!strcmp(s1, s2), "effects", "the transaction committed, but there is %s", differ(s1, s2));
    fsx_end();
    mc_cases(1);
    mc_outcome(hash(s1, strlen(s1)) + (unsigned)r1);
}
static void sc_one(int v) { len = 1; p[0] = v; p[1] = 0; run(mc_choose(2)); }
static void sc_two(int v) { len = 2; p[0] = v; p[1] = mc_choose(NOPS); if (p[0] == p[1]) mc_prune(); run(mc_tier_thorough ? mc_choose(2) : 1); }
static void sc_three(int v)
{
    len = 3; p[0] = v; p[1] = mc_choose(12); p[2] = mc_choose(12);
    if (p[0] == p[1] || p[1] == p[2] || p[0] == p[2]) mc_prune();
    run(1);
}
static const struct mc_scenario sc[] = {
    { "one", sc_one, NOPS, MC_NOPREEMPT, 0, 0, 60, 300, "each operation of the modules with failing allocations, as first transaction and after others" },
    { "three", sc_three, NOPS, MC_NOPREEMPT | MC_THOROUGH_ONLY, 0, 0, 1, 400, "triples of operations with a failing allocation" },
    { "two", sc_two, NOPS, MC_NOPREEMPT, 0, 0, 120, 800, "pairs of operations with a failing allocation" },
};
int main(int argc, char* argv[])
{
    static const char* const as[] = { "allocations within the C library succeed", "effects of irrevocable transactions that fail are not compared", NULL };
    fsx_init();
    int r = mc_main(argc, argv, "P29", sc, sizeof sc / sizeof *sc, as);
    fsx_cleanup();
    return r;
}
