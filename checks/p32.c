/* P32: leaving the process from inside a transaction commits it first */
#include "fsx.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/fcntl.h"
#include "picotm/stdlib.h"
#include "picotm/sys/stat.h"
#include "picotm/unistd.h"
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>

/* what the parent sees of the child */
struct shared {
    int x, y, z;            /* written by transactions */
    int log[16]; int nlog;  /* callbacks and handlers in order */
    int attempts, recovered, after;
    int alloc;
    int irrevocable;        /* of the last commit */
};
static struct shared* S;
enum ev { PREPARE = 1, APPLY, APPLY_EVENT, UNDO, UNDO_EVENT, FINISH, HANDLER };
static void put(int e) { if (S->nlog < 16) S->log[S->nlog++] = e; }

enum kind { STORE, WRITE, PWRITE, PIPE, CREATE, MKDIR, EVENT, ALLOC, CHMOD_, NOPS };
static const char* const oname[] = { "store", "write", "pwrite", "write to a pipe", "open(O_CREAT)", "mkdir", "event", "malloc", "fchmod" };
enum leave { L_EXIT, L__EXIT, L__Exit, L_ABORT, NLEAVE };
static const char* const lname[] = { "exit_tx", "_exit_tx", "_Exit_tx", "abort_tx" };
/* how the transaction gets to the exit */
enum how { H_PLAIN, H_RESTART, H_IRREVOCABLE, H_CONFLICT, H_COMMIT_CONFLICT, H_COMMIT_ERROR, H_ERROR, H_RECOVERED, NHOW };
static const char* const hname[] = { "directly", "after a restart", "irrevocable", "after a conflict", "after a conflict in commit", "error in commit", "error before", "restart from recovery" };

static enum kind prog[3];
static int plen, fd, pfd[2], module;
static enum leave leave_;
static enum how how;
static volatile int prepared;

static void m_prepare(void* d, int irrevocable, struct picotm_error* e)
{
    (void)d;
    put(PREPARE);
    S->irrevocable = irrevocable;
    if (irrevocable) return;
    if (how == H_COMMIT_CONFLICT && !prepared++) picotm_error_set_conflicting(e, NULL);
    else if (how == H_COMMIT_ERROR) picotm_error_set_errno(e, EDOM);
}
static void m_apply(void* d, struct picotm_error* e) { (void)d; (void)e; put(APPLY); }
static void m_undo(void* d, struct picotm_error* e) { (void)d; (void)e; put(UNDO); }
static void m_apply_event(uint16_t h, uintptr_t t, void* d, struct picotm_error* e) { (void)h; (void)t; (void)d; (void)e; put(APPLY_EVENT); }
static void m_undo_event(uint16_t h, uintptr_t t, void* d, struct picotm_error* e) { (void)h; (void)t; (void)d; (void)e; put(UNDO_EVENT); }
static void m_finish(void* d, struct picotm_error* e) { (void)d; (void)e; put(FINISH); }
static const struct picotm_module_ops mops = { .prepare_commit = m_prepare, .apply = m_apply, .undo = m_undo, .apply_event = m_apply_event, .undo_event = m_undo_event, .finish = m_finish };

static void at_exit(void)
{
    /* runs after the commit; transactions work */
    put(HANDLER);
    volatile int seen = -1;
    picotm_begin
        seen = load_int_tx(&S->x);
        store_int_tx(&S->y, 100 + load_int_tx(&S->x));
    picotm_commit
        S->y = -1;
    picotm_end
    (void)seen;
}

/* a transaction can be left from a called function */
static void __attribute__((noinline)) leave_now(void)
{
    switch (leave_) {
    case L_EXIT: exit_tx(21);
    case L__EXIT: _exit_tx(22);
    case L__Exit: _Exit_tx(23);
    default: abort_tx();
    }
}
static void child(void)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    signal(SIGABRT, SIG_DFL);
    /* the handler is registered after the library's own */
    picotm_begin
        store_int_tx(&S->z, 5);
    picotm_commit
    picotm_end
    if (leave_ == L_EXIT) atexit(at_exit);
    module = (int)picotm_register_module(&mops, NULL, &e);
    if (picotm_error_is_set(&e)) _exit(90);
    static volatile int again; again = 0;
    picotm_begin
        S->attempts++;
        if (how == H_IRREVOCABLE) picotm_irrevocable();
        for (int i = 0; i < plen; i++) {
            switch (prog[i]) {
            case STORE: store_int_tx(&S->x, 10 * load_int_tx(&S->x) + i + 1); break;
            case WRITE: write_tx(fd, "abc" + i, 1); break;
            case PWRITE: pwrite_tx(fd, "ABC" + i, 1, 2); break;
            case PIPE: write_tx(pfd[1], "xyz" + i, 1); break;
            case CREATE: { int n = open_tx(i ? "n1" : "n0", O_RDWR | O_CREAT | O_EXCL, 0600); write_tx(n, "new", 3); break; }
            case MKDIR: mkdir_tx(i == 0 ? "d0" : i == 1 ? "d1" : "d2", 0755); break;
            case EVENT: { struct picotm_error me = PICOTM_ERROR_INITIALIZER; picotm_append_event((unsigned long)module, 0, 0, &me); break; }
            case ALLOC: { int* p = malloc_tx(40); store_int_tx(p, 3); store_int_tx(&S->alloc, load_int_tx(p) + i); free_tx(p); break; }
            case CHMOD_: fchmod_tx(fd, 0600 + (mode_t)i); break;
            default: break;
            }
        }
        if (how == H_RESTART && S->attempts == 1) picotm_restart();
        if (how == H_CONFLICT && S->attempts == 1) {
            struct picotm_error ce = PICOTM_ERROR_INITIALIZER;
            picotm_error_set_conflicting(&ce, NULL);
            picotm_recover_from_error(&ce);
        }
        if (how == H_ERROR || (how == H_RECOVERED && !again)) picotm_recover_from_errno(EDOM);
        leave_now();
        S->after++;
    picotm_commit
        S->recovered++;
        if (picotm_error_is_non_recoverable()) _exit(91);
        if (picotm_error_status() != PICOTM_ERRNO || picotm_error_as_errno() != EDOM) _exit(92);
        if (how == H_RECOVERED && !again) { again = 1; picotm_restart(); }
    picotm_end
    _exit(60);
}

static void sc_leave(int v)
{
    how = (enum how)(v % NHOW);
    plen = v / NHOW;
    for (int i = 0; i < plen; i++) prog[i] = (enum kind)mc_choose(NOPS);
    for (int i = 0; i < plen; i++) for (int j = 0; j < i; j++) if (prog[i] == CREATE && prog[j] == CREATE && i > 1) return;
    leave_ = (enum leave)mc_choose(NLEAVE);
    bool committed = how != H_COMMIT_ERROR && how != H_ERROR;
    bool early = false;   /* these make the transaction irrevocable: nothing may roll it back */
    for (int i = 0; i < plen; i++) early |= prog[i] == MKDIR || prog[i] == PIPE;
    if (early && how == H_COMMIT_ERROR) return;
    if (early && (how == H_ERROR || how == H_RESTART || how == H_CONFLICT || how == H_RECOVERED || how == H_COMMIT_CONFLICT)) return;
    static char text[200];
    int n = 0;
    for (int i = 0; i < plen; i++) n += snprintf(text + n, sizeof text - (size_t)n, "%s, ", oname[prog[i]]);
    mc_ctx("%s%s %s", text, lname[leave_], hname[how]);
    mc_note("%s%s %s", text, lname[leave_], hname[how]);
    fsx_begin();
    if (!S) S = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) abort();
    memset(S, 0, sizeof *S);
    prepared = 0;
    fsx_put("f", "hello", 5);
    fd = open("f", O_RDWR);
    if (fd < 0 || pipe2(pfd, O_NONBLOCK)) abort();
    fflush(NULL);
    pid_t pid = fork();
    if (pid < 0) abort();
    if (!pid) { child(); _exit(93); }
    int st;
    bool hung = false;
    for (int t = 0;; t++) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (t > 20000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
        if (t > 20) usleep(1000); else usleep(200);
    }
    mc_check(!hung, "hangs", "the process does not terminate");
    if (S->irrevocable && how == H_COMMIT_ERROR) committed = true;
    if (committed && leave_ == L_ABORT) mc_check(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "status", "abort_tx: the process ends with status %x", st);
    else {
        static const int code[] = { 21, 22, 23 };
        int c = committed ? code[leave_] : 60;
        mc_check(WIFEXITED(st), "status", "the process ends with status %x, expected exit code %d", st, c);
        mc_check(WEXITSTATUS(st) == c, "status", "the process ends with code %d, expected %d", WEXITSTATUS(st), c);
    }
    mc_check(!S->after, "returns", "%s returned", lname[leave_]);
    mc_check(S->recovered == (committed ? how == H_RECOVERED : 1), "recovery", "recovery ran %d times", S->recovered);
    /* the effects */
    int x = 0, al = 0, off = 0, mode = 0644, nev = 0, np = 0;
    char f[16] = "hello", pp[8] = "";
    bool n0 = false, n1 = false, d[3] = { false };
    if (committed) for (int i = 0; i < plen; i++) switch (prog[i]) {
    case STORE: x = 10 * x + i + 1; break;
    case WRITE: f[off++] = "abc"[i]; break;
    case PWRITE: f[2] = "ABC"[i]; break;
    case PIPE: pp[np++] = "xyz"[i]; break;
    case CREATE: if (i) n1 = true; else n0 = true; break;
    case MKDIR: d[i] = true; break;
    case EVENT: nev++; break;
    case ALLOC: al = 3 + i; break;
    case CHMOD_: mode = 0600 + i; break;
    default: break;
    }
    mc_check(S->z == 5, "harness", "first transaction");
    mc_check(S->x == x, "memory", "x is %d, expected %d", S->x, x);
    mc_check(S->alloc == al, "memory", "value from allocated memory is %d, expected %d", S->alloc, al);
    char b[64];
    ssize_t r = pread(fd, b, sizeof b, 0);
    mc_check(r == (ssize_t)strlen(f) && !memcmp(b, f, (size_t)r), "file", "the file contains '%.*s', expected '%s'", (int)r, b, f);
    struct stat sb;
    if (fstat(fd, &sb)) abort();
    mc_check((int)(sb.st_mode & 07777) == mode, "mode", "mode %o, expected %o", sb.st_mode & 07777, mode);
    mc_check(lseek(fd, 0, SEEK_CUR) == off, "offset", "offset %ld, expected %d", (long)lseek(fd, 0, SEEK_CUR), off);
    r = read(pfd[0], b, sizeof b);
    if (r < 0) r = 0;
    mc_check(r == np && !memcmp(b, pp, (size_t)np), "pipe", "the pipe contains '%.*s', expected '%s'", (int)r, b, pp);
    for (int i = 0; i < 2; i++) {
        int q = open(i ? "n1" : "n0", O_RDONLY);
        bool e = i ? n1 : n0;
        mc_check((q >= 0) == e, "created file", "file n%d %s", i, q >= 0 ? "exists" : "is missing");
        if (q >= 0) { r = read(q, b, sizeof b); mc_check(r == 3 && !memcmp(b, "new", 3), "created file", "the new file contains %d bytes", (int)r); }
    }
    for (int i = 0; i < 3; i++) mc_check(!access(i == 0 ? "d0" : i == 1 ? "d1" : "d2", F_OK) == d[i], "directory", "directory %d", i);
    /* the callbacks of the final attempt come in order, before the handler */
    int at = S->nlog, k;
    for (k = S->nlog - 1; k >= 0 && S->log[k] != PREPARE; k--) {}
    if (committed) {
        static char lg[64];
        for (int i = 0; i < S->nlog && i < 20; i++) snprintf(lg + 3 * i, 4, "%2d ", S->log[i]);
        int want[16], nw = 0;
        want[nw++] = PREPARE; want[nw++] = APPLY;
        for (int i = 0; i < nev; i++) want[nw++] = APPLY_EVENT;
        want[nw++] = FINISH;
        /* the order of apply and events is P01's matter */
        int last = -1, cnt[8] = { 0 }, wc[8] = { 0 };
        int end = at;
        for (int i = k < 0 ? 0 : k; i < at; i++) { if (S->log[i] == HANDLER && end == at) end = i; }
        for (int i = k < 0 ? 0 : k; i < end; i++) { cnt[S->log[i]]++; last = S->log[i]; }
        for (int i = 0; i < nw; i++) wc[want[i]]++;
        for (int i = 1; i < HANDLER; i++) mc_check(cnt[i] == wc[i] || (how == H_IRREVOCABLE && k < 0) || (leave_ == L_EXIT && end == at), "callbacks", "callback %d ran %d times in the last attempt before the process ended, expected %d (log %s)", i, cnt[i], wc[i], lg);
        mc_check(last == FINISH || (leave_ == L_EXIT && end == at), "callbacks", "the last callback is %d (log %s)", last, lg);
        int h = 0;
        for (int i = 0; i < at; i++) h += S->log[i] == HANDLER;
        /* the handler's own transaction calls the module again; its PREPARE is the last */
        mc_check(h == (leave_ == L_EXIT), "handler", "the exit handler ran %d times", h);
        if (leave_ == L_EXIT) {
            mc_check(S->y == 100 + x, "handler", "the exit handler's transaction stored %d, expected %d", S->y, 100 + x);
            int hp = 0; while (S->log[hp] != HANDLER) hp++;
            int c2[8] = { 0 }, b2;
            for (b2 = hp - 1; b2 >= 0 && S->log[b2] != PREPARE; b2--) {}
            for (int i = b2 < 0 ? 0 : b2; i < hp; i++) c2[S->log[i]]++;
            for (int i = 1; i < HANDLER; i++) mc_check(c2[i] == wc[i], "callbacks", "callback %d ran %d times before the exit handler, expected %d (log %s)", i, c2[i], wc[i], lg);
        }
    } else
        for (int i = 0; i < at; i++) mc_check(S->log[i] != APPLY && S->log[i] != APPLY_EVENT && S->log[i] != HANDLER, "callbacks", "callback %d in a transaction that fails", S->log[i]);
    fsx_end();
    mc_cases(1);
    mc_outcome(st);
}

static const struct mc_scenario sc[] = {
    { "leave2", sc_leave, 3 * NHOW, MC_NOPREEMPT, 0, 0, 60, 60, "up to two operations x exit, _exit, _Exit, abort x how the transaction gets there" },
    { "leave3", sc_leave, 4 * NHOW, MC_NOPREEMPT | MC_THOROUGH_ONLY, 0, 0, 60, 400, "up to three operations" },
};
int main(int argc, char* argv[])
{
    static const char* const as[] = { "one thread", "what the process did is observed by its parent, through shared memory, files and a pipe", NULL };
    fsx_init();
    int r = mc_main(argc, argv, "P32", sc, sizeof sc / sizeof *sc, as);
    fsx_cleanup();
    return r;
}
