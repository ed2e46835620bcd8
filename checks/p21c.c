/* P21: the output of concurrent transactions to pipes and sockets arrives as a
 * whole, in a serial order, once; reading transactions take consistent input. */
#include "fsx.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/fcntl.h"
#include "picotm/sys/socket.h"
#include "picotm/picotm-tm.h"
#include "picotm/unistd.h"
#include <sys/socket.h>

enum { NT = 3, NOP = 2, FD0 = 40, FAR = 50, IN = 46 };
enum kind { NONE, WRITE, DUPW, SEND, SENDX, READ, WRITE2, NKIND };
static const char* const kname[] = { "-", "write", "dup and write", "send", "send(MSG_NOSIGNAL)", "read", "write of 3 bytes" };
struct op { enum kind k; int a; };
enum { PIPE, SOCK, DGRAM, NCH };
static const char* const cname[] = { "pipe", "socket", "datagram socket" };
enum { OUT_COMMIT, OUT_ERROR, OUT_RESTART };
static const char* const oname[] = { "commit", "error", "restart once, then commit" };
static struct { struct op op[NOP]; int out; } prog[NT];
static int status[NT];
static char res[NT][NOP];
struct st { char txt[NCH][40]; int in; };
static struct st final;
static const char input[] = "0123456789";

static char out[NT][NOP][8] __attribute__((aligned(8)));
static char run_op(int t, int i)
{
    static char buf[NT][8] __attribute__((aligned(8)));
    const struct op* o = prog[t].op + i;
    int fd = FD0 + o->a;
    char* c = out[t][i];
    switch (o->k) {
    case WRITE: mc_check(write_tx(fd, c, 1) == 1, "result", "write() returns less"); return 0;
    case WRITE2: mc_check(write_tx(fd, c, 3) == 3, "result", "write() returns less"); return 0;
    case DUPW: { int n = dup_tx(fd); mc_check(write_tx(n, c, 1) == 1, "result", "write() returns less"); close_tx(n); return 0; }
    case SEND: mc_check(send_tx(fd, c, 1, 0) == 1, "result", "send() returns less"); return 0;
    case SENDX: mc_check(send_tx(fd, c, 1, MSG_NOSIGNAL) == 1, "result", "send() returns less"); return 0;
    case READ: mc_check(read_tx(IN, buf[t], 1) == 1, "result", "read() returns less"); { char r; load_tx(buf[t], &r, 1); return r; }
    default: return 0;
    }
}
static void thread_fn(int t)
{
    volatile int tries = 0;
    status[t] = -1;
    picotm_begin
        if (picotm_number_of_restarts()) mc_yield();
        tries = tries + 1;
        for (int i = 0; i < NOP; i++) res[t][i] = run_op(t, i);
        if (prog[t].out == OUT_ERROR && !picotm_is_irrevocable()) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
        if (prog[t].out == OUT_RESTART && tries == 1 && !picotm_is_irrevocable()) picotm_restart();
    picotm_commit
        status[t] = 1000;
        mc_check(prog[t].out == OUT_ERROR, "unexpected error", "T%d: error status %d, errno %d", t, picotm_error_status(), picotm_error_as_errno());
    picotm_end
    picotm_release();
}
static bool explain(int n, int done, struct st s)
{
    bool any = false;
    for (int t = 0; t < n; t++) {
        if (done >> t & 1) continue;
        any = true;
        struct st c = s; bool ok = true;
        if (status[t] < 0) for (int i = 0; i < NOP; i++) {
            const struct op* o = prog[t].op + i;
            char x[4] = { 0 };
            if (o->k == READ) ok = ok && res[t][i] == input[c.in++];
            else if (o->k != NONE) {
                memset(x, 'a' + t, o->k == WRITE2 ? 3 : 1);
                if (o->a == DGRAM) sprintf(c.txt[o->a] + strlen(c.txt[o->a]), "[%s]", x);
                else strcat(c.txt[o->a], x);
            }
        }
        if (ok && explain(n, done | 1 << t, c)) return true;
    }
    return !any && !memcmp(&s, &final, sizeof s);
}
static void run(int n)
{
    static char s[400];
    int k = 0, p[2];
    for (int t = 0; t < n; t++) {
        k += snprintf(s + k, sizeof s - (size_t)k, "T%d:", t);
        for (int i = 0; i < NOP; i++) k += snprintf(s + k, sizeof s - (size_t)k, prog[t].op[i].k != NONE && prog[t].op[i].k != READ ? " %s(%s)" : " %s", kname[prog[t].op[i].k], cname[prog[t].op[i].a]);
        k += snprintf(s + k, sizeof s - (size_t)k, ", %s; ", oname[prog[t].out]);
    }
    mc_ctx("%s", s); mc_note("%s", s);
    fsx_begin();
    if (pipe(p)) _exit(3);
    fsx_move(p[1], FD0 + PIPE); fsx_move(p[0], FAR + PIPE);
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) _exit(3);
    fsx_move(p[1], FD0 + SOCK); fsx_move(p[0], FAR + SOCK);
    if (socketpair(AF_UNIX, SOCK_DGRAM, 0, p)) _exit(3);
    fsx_move(p[1], FD0 + DGRAM); fsx_move(p[0], FAR + DGRAM);
    if (pipe(p)) _exit(3);
    fsx_move(p[1], FAR + 6); fsx_move(p[0], IN);
    if (write(FAR + 6, input, 10) != 10) _exit(3);
    picotm_begin
        for (int i = 0; i < NCH; i++) write_tx(FD0 + i, "z", 1);
    picotm_commit
    picotm_end
    for (int i = 0; i < NCH; i++) { char c; if (read(FAR + i, &c, 1) != 1) _exit(3); fcntl(FAR + i, F_SETFL, O_NONBLOCK); }
    for (int t = 0; t < n; t++) memset(out[t], 'a' + t, sizeof out[t]);
    mc_run_threads(n, thread_fn);
    memset(&final, 0, sizeof final);
    for (int i = 0; i < NCH; i++) {
        char c[40]; ssize_t m;
        while ((m = read(FAR + i, c, sizeof c - 1)) > 0) {
            c[m] = 0;
            if (strlen(final.txt[i]) + (size_t)m > 30) mc_fail("output", "%s: more output than has been written", cname[i]);
            sprintf(final.txt[i] + strlen(final.txt[i]), i == DGRAM ? "[%s]" : "%s", c);
        }
    }
    fcntl(IN, F_SETFL, O_NONBLOCK);
    char c[20]; ssize_t m = read(IN, c, sizeof c);
    final.in = 10 - (int)(m < 0 ? 0 : m);
    char r[300]; k = 0;
    for (int t = 0; t < n; t++) k += snprintf(r + k, sizeof r - (size_t)k, "T%d status %d, read '%.1s' '%.1s'; ", t, status[t], res[t], res[t] + 1);
    for (int i = 0; i < NCH; i++) k += snprintf(r + k, sizeof r - (size_t)k, "%s '%s'; ", cname[i], final.txt[i]);
    struct st s0;
    memset(&s0, 0, sizeof s0);
    mc_check(explain(n, 0, s0), "not serializable", "%s%d bytes are consumed", r, final.in);
    volatile int tries = 0;
    picotm_begin
        mc_check(++tries < 4, "leaked lock", "a later transaction restarts although no other transaction runs");
        for (int i = 0; i < NCH; i++) write_tx(FD0 + i, "z", 1);
    picotm_commit
        mc_fail("later transaction", "a later transaction fails with error %d, errno %d", picotm_error_status(), picotm_error_as_errno());
    picotm_end
    picotm_release();
    unsigned h = 0;
    for (int i = 0; i < NCH; i++) for (const char* q = final.txt[i]; *q; q++) h = h * 5 + (unsigned)*q;
    for (int t = 0; t < n; t++) for (int i = 0; i < NOP; i++) h = h * 5 + (unsigned)res[t][i];
    fsx_end();
    mc_outcome((long)h);
    mc_cases(1);
}
static const struct op tab[] = { { WRITE, PIPE }, { WRITE, SOCK }, { READ, 0 }, { WRITE2, DGRAM }, { DUPW, PIPE }, { SEND, SOCK }, { SENDX, SOCK }, { WRITE2, PIPE } };
#define N ((int)(sizeof tab / sizeof *tab))
static int ch(int q, int n) { return mc_choose(mc_tier_thorough ? n : q); }
static struct op second(int q, int n) { struct op o = { NONE, 0 }; int c = ch(q, n); if (c) o = tab[c - 1]; return o; }
static void sc_two(int v)
{
    memset(prog, 0, sizeof prog);
    prog[0].op[0] = tab[v]; prog[0].op[1] = second(2, 6);
    prog[1].op[0] = tab[ch(3, N)]; prog[1].op[1] = second(2, 4);
    prog[0].out = ch(2, 3);
    run(2);
}
static void sc_three(int v)
{
    memset(prog, 0, sizeof prog);
    prog[0].op[0] = tab[v]; prog[0].op[1] = second(2, 2);
    prog[1].op[0] = tab[ch(2, 4)]; prog[1].op[1] = second(1, 2);
    prog[2].op[0] = tab[ch(2, 3)];
    run(3);
}
static const struct mc_scenario sc[] = {
    { "two", sc_two, N, 0, 1, 1, 60, 500, "two transactions that write to and read from pipes and sockets" },
    { "three", sc_three, 4, 0, 0, 1, 30, 350, "three transactions" },
};
int main(int argc, char* argv[])
{
    static const char* const as[] = { "system calls execute in one step", NULL };
    fsx_init();
    int r = mc_main(argc, argv, "P21", sc, sizeof sc / sizeof *sc, as);
    fsx_cleanup();
    return r;
}
