/* Stateless explicit-state explorer: depth-first enumeration of all choice
 * sequences of a scenario (schedules, programs, faults), bounded by the number
 * of preemptions, over 8 worker processes; one fork per execution, or many
 * executions per process for MC_INPROC scenarios. */
#define _GNU_SOURCE
#include "engine.h"
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

struct mc_global* G;
struct mc_result* R;
static const struct mc_scenario no_scenario;
const struct mc_scenario* mc_cur_sc = &no_scenario;
int mc_pb;
int mc_cost_used;
bool mc_verbose;
bool mc_tier_thorough;
int mc_fault_budget;
uint64_t rt_steps;

static struct mc_item* gq;       /* global queue storage */
#define GQ_MAX 200000u

static const struct mc_item* cur_item;
static uint32_t cur_dev, cur_pos;
static int cur_variant;
static int faults_used;
static const char* prop_id;
static int exec_timeout = 20;
static jmp_buf inproc_env;
static int inproc_active;

static double now(void)
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

/* ---- known findings ---------------------------------------------------- */

static struct { char sig[256]; char text[512]; } known[512];
static int nknown;

static void load_known(void)
{
    const char* path = getenv("MC_KNOWN");
    FILE* f = path ? fopen(path, "r") : NULL;
    if (!f) return;
    char line[2048];
    while (fgets(line, sizeof line, f)) {
        /* known: property=P10 sig=<signature> | text */
        char id[16]; char* p;
        if (strncmp(line, "known: property=", 16)) continue;
        if (sscanf(line + 16, "%15s", id) != 1 || strcmp(id, prop_id)) continue;
        p = strstr(line, "sig=");
        if (!p) continue;
        p += 4;
        char* e = strstr(p, " | ");
        if (!e || nknown >= 512) continue;
        *e = 0;
        snprintf(known[nknown].sig, sizeof known[nknown].sig, "%s", p);
        snprintf(known[nknown].text, sizeof known[nknown].text, "%s", e + 3);
        char* nl = strchr(known[nknown].text, '\n');
        if (nl) *nl = 0;
        nknown++;
    }
    fclose(f);
}

static int find_known(const char* sig)
{
    for (int i = 0; i < nknown; i++)
        if (!strcmp(known[i].sig, sig)) return i;
    return -1;
}

/* ---- in the execution -------------------------------------------------- */

void mc_finish(int status)
{
    R->status = status;
    R->ntrace = cur_pos;
    R->steps = rt_steps;
    if (inproc_active) longjmp(inproc_env, 1);
    fflush(NULL);
    _exit(0);
}

void mc_internal(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    mc_finish(ST_INTERNAL);
}

void mc_fail(const char* sig, const char* fmt, ...)
{
    va_list ap;
    char buf[1536];
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    snprintf(R->sig, sizeof R->sig, "%s: %s", mc_cur_sc->name, sig);
    snprintf(R->msg, sizeof R->msg, "%s [%s]", buf, R->ctx);
    if (mc_verbose) fprintf(stdout, "  FAIL %s: %s\n", R->sig, R->msg);
    mc_finish(ST_FAIL);
}

void mc_prune(void) { mc_finish(ST_PRUNED); }

void mc_ctx(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->ctx, sizeof R->ctx, fmt, ap);
    va_end(ap);
    if (mc_verbose) printf("  ctx: %s\n", R->ctx);
}

void mc_note(const char* fmt, ...)
{
    if (!mc_verbose) return;
    va_list ap;
    va_start(ap, fmt);
    printf("  [%d] ", mc_tid());
    vprintf(fmt, ap);
    va_end(ap);
    printf("\n");
    fflush(stdout);
}

static uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}

void mc_outcome(uint64_t v) { R->outcome = mix(R->outcome, v); }
void mc_cases(uint64_t n) { R->cases += n; }

int mc_decide(int n, int nfree)
{
    if (n <= 1) return 0;
    int v = 0;
    if (cur_pos >= MC_MAXTRACE - 1) mc_internal("trace too long");
    if (cur_dev < cur_item->n && cur_item->d[cur_dev].pos == cur_pos) {
        v = cur_item->d[cur_dev].val;
        cur_dev++;
        if (v >= n) {
            mc_internal("replay divergence at choice %u: %d of %d", cur_pos, v, n);
        }
    }
    R->trace[cur_pos].n = n;
    R->trace[cur_pos].nfree = nfree;
    R->trace[cur_pos].chosen = v;
    cur_pos++;
    if (v >= nfree) mc_cost_used++;
    return v;
}

int mc_choose(int n) { return mc_decide(n, n); }

int mc_fault(const char* what)
{
    if (faults_used >= mc_fault_budget) return 0;
    int v = mc_decide(2, 2);
    if (v) { faults_used++; mc_note("FAULT injected: %s", what); }
    return v;
}

static void run_scenario(const struct mc_item* it)
{
    cur_item = it;
    cur_dev = 0;
    cur_pos = 0;
    mc_cost_used = 0;
    faults_used = 0;
    mc_fault_budget = 0;
    R->outcome = mix(0, cur_variant + 1);
    R->cases = 0;
    R->ctx[0] = 0;
    R->sig[0] = 0;
    R->msg[0] = 0;
    rt_steps = 0;
    rt_reset();
    mc_cur_sc->fn(cur_variant);
    if (cur_dev < it->n)
        mc_internal("replay divergence: %u of %u deviations used", cur_dev, it->n);
    R->status = ST_OK;
    R->ntrace = cur_pos;
    R->steps = rt_steps;
}

/* ---- bookkeeping after an execution ------------------------------------ */

struct stack { struct mc_item* a; size_t n, cap; };

static void push(struct stack* s, const struct mc_item* it)
{
    if (s->n == s->cap) {
        s->cap = s->cap ? s->cap * 2 : 256;
        s->a = realloc(s->a, s->cap * sizeof *s->a);
        if (!s->a) { fprintf(stderr, "mc: out of memory\n"); _exit(2); }
    }
    s->a[s->n++] = *it;
}

static uint64_t ncap_local;

/* push all siblings of the executed path below the item's prefix */
static void expand(struct stack* s, const struct mc_item* it,
                   const struct mc_tr* tr, uint32_t ntrace)
{
    uint32_t first = it->n ? it->d[it->n - 1].pos + 1 : 0;
    for (uint32_t i = first; i < ntrace; i++) {
        for (int v = tr[i].n - 1; v >= 1; v--) {
            struct mc_item ni;
            if (it->n >= MC_MAXDEV) { ncap_local++; continue; }
            int c = v >= tr[i].nfree;
            if (it->cost + c > mc_pb) continue;
            ni.n = it->n + 1;
            ni.cost = it->cost + c;
            memcpy(ni.d, it->d, it->n * sizeof ni.d[0]);
            ni.d[it->n] = (struct mc_dev){ i, v, c };
            push(s, &ni);
        }
    }
}

static void add_outcome(uint64_t o)
{
    if (!o) o = 1;
    uint32_t h = (uint32_t)(o * 0x9e3779b97f4a7c15ull >> 44);
    for (uint32_t k = 0; k < 4096; k++) {
        uint64_t* p = &G->outc[(h + k) & ((1u << 20) - 1)];
        uint64_t v = __atomic_load_n(p, __ATOMIC_RELAXED);
        if (v == o) return;
        if (!v) {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(p, &z, o, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
                __atomic_fetch_add(&G->ndistinct, 1, __ATOMIC_SEQ_CST);
                return;
            }
            if (z == o) return;
        }
    }
}

/* ---- queue -------------------------------------------------------------- */

static void qlock(void)
{
    while (__atomic_exchange_n(&G->qlock, 1, __ATOMIC_ACQUIRE)) sched_yield();
}
static void qunlock(void) { __atomic_store_n(&G->qlock, 0, __ATOMIC_RELEASE); }

static bool qget(struct mc_item* it)
{
    bool ok = false;
    qlock();
    if (G->qn) { *it = gq[--G->qn]; ok = true; }
    qunlock();
    return ok;
}

/* donate the shallowest half of the local stack if others are hungry */
static void donate(struct stack* s)
{
    if (s->n < 2 || __atomic_load_n(&G->qn, __ATOMIC_RELAXED) >= (uint32_t)G->nworkers * 2)
        return;
    qlock();
    size_t k = s->n / 2;
    if (k > 4096) k = 4096;
    if (k > GQ_MAX - G->qn) k = GQ_MAX - G->qn;
    for (size_t i = 0; i < k; i++) gq[G->qn++] = s->a[i];
    __atomic_fetch_add(&G->outstanding, (long)k, __ATOMIC_SEQ_CST);
    memmove(s->a, s->a + k, (s->n - k) * sizeof *s->a);
    s->n -= k;
    qunlock();
}

/* ---- running one item in a child --------------------------------------- */

static int errpipe_fd = -1;
static struct mc_item* left_items; /* shared, for in-process mode */
#define LEFT_MAX 16384u
static double deadline;

static void child_setup(void)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    if (errpipe_fd >= 0) {
        ftruncate(errpipe_fd, 0);
        lseek(errpipe_fd, 0, SEEK_SET);
        dup2(errpipe_fd, 2);
    }
    alarm(mc_cur_sc->flags & MC_INPROC ? exec_timeout * 4 : exec_timeout);
}

static void flush_inproc(const struct stack* st)
{
    R->nleft = 0;
    for (size_t i = 0; i < st->n && R->nleft < LEFT_MAX; i++)
        left_items[R->nleft++] = st->a[i];
}

static void child_inproc(const struct mc_item* it)
{
    struct stack st = { 0 };
    static struct stack* volatile sp;
    static volatile uint64_t nexec, nnodes, npr, ncut, cases, depth, nint;
    sp = &st;
    nexec = nnodes = npr = ncut = cases = depth = nint = 0;
    push(&st, it);
    static double t0;
    t0 = now();
    while (sp->n) {
        R->cur = sp->a[--sp->n];
        R->status = ST_OK;
        inproc_active = 1;
        if (!setjmp(inproc_env))
            run_scenario(&R->cur);
        inproc_active = 0;
        nexec++;
        uint32_t first = R->cur.n ? R->cur.d[R->cur.n - 1].pos + 1 : 0;
        if (R->ntrace > first) nnodes += R->ntrace - first;
        cases += R->cases;
        if (R->ntrace > depth) depth = R->ntrace;
        if (R->status == ST_FAIL) {
            int k = find_known(R->sig);
            if (k < 0) { R->nexec = nexec; R->nnodes = nnodes; R->npruned = npr; R->inproc = 1;
                         R->cases = cases; fflush(NULL); _exit(0); }
            G->known_hit[k] = 1;
        }
        if (R->status == ST_PRUNED) npr++;
        if (R->status == ST_INTERNAL) {
            nint++;
            if (sp->n < LEFT_MAX) break; /* the process state may be spoilt */
            continue;
        }
        add_outcome(R->outcome);
        expand(sp, &R->cur, R->trace, R->ntrace);
        if ((nexec & 63) == 0) alarm(exec_timeout);
        if ((nexec & 1023) == 0 && sp->n < LEFT_MAX
            && (now() - t0 > 2.0
                || (sp->n > 8 && now() - t0 > .05 && __atomic_load_n(&G->qn, __ATOMIC_RELAXED) < (uint32_t)G->nworkers)
                || G->stop))
            break;
        /* after a known failure the process state may be spoilt: restart */
        if (R->status == ST_FAIL) break;
    }
    flush_inproc(sp);
    R->inproc = 1;
    R->status = ST_OK;
    R->nexec = nexec; R->nnodes = nnodes; R->npruned = npr; R->ncut = nint;
    R->nmaxdepth = depth;
    R->cases = cases;
    fflush(NULL);
    _exit(0);
}

static void run_child(const struct mc_item* it)
{
    R->status = -1;
    R->inproc = 0;
    R->nleft = 0;
    R->ntrace = 0;
    R->cur = *it;
    R->ctx[0] = 0;
    R->nexec = R->nnodes = R->npruned = R->ncut = R->nmaxdepth = 0;
    fflush(NULL);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(2); }
    if (!pid) {
        child_setup();
        if (mc_cur_sc->flags & MC_INPROC) child_inproc(it);
        run_scenario(it);
        fflush(NULL);
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st)) || R->status == -1) {
        char err[600] = "";
        if (errpipe_fd >= 0) {
            lseek(errpipe_fd, 0, SEEK_SET);
            char big[1 << 14];
            ssize_t n = read(errpipe_fd, big, sizeof big - 1);
            if (n > 0) {
                big[n] = 0;
                char* p = strstr(big, "ERROR: ");
                if (!p) p = big;
                snprintf(err, sizeof err, "%s", p);
                for (char* q = err; *q; q++) if (*q == '\n') *q = ' ';
            }
        }
        R->status = ST_FAIL;
        const char* how = WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exit";
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) how = "timeout";
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) R->status = ST_INTERNAL;
        snprintf(R->sig, sizeof R->sig, "%s: crash: %.120s", mc_cur_sc->name, R->ctx);
        snprintf(R->msg, sizeof R->msg, "process ended (%s, code %d) [%s] %s",
                 how, WIFEXITED(st) ? WEXITSTATUS(st) : 0, R->ctx, err);
        R->ntrace = 0;
    }
}

static void report_fail(const struct mc_item* it)
{
    /* confirm twice, alone, with a longer limit */
    char sig[256], msg[2048];
    struct mc_item item = R->inproc || (mc_cur_sc->flags & MC_INPROC) ? R->cur : *it;
    snprintf(sig, sizeof sig, "%s", R->sig);
    snprintf(msg, sizeof msg, "%s", R->msg);
    int k = find_known(sig);
    if (k >= 0) { G->known_hit[k] = 1; __atomic_fetch_add(&G->nknown, 1, __ATOMIC_SEQ_CST); return; }
    int save = exec_timeout, confirmed = 0;
    struct mc_scenario scopy = *mc_cur_sc;
    const struct mc_scenario* scsave = mc_cur_sc;
    scopy.flags &= ~MC_INPROC;
    mc_cur_sc = &scopy;
    exec_timeout *= 3;
    for (int i = 0; i < 2; i++) {
        run_child(&item);
        if (R->status == ST_FAIL) confirmed++;
    }
    exec_timeout = save;
    mc_cur_sc = scsave;
    if (confirmed < 2) {
        __atomic_fetch_add(&G->nrejected, 1, __ATOMIC_SEQ_CST);
        if (__atomic_load_n(&G->nrejected, __ATOMIC_SEQ_CST) <= 5) {
            fprintf(stdout, "NOTE: unconfirmed failure (%d/2) in %s: %s\n", confirmed, sig, msg);
            fflush(stdout);
        }
        return;
    }
    qlock();
    if (!G->have_fail) {
        G->have_fail = 1;
        G->fail_item = item;
        snprintf(G->fail_sig, sizeof G->fail_sig, "%s", sig);
        snprintf(G->fail_msg, sizeof G->fail_msg, "%s", msg);
        G->stop = 1;
    }
    qunlock();
}

/* a crash in in-process mode: continue with what is left of the subtree by
 * re-running the item out of process in smaller steps is not needed, as a
 * confirmed crash stops the search unless it is a known finding */
static void worker(int id)
{
    struct stack st = { 0 };
    struct mc_item it;
    cpu_set_t cs;
    CPU_ZERO(&cs);
    int ncpu = sysconf(_SC_NPROCESSORS_ONLN);
    CPU_SET(id % ncpu, &cs);
    if (!(mc_cur_sc->flags & MC_NOPREEMPT)) sched_setaffinity(0, sizeof cs, &cs);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    errpipe_fd = memfd_create("mcerr", 0);
    for (;;) {
        if (__atomic_load_n(&G->stop, __ATOMIC_RELAXED)) break;
        if (!st.n) {
            if (!qget(&it)) {
                if (__atomic_load_n(&G->outstanding, __ATOMIC_SEQ_CST) == 0) break;
                struct timespec ts = { 0, 200000 };
                nanosleep(&ts, NULL);
                continue;
            }
            push(&st, &it);
        }
        it = st.a[--st.n];
        run_child(&it);
        if (R->status == ST_FAIL) {
            if (R->inproc) {
                __atomic_fetch_add(&G->nexec, R->nexec, __ATOMIC_SEQ_CST);
                __atomic_fetch_add(&G->nnodes, R->nnodes, __ATOMIC_SEQ_CST);
            }
            int was_known = find_known(R->sig) >= 0;
            struct mc_item cur = R->cur;
            report_fail(&it);
            /* children of a failing path are still explored when known */
            if (was_known && !(mc_cur_sc->flags & MC_INPROC)) {
                if (R->ntrace) expand(&st, &it, R->trace, R->ntrace);
                else __atomic_fetch_add(&G->ncapped, 1, __ATOMIC_SEQ_CST);
            }
            if (was_known && (mc_cur_sc->flags & MC_INPROC)) {
                /* crash of a known finding inside a subtree: its siblings are
                 * lost with the process; count it as capped */
                (void)cur;
                __atomic_fetch_add(&G->ncapped, 1, __ATOMIC_SEQ_CST);
            }
        } else if (R->inproc) {
            __atomic_fetch_add(&G->nexec, R->nexec, __ATOMIC_SEQ_CST);
            __atomic_fetch_add(&G->nnodes, R->nnodes, __ATOMIC_SEQ_CST);
            __atomic_fetch_add(&G->ncases, R->cases, __ATOMIC_SEQ_CST);
            __atomic_fetch_add(&G->npruned, R->npruned, __ATOMIC_SEQ_CST);
            __atomic_fetch_add(&G->ndiverge, R->ncut, __ATOMIC_SEQ_CST);
            if (R->nmaxdepth > G->nmaxdepth) G->nmaxdepth = R->nmaxdepth;
            for (uint32_t i = 0; i < R->nleft; i++) push(&st, &left_items[i]);
        } else {
            __atomic_fetch_add(&G->nexec, 1, __ATOMIC_SEQ_CST);
            __atomic_fetch_add(&G->nsteps, R->steps, __ATOMIC_SEQ_CST);
            __atomic_fetch_add(&G->ncases, R->cases, __ATOMIC_SEQ_CST);
            if (R->status == ST_PRUNED) __atomic_fetch_add(&G->npruned, 1, __ATOMIC_SEQ_CST);
            if (R->status == ST_INTERNAL) {
                __atomic_fetch_add(&G->ndiverge, 1, __ATOMIC_SEQ_CST);
                if (getenv("MC_DEBUG")) printf("internal: %s\n", R->msg);
            } else {
                uint32_t first = it.n ? it.d[it.n - 1].pos + 1 : 0;
                if (R->ntrace > first)
                    __atomic_fetch_add(&G->nnodes, R->ntrace - first, __ATOMIC_SEQ_CST);
                if (R->ntrace > G->nmaxdepth) G->nmaxdepth = R->ntrace;
                add_outcome(R->outcome);
                expand(&st, &it, R->trace, R->ntrace);
            }
        }
        donate(&st);
        if (!st.n) __atomic_fetch_add(&G->outstanding, -1, __ATOMIC_SEQ_CST);
        if (now() > deadline) {
            G->stop = 2;
            break;
        }
    }
    __atomic_fetch_add(&G->ncapped, ncap_local, __ATOMIC_SEQ_CST);
    _exit(0);
}

/* ---- passes -------------------------------------------------------------- */

static int nworkers = 8;

static int run_pass(int nworkers)
{
    G->qn = 0;
    G->outstanding = 1;
    G->stop = 0;
    G->nworkers = nworkers;
    memset(&gq[0], 0, sizeof gq[0]);
    G->qn = 1;
    pid_t pids[64];
    fflush(NULL);
    for (int i = 0; i < nworkers; i++) {
        pids[i] = fork();
        if (pids[i] < 0) { perror("fork"); exit(2); }
        if (!pids[i]) {
            struct mc_result** rs = (struct mc_result**)(uintptr_t)R; (void)rs;
            R = (struct mc_result*)((char*)R + (size_t)i * sizeof *R);
            left_items += (size_t)i * LEFT_MAX;
            worker(i);
        }
    }
    int bad = 0;
    for (int i = 0; i < nworkers; i++) {
        int st;
        waitpid(pids[i], &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1;
    }
    if (bad) { fprintf(stderr, "mc: worker died\n"); return -1; }
    return G->stop == 2 ? 1 : 0; /* 1: out of time */
}

static uint32_t sh_slot(uint64_t key)
{
    uint32_t h = (uint32_t)((key * 0x9e3779b97f4a7c15ull) >> (64 - MC_SHBITS));
    return h;
}

/* freeze the set of addresses shared so far; returns their number */
static uint32_t sh_freeze(void)
{
    uint32_t n = 0;
    memset(G->sh_cur, 0, sizeof G->sh_cur);
    memset(G->sh_key, 0, sizeof G->sh_key);
    for (uint32_t i = 0; i < MC_SHSIZE; i++) {
        struct mc_shacc* a = &G->sh_next[i];
        if (a->key && (a->mask & (a->mask - 1)) && a->wr) {
            uint32_t h = sh_slot(a->key);
            while (G->sh_key[h] && G->sh_key[h] != a->key) h = (h + 1) & (MC_SHSIZE - 1);
            G->sh_key[h] = a->key;
            G->sh_cur[h] = 1;
            n++;
        }
    }
    return n;
}

static char samples[8][1024];
static int nsamples;

static void take_sample(int sc_idx, int variant, const struct mc_item* it)
{
    (void)sc_idx;
    if (nsamples >= 8) return;
    char* b = samples[nsamples++];
    size_t o = 0, sz = sizeof samples[0];
    o += snprintf(b + o, sz - o, "%s variant %d: ", mc_cur_sc->name, variant);
    int pfd[2];
    if (pipe(pfd)) return;
    fflush(NULL);
    pid_t pid = fork();
    if (!pid) {
        close(pfd[0]);
        dup2(pfd[1], 1);
        setvbuf(stdout, NULL, _IOLBF, 0);
        mc_verbose = true;
        child_setup();
        run_scenario(it);
        printf("choices:");
        for (uint32_t i = 0; i < R->ntrace && i < 60; i++) printf(" %d/%d", R->trace[i].chosen, R->trace[i].n);
        fflush(NULL);
        _exit(0);
    }
    close(pfd[1]);
    char buf[900];
    size_t n = 0;
    for (;;) {
        char tmp[4096];
        ssize_t k = read(pfd[0], tmp, sizeof tmp);
        if (k <= 0) break;
        for (ssize_t i = 0; i < k && n < sizeof buf - 1; i++) {
            char c = tmp[i];
            if (c == '\n') c = ';';
            if (c == '"' || c == '\\' || (unsigned char)c < 32 || (unsigned char)c > 126) c = '\'';
            if (c == ' ' && n && buf[n - 1] == ' ') continue;
            buf[n++] = c;
        }
    }
    buf[n] = 0;
    close(pfd[0]);
    waitpid(pid, NULL, 0);
    snprintf(b + o, sz - o, "%s", buf);
}

static void json_str(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; s++) {
        if (*s == '"' || *s == '\\') fputc('\\', f);
        if ((unsigned char)*s < 32 || (unsigned char)*s > 126) fputc(' ', f);
        else fputc(*s, f);
    }
    fputc('"', f);
}

static void write_replay(const char* path, const struct mc_scenario* sc, int variant)
{
    FILE* f = fopen(path, "w");
    if (!f) return;
    fprintf(f, "property %s\nscenario %s\nvariant %d\npb %d\nthorough %d\nsig %s\nmsg %s\n", prop_id,
            sc->name, variant, mc_pb, mc_tier_thorough, G->fail_sig, G->fail_msg);
    fprintf(f, "devs %d", G->fail_item.n);
    for (int i = 0; i < G->fail_item.n; i++)
        fprintf(f, " %u:%u:%u", G->fail_item.d[i].pos, G->fail_item.d[i].val, G->fail_item.d[i].cost);
    fprintf(f, "\nshared");
    for (uint32_t i = 0; i < MC_SHSIZE; i++)
        if (G->sh_cur[i]) fprintf(f, " %lx", (unsigned long)G->sh_key[i]);
    fprintf(f, "\n");
    fclose(f);
}

static int do_replay(const char* path, const struct mc_scenario* sc, size_t nsc)
{
    FILE* f = fopen(path, "r");
    if (!f) { perror(path); return 2; }
    static char line[1 << 20];
    char name[256] = "";
    int variant = 0;
    struct mc_item it;
    memset(&it, 0, sizeof it);
    while (fgets(line, sizeof line, f)) {
        sscanf(line, "scenario %255s", name);
        sscanf(line, "variant %d", &variant);
        sscanf(line, "pb %d", &mc_pb);
        int th;
        if (sscanf(line, "thorough %d", &th) == 1) mc_tier_thorough = th;
        if (!strncmp(line, "devs ", 5)) {
            char* p = strchr(line + 5, ' ');
            while (p && sscanf(p, " %u:%hu:%hu", &it.d[it.n].pos, &it.d[it.n].val, &it.d[it.n].cost) == 3) {
                it.cost += it.d[it.n].cost;
                it.n++;
                p = strchr(p + 1, ' ');
            }
        }
        if (!strncmp(line, "shared", 6)) {
            char* p = strchr(line, ' ');
            while (p) {
                unsigned long k;
                if (sscanf(p, " %lx", &k) != 1) break;
                uint32_t h = sh_slot(k);
                while (G->sh_key[h]) h = (h + 1) & (MC_SHSIZE - 1);
                G->sh_key[h] = k;
                G->sh_cur[h] = 1;
                p = strchr(p + 1, ' ');
            }
        }
    }
    fclose(f);
    for (size_t i = 0; i < nsc; i++) {
        if (strcmp(sc[i].name, name)) continue;
        static struct mc_scenario s;
        s = sc[i];
        s.flags &= ~MC_INPROC;
        mc_cur_sc = &s;
        cur_variant = variant;
        cpu_set_t cs;
        CPU_ZERO(&cs);
        CPU_SET(0, &cs);
        sched_setaffinity(0, sizeof cs, &cs);
        mc_verbose = true;
        setvbuf(stdout, NULL, _IOLBF, 0);
        errpipe_fd = -1;
        if (getenv("MC_NOFORK")) { run_scenario(&it); return 0; }
        run_child(&it);
        printf("status %d: %s: %s\n", R->status, R->sig, R->msg);
        return R->status == ST_FAIL ? 1 : R->status == ST_OK ? 0 : 2;
    }
    fprintf(stderr, "scenario %s not found\n", name);
    return 2;
}

int mc_main(int argc, char* argv[], const char* property,
            const struct mc_scenario* sc, size_t nsc,
            const char* const* assumptions)
{
    prop_id = property;
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
        personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
        if (personality(0xffffffff) & ADDR_NO_RANDOMIZE) {
            execv("/proc/self/exe", argv);
        }
    }
    const char* replay = NULL, *only = NULL, *evidence = getenv("MC_EVIDENCE");
    const char* tier = getenv("VERIF_TIER");
    int only_variant = -1, force_pb = -1, force_budget = 0;
    if (tier && !strcmp(tier, "thorough")) mc_tier_thorough = true;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--replay") && i + 1 < argc) replay = argv[++i];
        else if (!strcmp(argv[i], "--thorough")) mc_tier_thorough = true;
        else if (!strcmp(argv[i], "--scenario") && i + 1 < argc) only = argv[++i];
        else if (!strcmp(argv[i], "--variant") && i + 1 < argc) only_variant = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--pb") && i + 1 < argc) force_pb = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--budget") && i + 1 < argc) force_budget = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--workers") && i + 1 < argc) nworkers = atoi(argv[++i]);
        else { fprintf(stderr, "usage: %s [--replay F] [--thorough] [--scenario S] [--variant N] [--pb N] [--budget S]\n", argv[0]); return 2; }
    }
    G = mmap(NULL, sizeof *G, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    gq = mmap(NULL, sizeof *gq * GQ_MAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    R = mmap(NULL, sizeof *R * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    left_items = mmap(NULL, sizeof *left_items * 64 * LEFT_MAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (G == MAP_FAILED || gq == MAP_FAILED || R == MAP_FAILED || left_items == MAP_FAILED) { perror("mmap"); return 2; }
    load_known();
    if (replay) return do_replay(replay, sc, nsc);

    double t0 = now();
    int rc = 0, exhaustive = 1, viol = 0;
    uint64_t tot_exec = 0, tot_nodes = 0, tot_steps = 0, tot_cases = 0, tot_pruned = 0, tot_div = 0,
             tot_distinct = 0, tot_knownhits = 0, tot_rejected = 0, tot_capped = 0, tot_var = 0;
    static char perscen[1 << 16];
    size_t po = 0;
    for (size_t i = 0; i < nsc && !viol; i++) {
        if (only && strcmp(only, sc[i].name)) continue;
        if ((sc[i].flags & MC_THOROUGH_ONLY) && !mc_tier_thorough && !only) continue;
        mc_cur_sc = &sc[i];
        int nv = sc[i].nvariants ? sc[i].nvariants : 1;
        if (!mc_tier_thorough && sc[i].nvariants_quick) nv = sc[i].nvariants_quick;
        int maxpb = force_pb >= 0 ? force_pb : mc_tier_thorough ? sc[i].pb_thorough : sc[i].pb_quick;
        if (sc[i].flags & MC_NOPREEMPT) maxpb = 0;
        int budget = force_budget ? force_budget : mc_tier_thorough ? sc[i].budget_thorough : sc[i].budget_quick;
        if (!budget) budget = mc_tier_thorough ? 240 : 40;
        double s0 = now();
        deadline = s0 + budget;
        int cut = 0, reached_pb = maxpb;
        uint64_t s_exec = 0, s_nodes = 0, s_steps = 0, s_cases = 0, s_div = 0, s_pruned = 0, s_maxd = 0, s_shared = 0;
        memset(G->outc, 0, sizeof G->outc);
        G->ndistinct = 0;
        int v;
        for (v = 0; v < nv && !viol && !cut; v++) {
            if (only_variant >= 0 && v != only_variant) continue;
            cur_variant = v;
            memset(G->sh_next, 0, sizeof G->sh_next);
            uint32_t nsh = sh_freeze();
            uint64_t prev_exec = 0;
            int pb;
            uint64_t vexec = 0, vnodes = 0, vsteps = 0, vcases = 0, vpruned = 0, vdiv = 0;
            for (pb = 0; pb <= maxpb; ) {
                mc_pb = pb;
                G->nexec = G->nnodes = G->nsteps = G->ncases = G->npruned = G->ndiverge = 0;
                int r = run_pass(pb == 0 && !(sc[i].flags & MC_NOPREEMPT) && nv > 100 ? 1 : nworkers);
                if (r < 0) return 2;
                uint64_t ne = G->nexec;
                if (getenv("MC_DEBUG"))
                    printf("  pass %s v%d pb%d: %lu exec, %lu nodes, %lu steps, %lu outcomes, shared %u, %.1fs\n",
                           sc[i].name, v, pb, (unsigned long)G->nexec, (unsigned long)G->nnodes, (unsigned long)G->nsteps,
                           (unsigned long)G->ndistinct, nsh, now() - s0), fflush(stdout);
                /* the last (largest) pass contains the earlier ones */
                vexec = G->nexec > vexec ? G->nexec : vexec;
                vnodes = G->nnodes > vnodes ? G->nnodes : vnodes;
                vsteps = G->nsteps > vsteps ? G->nsteps : vsteps;
                vcases = G->ncases > vcases ? G->ncases : vcases;
                vpruned = G->npruned; vdiv += G->ndiverge;
                if (G->have_fail) { viol = 1; break; }
                if (r == 1) { cut = 1; if (pb - 1 < reached_pb) reached_pb = pb - 1; break; }
                if (sc[i].flags & MC_NOPREEMPT) break;
                uint32_t nsh2 = sh_freeze();
                if (nsh2 != nsh) { nsh = nsh2; prev_exec = 0; continue; } /* repeat the pass */
                if (prev_exec && ne == prev_exec && pb > 0) break; /* no more preemptions possible */
                prev_exec = ne;
                pb++;
            }
            s_exec += vexec; s_nodes += vnodes; s_steps += vsteps; s_cases += vcases; s_pruned += vpruned; s_div += vdiv;
            if (nsh > s_shared) s_shared = nsh;
            if (G->nmaxdepth > s_maxd) s_maxd = G->nmaxdepth;
            if (!viol && nsamples < 8 && (v == 0 || v == nv - 1)) {
                struct mc_item it;
                memset(&it, 0, sizeof it);
                take_sample(i, v, &it);
            }
        }
        if (cut) exhaustive = 0;
        if (s_div) exhaustive = 0;
        tot_exec += s_exec; tot_nodes += s_nodes; tot_steps += s_steps; tot_cases += s_cases;
        tot_pruned += s_pruned; tot_div += s_div; tot_distinct += G->ndistinct; tot_var += v;
        printf("%s %s: %d/%d variants, pb %d%s, %lu executions, %lu choice nodes, %lu steps, %lu cases, %lu outcomes, %lu pruned, %lu diverged, %.1fs%s\n",
               prop_id, sc[i].name, cut ? v - 1 : v, nv, cut ? reached_pb : maxpb, (sc[i].flags & MC_NOPREEMPT) ? " (sequential)" : "",
               (unsigned long)s_exec, (unsigned long)s_nodes, (unsigned long)s_steps, (unsigned long)s_cases,
               (unsigned long)G->ndistinct, (unsigned long)s_pruned, (unsigned long)s_div, now() - s0,
               viol ? " VIOLATION" : cut ? " (time limit)" : "");
        fflush(stdout);
        if (po < sizeof perscen - 2048)
            po += snprintf(perscen + po, sizeof perscen - po,
                "%s{\"scenario\":\"%s\",\"what\":\"%s\",\"variants\":%d,\"of\":%d,\"preemption_bound_completed\":%d,\"complete\":%s,\"executions\":%lu,\"choice_nodes\":%lu,\"scheduled_steps\":%lu,\"elementary_cases\":%lu,\"distinct_outcomes\":%lu,\"max_choices_per_execution\":%lu,\"shared_granules\":%lu,\"diverged\":%lu,\"pruned\":%lu}",
                po ? "," : "", sc[i].name, sc[i].what ? sc[i].what : "", cut ? v - 1 : v, nv, cut ? reached_pb : maxpb,
                cut || viol ? "false" : "true", (unsigned long)s_exec, (unsigned long)s_nodes, (unsigned long)s_steps,
                (unsigned long)s_cases, (unsigned long)G->ndistinct, (unsigned long)s_maxd, (unsigned long)s_shared,
                (unsigned long)s_div, (unsigned long)s_pruned);
        if (viol) {
            char path[512];
            const char* rd = getenv("MC_REPLAYDIR");
            snprintf(path, sizeof path, "%s/%s-%s.replay", rd ? rd : ".", prop_id, sc[i].name);
            write_replay(path, &sc[i], cur_variant);
            printf("%s: %s\n", G->fail_sig, G->fail_msg);
            printf("VIOLATION property=%s replay=%s\n", prop_id, path);
            rc = 1;
        }
    }
    tot_knownhits = G->nknown; tot_rejected = G->nrejected; tot_capped = G->ncapped;
    if (tot_capped) exhaustive = 0;
    for (int k = 0; k < nknown; k++)
        if (G->known_hit[k]) printf("KNOWN-FINDING: property=%s %s | %s\n", prop_id, known[k].sig, known[k].text);
    if (!tot_exec && !viol) { fprintf(stderr, "nothing explored\n"); rc = 2; }
    if (evidence) {
        FILE* f = fopen(evidence, "w");
        if (!f) { perror(evidence); return 2; }
        const char* seed = getenv("VERIF_SEED");
        fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%d,\"level\":\"model_checking\",\n", prop_id,
                mc_tier_thorough ? "thorough" : "quick", seed ? atoi(seed) : 1);
        fprintf(f, "\"coverage\":{\"states\":%lu,\"transitions\":%lu,\"traces_validated_against_impl\":%lu,\n",
                (unsigned long)(tot_nodes + tot_exec), (unsigned long)(tot_steps + tot_nodes + tot_cases), (unsigned long)tot_exec);
        fprintf(f, "\"meaning\":\"states = distinct nodes of the explored choice tree (one per distinct choice prefix, plus one leaf per execution); transitions = scheduled steps, choices and elementary cases executed on the compiled /repo code; every execution is a run of the implementation itself, so all of them count as validated\",\n");
        fprintf(f, "\"elementary_cases\":%lu,\"distinct_outcomes\":%lu,\"pruned\":%lu,\"diverged_replays\":%lu,\"unconfirmed_failures\":%lu,\"known_finding_hits\":%lu,\"capped\":%lu,\"exhaustive\":%s,\n",
                (unsigned long)tot_cases, (unsigned long)tot_distinct, (unsigned long)tot_pruned, (unsigned long)tot_div,
                (unsigned long)tot_rejected, (unsigned long)tot_knownhits, (unsigned long)tot_capped, exhaustive && !viol ? "true" : "false");
        fprintf(f, "\"scenarios\":[%s],\n\"samples\":[", perscen);
        for (int k = 0; k < nsamples; k++) { if (k) fputc(',', f); json_str(f, samples[k]); }
        fprintf(f, "]},\n\"assumptions\":[");
        for (int k = 0; assumptions && assumptions[k]; k++) { if (k) fputc(',', f); json_str(f, assumptions[k]); }
        fprintf(f, "],\n\"wall_s\":%.1f,\"violations\":%d}\n", now() - t0, viol);
        fclose(f);
    }
    return rc;
}
