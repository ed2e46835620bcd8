/* Runtime under the code under test: scheduler, virtual time, modelled pthread
 * primitives, instrumented-memory hooks (the __tsan_* entry points emitted by
 * gcc -fsanitize=thread, but implemented here), heap with use-after-free
 * detection, allocation faults.  /repo's objects are linked with their calls to
 * pthread_*, malloc etc. renamed to rt_*. */
#define _GNU_SOURCE
#include "engine.h"
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

/* ------------------------------------------------------------------ threads */

enum { T_NONE, T_READY, T_BLOCKED, T_TIMED, T_DONE };

typedef uint32_t vc_t[MC_MAXTHREADS + 1]; /* index MC_MAXTHREADS: main */

struct thr {
    int state;
    const void* obj;         /* what we wait for */
    struct timespec until;
    int timed_out;
    int signalled;
    int turn;                /* futex */
    pthread_t pt;
    const void* spin_addr;
    int spin_cnt;
    vc_t vc;
};

static struct thr T[MC_MAXTHREADS];
static vc_t main_vc;
static int nthr, cur, active, quiet;
static __thread int self = -1;
static void (*thr_fn)(int);
static int main_turn;
static struct timespec vclock;
static const uint64_t HORIZON = 400000;

long mc_alloc_count, mc_alloc_fail_at;
int mc_alloc_fault, mc_sys_fault;
size_t mc_alloc_limit;

static void heap_reset(void);

void rt_reset(void)
{
    memset(T, 0, sizeof T);
    nthr = 0;
    active = 0;
    quiet = 0;
    cur = -1;
    self = -1;
    vclock.tv_sec = 1000;
    vclock.tv_nsec = 0;
    mc_alloc_fault = mc_sys_fault = 0;
    mc_alloc_fail_at = 0;
    mc_alloc_limit = 0;
    heap_reset();
}

int mc_tid(void) { return self; }

static void fwait(int* a)
{
    for (int i = 0; !__atomic_load_n(a, __ATOMIC_ACQUIRE); i++)
        syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    __atomic_store_n(a, 0, __ATOMIC_RELAXED);
}

static void fwake(int* a)
{
    __atomic_store_n(a, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

static int ts_cmp(const struct timespec* a, const struct timespec* b)
{
    if (a->tv_sec != b->tv_sec) return a->tv_sec < b->tv_sec ? -1 : 1;
    return (a->tv_nsec > b->tv_nsec) - (a->tv_nsec < b->tv_nsec);
}

static void resume_prep(int t)
{
    if (T[t].state == T_TIMED) {
        if (ts_cmp(&vclock, &T[t].until) < 0) vclock = T[t].until;
        T[t].timed_out = 1;
        T[t].state = T_READY;
        T[t].obj = NULL;
    }
}

static void switch_to(int t)
{
    resume_prep(t);
    T[t].spin_cnt = 0;
    if (t == self) return;
    cur = t;
    int me = self;
    fwake(&T[t].turn);
    fwait(&T[me].turn);
}

static const char* stname[] = { "none", "ready", "blocked", "timed", "done" };

static void __attribute__((noreturn)) deadlock(void)
{
    char buf[512];
    size_t o = 0;
    for (int i = 0; i < nthr; i++)
        o += snprintf(buf + o, sizeof buf - o, " T%d:%s", i, stname[T[i].state]);
    mc_fail("deadlock", "deadlock: no thread can run:%s", buf);
}

static int left_budget(void) { return mc_pb - mc_cost_used; }

/* pick the next thread when the current one cannot or need not continue */
static int pick_other(int mayself)
{
    int opt[2 * MC_MAXTHREADS], n = 0, nfree;
    for (int k = 1; k <= nthr; k++) {
        int t = (self + k) % nthr;
        if (t == self) continue;
        if (T[t].state == T_READY) opt[n++] = t;
    }
    nfree = n;
    if (n == 0) {
        /* only time-outs can make progress: earliest first, all free */
        int best = -1;
        for (int k = 1; k <= nthr; k++) {
            int t = (self + k) % nthr;
            if (T[t].state == T_TIMED && (best < 0 || ts_cmp(&T[t].until, &T[best].until) < 0)) best = t;
        }
        if (mayself && best < 0) return self;
        return best;
    }
    if (left_budget() > 0)
        for (int k = 1; k <= nthr; k++) {
            int t = (self + k) % nthr;
            if (T[t].state == T_TIMED && (t != self)) opt[n++] = t;
        }
    else if (mayself) {
        /* a yield beyond the budget: round robin */
        return opt[0];
    }
    if (mayself) nfree = 1;
    if (left_budget() <= 0 && n > nfree) n = nfree;
    return opt[mc_decide(n, nfree)];
}

/* the current thread has changed to a non-runnable state */
static void block_here(void)
{
    int t = pick_other(0);
    if (t < 0) {
        if (T[self].state == T_TIMED) t = self;
        else deadlock();
    }
    switch_to(t);
}

static void sh_access(uint64_t key, int wr)
{
    uint32_t h = (uint32_t)((key * 0x9e3779b97f4a7c15ull) >> (64 - MC_SHBITS));
    for (uint32_t k = 0; k < 512; k++, h = (h + 1) & (MC_SHSIZE - 1)) {
        struct mc_shacc* a = &G->sh_next[h];
        uint64_t cur_key = __atomic_load_n(&a->key, __ATOMIC_RELAXED);
        if (!cur_key) {
            uint64_t z = 0;
            if (!__atomic_compare_exchange_n(&a->key, &z, key, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) && z != key)
                continue;
            cur_key = key;
        }
        if (cur_key == key) {
            uint32_t bit = 1u << self;
            if (!(a->mask & bit)) __atomic_fetch_or(&a->mask, bit, __ATOMIC_RELAXED);
            if (wr && !a->wr) a->wr = 1;
            return;
        }
    }
}

static int sh_interesting(uint64_t key)
{
    if (mc_cur_sc->flags & MC_NOREDUCE) return 1;
    uint32_t h = (uint32_t)((key * 0x9e3779b97f4a7c15ull) >> (64 - MC_SHBITS));
    while (G->sh_key[h]) {
        if (G->sh_key[h] == key) return 1;
        h = (h + 1) & (MC_SHSIZE - 1);
    }
    return 0;
}

static void step(void)
{
    if (++rt_steps > HORIZON)
        mc_fail("livelock", "no termination within %lu scheduled steps", (unsigned long)HORIZON);
}

/* asynchronous events, such as signals, may happen before each step of the
 * thread that has set the function */
__thread void (*mc_async)(void);
static __thread int in_async;

static void sched_point(const void* addr, int wr, int sync)
{
    if (!active || self < 0 || quiet) return;
    step();
    if (mc_async && !in_async && mc_fault("signal")) {
        in_async = 1;
        mc_async();
        in_async = 0;
    }
    uint64_t key = (uint64_t)(uintptr_t)addr >> 3;
    if (addr) sh_access(key, wr);
    struct thr* me = &T[self];
    if (addr && addr == me->spin_addr) {
        if (++me->spin_cnt > 40 && !sync) {
            me->spin_cnt = 0;
            int t = pick_other(1);
            if (t != self) switch_to(t);
            return;
        }
    } else {
        me->spin_addr = addr;
        me->spin_cnt = 0;
    }
    if (left_budget() <= 0) return;
    if (addr && !sh_interesting(key)) return;
    int opt[2 * MC_MAXTHREADS], n = 0;
    opt[n++] = self;
    for (int k = 1; k < nthr; k++) {
        int t = (self + k) % nthr;
        if (T[t].state == T_READY || T[t].state == T_TIMED) opt[n++] = t;
    }
    int c = mc_decide(n, 1);
    if (c) {
        if (mc_verbose) mc_note("(preempted before access %p, next is T%d)", addr, opt[c]);
        switch_to(opt[c]);
    }
}

bool mc_in_timed_wait(int t) { return t < nthr && T[t].state == T_TIMED; }

void mc_point(void) { sched_point(NULL, 1, 1); }

void mc_yield(void)
{
    if (!active || self < 0) return;
    step();
    int t = pick_other(1);
    if (t >= 0 && t != self) switch_to(t);
}

void mc_clock_advance(long sec, long nsec)
{
    vclock.tv_sec += sec;
    vclock.tv_nsec += nsec;
    while (vclock.tv_nsec >= 1000000000) { vclock.tv_nsec -= 1000000000; vclock.tv_sec++; }
}

void mc_quiet_begin(void) { quiet++; }
void mc_quiet_end(void) { quiet--; }

static void vc_join(vc_t d, const vc_t s)
{
    for (int i = 0; i <= MC_MAXTHREADS; i++) if (s[i] > d[i]) d[i] = s[i];
}

static void* thr_main(void* arg)
{
    int id = (int)(intptr_t)arg;
    self = id;
    fwait(&T[id].turn);
    thr_fn(id);
    T[id].state = T_DONE;
    int t = pick_other(0);
    if (t >= 0) {
        resume_prep(t);
        cur = t;
        fwake(&T[t].turn);
    } else {
        int all = 1;
        for (int i = 0; i < nthr; i++) if (T[i].state != T_DONE) all = 0;
        if (!all) deadlock();
        fwake(&main_turn);
    }
    return NULL;
}

void mc_run_threads(int n, void (*fn)(int tid))
{
    nthr = n;
    thr_fn = fn;
    main_vc[MC_MAXTHREADS]++;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 512 * 1024);
    for (int i = 0; i < n; i++) {
        memset(&T[i], 0, sizeof T[i]);
        T[i].state = T_READY;
        memcpy(T[i].vc, main_vc, sizeof main_vc);
        T[i].vc[i]++;
        if (pthread_create(&T[i].pt, &at, thr_main, (void*)(intptr_t)i)) mc_internal("pthread_create");
    }
    active = 1;
    int first = mc_decide(n, n);
    cur = first;
    main_turn = 0;
    fwake(&T[first].turn);
    fwait(&main_turn);
    active = 0;
    for (int i = 0; i < n; i++) {
        pthread_join(T[i].pt, NULL);
        vc_join(main_vc, T[i].vc);
    }
    main_vc[MC_MAXTHREADS]++;
}

static uint32_t* my_vc(void) { return self >= 0 ? T[self].vc : main_vc; }
static int my_ix(void) { return self >= 0 ? self : MC_MAXTHREADS; }

/* -------------------------------------------------- synchronisation objects */

struct obj {
    const void* addr;
    int writer;              /* -1 none, else thread index */
    int readers;
    uint32_t rd_mask;
    vc_t vc;
};

#define NOBJ 4096
static struct obj O[NOBJ];

static struct obj* get_obj(const void* a)
{
    uint32_t h = (uint32_t)(((uint64_t)(uintptr_t)a * 0x9e3779b97f4a7c15ull) >> 52);
    for (int k = 0; k < NOBJ; k++) {
        struct obj* o = &O[(h + k) % NOBJ];
        if (o->addr == a) return o;
        if (!o->addr) {
            o->addr = a;
            o->writer = -1;
            o->readers = 0;
            return o;
        }
    }
    mc_internal("too many sync objects");
}

static void wake_blocked(const void* a)
{
    for (int i = 0; i < nthr; i++)
        if (T[i].state == T_BLOCKED && T[i].obj == a) { T[i].state = T_READY; T[i].obj = NULL; }
}

static void wait_on(const void* a, const char* what)
{
    if (self < 0) mc_fail("lock still held", "%s taken while threads have ended: %p is still locked", what, a);
    if (quiet) mc_internal("blocking in quiet section");
    T[self].state = T_BLOCKED;
    T[self].obj = a;
    block_here();
}

static void acq(struct obj* o) { vc_join(my_vc(), o->vc); }
static void rel(struct obj* o) { vc_join(o->vc, my_vc()); my_vc()[my_ix()]++; }

int rt_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    (void)a;
    struct obj* o = get_obj(m);
    o->writer = -1;
    o->readers = 0;
    return 0;
}

int rt_pthread_mutex_destroy(pthread_mutex_t* m)
{
    struct obj* o = get_obj(m);
    if (o->writer >= 0) mc_fail("mutex destroyed while locked", "mutex destroyed while locked");
    return 0;
}

int rt_pthread_mutex_lock(pthread_mutex_t* m)
{
    struct obj* o = get_obj(m);
    sched_point(m, 1, 1);
    if (o->writer == my_ix()) mc_fail("relock", "thread locks a mutex it already holds (self-deadlock)");
    while (o->writer >= 0) wait_on(m, "mutex");
    o->writer = my_ix();
    acq(o);
    return 0;
}

int rt_pthread_mutex_trylock(pthread_mutex_t* m)
{
    struct obj* o = get_obj(m);
    sched_point(m, 1, 1);
    if (o->writer >= 0) return EBUSY;
    o->writer = my_ix();
    acq(o);
    return 0;
}

int rt_pthread_mutex_unlock(pthread_mutex_t* m)
{
    struct obj* o = get_obj(m);
    sched_point(m, 1, 1);
    if (o->writer != my_ix()) mc_fail("unlock of foreign mutex", "mutex unlocked by a thread that does not hold it");
    rel(o);
    o->writer = -1;
    wake_blocked(m);
    return 0;
}

int rt_pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t* a)
{
    (void)a;
    struct obj* o = get_obj(m);
    o->writer = -1;
    o->readers = 0;
    o->rd_mask = 0;
    return 0;
}

int rt_pthread_rwlock_destroy(pthread_rwlock_t* m)
{
    struct obj* o = get_obj(m);
    if (o->writer >= 0 || o->readers) mc_fail("rwlock destroyed while locked", "rwlock destroyed while locked");
    return 0;
}

int rt_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    struct obj* o = get_obj(m);
    sched_point(m, 1, 1);
    if (o->writer == my_ix()) return EDEADLK;
    while (o->writer >= 0) wait_on(m, "rwlock");
    o->readers++;
    o->rd_mask |= 1u << my_ix();
    acq(o);
    return 0;
}

int rt_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    struct obj* o = get_obj(m);
    sched_point(m, 1, 1);
    if (o->writer == my_ix()) return EDEADLK;
    if (o->rd_mask & (1u << my_ix())) mc_fail("relock", "thread write-locks a rwlock it holds for reading (self-deadlock)");
    while (o->writer >= 0 || o->readers) wait_on(m, "rwlock");
    o->writer = my_ix();
    acq(o);
    return 0;
}

int rt_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    struct obj* o = get_obj(m);
    sched_point(m, 1, 1);
    if (o->writer == my_ix()) {
        rel(o);
        o->writer = -1;
    } else if (o->readers > 0 && (o->rd_mask & (1u << my_ix()))) {
        rel(o);
        o->readers--;
        o->rd_mask &= ~(1u << my_ix());
    } else
        mc_fail("unlock of foreign rwlock", "rwlock unlocked by a thread that does not hold it");
    wake_blocked(m);
    return 0;
}

int rt_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { (void)c; (void)a; return 0; }

int rt_pthread_cond_destroy(pthread_cond_t* c)
{
    for (int i = 0; i < nthr; i++)
        if ((T[i].state == T_BLOCKED || T[i].state == T_TIMED) && T[i].obj == c)
            mc_fail("condition destroyed while in use", "condition variable destroyed while a thread waits on it");
    return 0;
}

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* until)
{
    struct obj* o = get_obj(m);
    if (o->writer != my_ix()) mc_fail("wait without mutex", "condition wait without holding the mutex");
    if (self < 0) mc_internal("main waits on a condition");
    sched_point(c, 1, 1);
    rel(o);
    o->writer = -1;
    wake_blocked(m);
    struct thr* me = &T[self];
    me->timed_out = 0;
    me->obj = c;
    if (until) { me->until = *until; me->state = T_TIMED; }
    else me->state = T_BLOCKED;
    block_here();
    int to = me->timed_out;
    me->timed_out = 0;
    while (o->writer >= 0) wait_on(m, "mutex");
    o->writer = my_ix();
    acq(o);
    acq(get_obj(c));
    return to ? ETIMEDOUT : 0;
}

int rt_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, NULL); }

int rt_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    return cond_wait(c, m, t);
}

static int cond_wake(pthread_cond_t* c, int all)
{
    sched_point(c, 1, 1);
    rel(get_obj(c));
    for (int i = 0; i < nthr; i++)
        if ((T[i].state == T_BLOCKED || T[i].state == T_TIMED) && T[i].obj == c) {
            T[i].state = T_READY;
            T[i].obj = NULL;
            if (!all) break;
        }
    return 0;
}

int rt_pthread_cond_signal(pthread_cond_t* c) { return cond_wake(c, 0); }
int rt_pthread_cond_broadcast(pthread_cond_t* c) { return cond_wake(c, 1); }

int rt_clock_gettime(clockid_t id, struct timespec* ts)
{
    (void)id;
    *ts = vclock;
    return 0;
}

int rt_nanosleep(const struct timespec* a, struct timespec* rem)
{
    (void)rem;
    mc_clock_advance(a->tv_sec, a->tv_nsec);
    mc_yield();
    return 0;
}

int rt_sched_yield(void) { mc_yield(); return 0; }

/* --------------------------------------------------------------- race table */

struct cell { uint64_t key; uint32_t wclk; int8_t wtid; uint8_t wmask; uint8_t rmask[MC_MAXTHREADS + 1]; uint32_t rclk[MC_MAXTHREADS + 1]; };
#define NCELL (1u << 16)
static struct cell* cells;

#ifdef MC_TSAN
static void heap_access(const void* a, size_t n, int wr);

static void race_access(uintptr_t a, size_t n, int wr, int atomic)
{
    if (!(mc_cur_sc->flags & MC_RACE) || quiet || !active) return;
    if (!cells) {
        cells = mmap(NULL, NCELL * sizeof *cells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (cells == MAP_FAILED) mc_internal("mmap");
    }
    (void)atomic;
    int me = my_ix();
    uint32_t* vc = my_vc();
    while (n) {
        uintptr_t g = a >> 3;
        size_t off = a & 7, k = 8 - off < n ? 8 - off : n;
        uint8_t mask = (uint8_t)(((1u << k) - 1) << off);
        uint32_t h = (uint32_t)((g * 0x9e3779b97f4a7c15ull) >> 48);
        struct cell* c = NULL;
        for (uint32_t i = 0; i < NCELL; i++) {
            c = &cells[(h + i) & (NCELL - 1)];
            if (c->key == g) break;
            if (!c->key) { c->key = g; c->wtid = -1; break; }
        }
        if (c->wtid >= 0 && c->wtid != me && (c->wmask & mask) && c->wclk > vc[c->wtid])
            mc_fail("data race", "data race: %s of %zu bytes at %p is not ordered after another thread's write",
                    wr ? "write" : "read", k, (void*)a);
        if (wr) {
            for (int t = 0; t <= MC_MAXTHREADS; t++)
                if (t != me && (c->rmask[t] & mask) && c->rclk[t] > vc[t])
                    mc_fail("data race", "data race: write of %zu bytes at %p is not ordered after another thread's read",
                            k, (void*)a);
            c->wtid = me; c->wclk = vc[me]; c->wmask = mask;
        } else {
            if (c->rclk[me] == vc[me]) c->rmask[me] |= mask;
            else { c->rclk[me] = vc[me]; c->rmask[me] = mask; }
        }
        a += k;
        n -= k;
    }
}
#endif

/* --------------------------------------------------------------------- heap */

static long live;
static size_t last_size;

/* allocations that must fail: exhaustive fault choice or the n-th one */
static int alloc_fails(size_t n)
{
    if (quiet) return 0;
    mc_alloc_count++;
    if (mc_alloc_limit && n > mc_alloc_limit) return 1;
    if (mc_alloc_fail_at && --mc_alloc_fail_at == 0) return 1;
    if (mc_alloc_fault && mc_fault("allocation")) return 1;
    return 0;
}

struct hdr { size_t size; uint32_t magic; uint32_t tid; };
#define MAGIC 0x5a11cafe
#define FREED 0xdeadf4ee

size_t mc_last_alloc_size(void) { return last_size; }
long mc_heap_live(void) { return live; }
void mc_heap_mark(void) { live = 0; }

#ifdef MC_TSAN
/* one bump arena per thread, memory is never reused within an execution */
#define ARENA (64ul << 20)
#define ARENA_BASE 0x300000000000ul
static char* arena_top[MC_MAXTHREADS + 1];
static uint8_t* shadow; /* per 8 bytes: 0 untouched, 1 allocated, 2 freed */

static void heap_init(void)
{
    if (shadow) return;
    void* p = mmap((void*)ARENA_BASE, ARENA * (MC_MAXTHREADS + 1), PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) mc_internal("arena");
    shadow = mmap(NULL, ARENA * (MC_MAXTHREADS + 1) / 8, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i <= MC_MAXTHREADS; i++) arena_top[i] = (char*)ARENA_BASE + ARENA * i + 64;
}

static int in_arena(const void* p)
{
    return (uintptr_t)p >= ARENA_BASE && (uintptr_t)p < ARENA_BASE + ARENA * (MC_MAXTHREADS + 1);
}

static uint8_t* sh_of(const void* p) { return shadow + ((uintptr_t)p - ARENA_BASE) / 8; }

static void heap_access(const void* a, size_t n, int wr)
{
    if (!in_arena(a)) return;
    uint8_t* s = sh_of(a), *e = sh_of((const char*)a + n - 1);
    for (; s <= e; s++)
        if (*s != 1)
            mc_fail(*s == 2 ? "use after free" : "wild access",
                    "%s of %zu bytes at %p, which is %s heap memory", wr ? "write" : "read", n, a,
                    *s == 2 ? "freed" : "unallocated");
}

static void* heap_alloc(size_t align, size_t n)
{
    heap_init();
    int t = my_ix();
    if (align < 16) align = 16;
    uintptr_t p = (uintptr_t)arena_top[t] + sizeof(struct hdr);
    p = (p + align - 1) & ~(align - 1);
    if (n > ARENA || p + n + 64 > ARENA_BASE + ARENA * (t + 1)) { errno = ENOMEM; return NULL; }
    struct hdr* h = (struct hdr*)p - 1;
    h->size = n;
    h->magic = MAGIC;
    h->tid = t;
    arena_top[t] = (char*)((p + n + 31) & ~15ul);
    memset(sh_of((void*)p), 1, (n + 7) / 8);
    live++;
    last_size = n;
    return (void*)p;
}

static void heap_free(void* p)
{
    if (!p) return;
    if (!in_arena(p)) { free(p); return; }
    struct hdr* h = (struct hdr*)p - 1;
    if (h->magic == FREED) mc_fail("double free", "double free of %p", p);
    if (h->magic != MAGIC) mc_fail("invalid free", "free of invalid pointer %p", p);
    h->magic = FREED;
    memset(sh_of(p), 2, (h->size + 7) / 8);
    live--;
}

static size_t heap_size(void* p)
{
    if (!p) return 0;
    if (!in_arena(p)) return malloc_usable_size(p);
    struct hdr* h = (struct hdr*)p - 1;
    if (h->magic != MAGIC) mc_fail("use after free", "malloc_usable_size on freed or invalid pointer %p", p);
    return h->size;
}

static void heap_reset(void) { live = 0; memset(O, 0, sizeof O); }
void mc_heap_report(void) {}
#else
/* sequential flavour: the (sanitised) system heap plus a table of live blocks */
#define NBLK (1u << 16)
static void* blk[NBLK];
static size_t blksz[NBLK];

static uint32_t bh(const void* p) { return (uint32_t)(((uint64_t)(uintptr_t)p * 0x9e3779b97f4a7c15ull) >> 48); }

static void blk_add(void* p, size_t n)
{
    for (uint32_t i = bh(p), k = 0; k < NBLK; i = (i + 1) & (NBLK - 1), k++)
        if (!blk[i] || blk[i] == (void*)1) { blk[i] = p; blksz[i] = n; live++; return; }
}

static int blk_find(const void* p)
{
    for (uint32_t i = bh(p), k = 0; k < NBLK && blk[i]; i = (i + 1) & (NBLK - 1), k++)
        if (blk[i] == p) return i;
    return -1;
}

static void* heap_alloc(size_t align, size_t n)
{
    void* p = NULL;
    if (align) { int e = posix_memalign(&p, align, n); if (e) { errno = e; p = NULL; } }
    else p = malloc(n);
    if (p) blk_add(p, n);
    last_size = n;
    return p;
}

static void heap_free(void* p)
{
    if (p) {
        int i = blk_find(p);
        if (i >= 0) { blk[i] = (void*)1; live--; }
    }
    free(p);
}

static size_t heap_size(void* p) { return malloc_usable_size(p); }

static void heap_reset(void) { live = 0; memset(blk, 0, sizeof blk); memset(O, 0, sizeof O); }

void mc_heap_report(void)
{
    for (uint32_t i = 0; i < NBLK; i++)
        if (blk[i] && blk[i] != (void*)1) mc_note("live block %p size %zu", blk[i], blksz[i]);
}
#endif

void* rt_malloc(size_t n)
{
    if (alloc_fails(n)) { errno = ENOMEM; return NULL; }
    return heap_alloc(0, n);
}

void rt_free(void* p) { int e = errno; heap_free(p); errno = e; }

void* rt_calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n) || alloc_fails(n)) { errno = ENOMEM; return NULL; }
    void* p = heap_alloc(0, n);
    if (p) memset(p, 0, n);
    return p;
}

void* rt_realloc(void* p, size_t n)
{
    if (!p) return rt_malloc(n);
    if (alloc_fails(n)) { errno = ENOMEM; return NULL; }
    size_t old = heap_size(p);
    void* q = heap_alloc(0, n);
    if (!q) return NULL;
    memcpy(q, p, old < n ? old : n);
    heap_free(p);
    return q;
}

int rt_posix_memalign(void** out, size_t al, size_t n)
{
    if (alloc_fails(n)) return ENOMEM;
    if (al < sizeof(void*) || (al & (al - 1))) return EINVAL;
    void* p = heap_alloc(al, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}

void* rt_aligned_alloc(size_t al, size_t n)
{
    void* p;
    int e = rt_posix_memalign(&p, al < sizeof(void*) ? sizeof(void*) : al, n);
    if (e) { errno = e; return NULL; }
    return p;
}

size_t rt_malloc_usable_size(void* p) { return heap_size(p); }

/* -------------------------------------------------- instrumented memory API */
#ifdef MC_TSAN

static void plain(const void* a, size_t n, int wr)
{
    heap_access(a, n, wr);
    race_access((uintptr_t)a, n, wr, 0);
}

#define RW(n) \
    void __tsan_read##n(void* a) { plain(a, n, 0); } \
    void __tsan_write##n(void* a) { plain(a, n, 1); } \
    void __tsan_unaligned_read##n(void* a) { plain(a, n, 0); } \
    void __tsan_unaligned_write##n(void* a) { plain(a, n, 1); } \
    void __tsan_volatile_read##n(void* a) { plain(a, n, 0); } \
    void __tsan_volatile_write##n(void* a) { plain(a, n, 1); } \
    void __tsan_unaligned_volatile_read##n(void* a) { plain(a, n, 0); } \
    void __tsan_unaligned_volatile_write##n(void* a) { plain(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)

void __tsan_read_range(void* a, size_t n) { if (n) plain(a, n, 0); }
void __tsan_write_range(void* a, size_t n) { if (n) plain(a, n, 1); }
void __tsan_init(void) {}
void __tsan_func_entry(void* p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void** a, void* b) { (void)a; (void)b; }
void __tsan_vptr_read(void** a) { (void)a; }

/* memory functions called by the code under test */
void* rt_memcpy(void* d, const void* s, size_t n) { if (n) { plain(s, n, 0); plain(d, n, 1); } return memcpy(d, s, n); }
void* rt_memmove(void* d, const void* s, size_t n) { if (n) { plain(s, n, 0); plain(d, n, 1); } return memmove(d, s, n); }
void* rt_memset(void* d, int c, size_t n) { if (n) plain(d, n, 1); return memset(d, c, n); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { return rt_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return rt_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { return rt_memset(d, c, n); }

/* clocks of atomic locations */
struct aclk { const void* addr; vc_t vc; };
#define NACLK 16384
static struct aclk* AC;

static struct aclk* aclk(const void* a)
{
    if (!AC) {
        AC = mmap(NULL, NACLK * sizeof *AC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (AC == MAP_FAILED) mc_internal("mmap");
    }
    uint32_t h = (uint32_t)(((uint64_t)(uintptr_t)a * 0x9e3779b97f4a7c15ull) >> 50);
    for (uint32_t i = 0; i < NACLK; i++) {
        struct aclk* c = &AC[(h + i) % NACLK];
        if (c->addr == a) return c;
        if (!c->addr) { c->addr = a; return c; }
    }
    mc_internal("too many atomics");
}

static int is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static int is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static void at_load(const void* a, int mo)
{
    if (!(mc_cur_sc->flags & MC_RACE)) return;
    if (is_acq(mo)) vc_join(my_vc(), aclk(a)->vc);
}

static void at_store(const void* a, int mo, int rmw)
{
    if (!(mc_cur_sc->flags & MC_RACE)) return;
    struct aclk* c = aclk(a);
    if (is_rel(mo)) {
        if (!rmw) memcpy(c->vc, my_vc(), sizeof(vc_t));
        else vc_join(c->vc, my_vc());
        my_vc()[my_ix()]++;
    } else if (!rmw) memset(c->vc, 0, sizeof(vc_t));
}

#define ATOMICS(bits, type) \
type __tsan_atomic##bits##_load(const volatile type* a, int mo) { \
    heap_access((const void*)a, sizeof(type), 0); \
    sched_point((const void*)a, 0, 0); at_load((const void*)a, mo); \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##bits##_store(volatile type* a, type v, int mo) { \
    heap_access((const void*)a, sizeof(type), 1); \
    sched_point((const void*)a, 1, 0); at_store((const void*)a, mo, 0); \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_exchange(volatile type* a, type v, int mo) { \
    heap_access((const void*)a, sizeof(type), 1); \
    sched_point((const void*)a, 1, 0); at_load((const void*)a, mo); at_store((const void*)a, mo, 1); \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int mo) { \
    heap_access((const void*)a, sizeof(type), 1); \
    sched_point((const void*)a, 1, 0); at_load((const void*)a, mo); at_store((const void*)a, mo, 1); \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int mo) { \
    heap_access((const void*)a, sizeof(type), 1); \
    sched_point((const void*)a, 1, 0); at_load((const void*)a, mo); at_store((const void*)a, mo, 1); \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int mo) { \
    heap_access((const void*)a, sizeof(type), 1); \
    sched_point((const void*)a, 1, 0); at_load((const void*)a, mo); at_store((const void*)a, mo, 1); \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int mo) { \
    heap_access((const void*)a, sizeof(type), 1); \
    sched_point((const void*)a, 1, 0); at_load((const void*)a, mo); at_store((const void*)a, mo, 1); \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int mo) { \
    heap_access((const void*)a, sizeof(type), 1); \
    sched_point((const void*)a, 1, 0); at_load((const void*)a, mo); at_store((const void*)a, mo, 1); \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_fetch_nand(volatile type* a, type v, int mo) { \
    heap_access((const void*)a, sizeof(type), 1); \
    sched_point((const void*)a, 1, 0); at_load((const void*)a, mo); at_store((const void*)a, mo, 1); \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* e, type v, int mo, int fmo) { \
    heap_access((const void*)a, sizeof(type), 1); \
    sched_point((const void*)a, 1, 0); \
    int r = __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (r) { at_load((const void*)a, mo); at_store((const void*)a, mo, 1); } else at_load((const void*)a, fmo); \
    return r; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* e, type v, int mo, int fmo) { \
    return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo); } \
type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type e, type v, int mo, int fmo) { \
    __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }

ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
#endif
