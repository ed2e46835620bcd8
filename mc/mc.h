/* Harness API of the explicit explorer ("mc").  See DESIGN.md. */
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

#ifdef __cplusplus
extern "C" {
#endif

#define MC_MAXTHREADS 4

enum {
    MC_INPROC = 1,   /* many executions per process (scenario resets itself) */
    MC_RACE = 2,     /* happens-before data-race detection */
    MC_NOREDUCE = 4, /* preempt at every atomic, not only at shared ones */
    MC_NOPREEMPT = 8, /* purely sequential scenario: one pass */
    MC_THOROUGH_ONLY = 16
};

struct mc_scenario {
    const char* name;
    void (*fn)(int variant);
    int nvariants;          /* 0 means 1 */
    int flags;
    int pb_quick;           /* preemption bound */
    int pb_thorough;
    int budget_quick;       /* seconds, 0 = default */
    int budget_thorough;
    const char* what;       /* one line for the evidence file */
    int nvariants_quick;    /* 0 = all */
};

int mc_main(int argc, char* argv[], const char* property,
            const struct mc_scenario* sc, size_t nsc,
            const char* const* assumptions);

/* nondeterministic choice, explored exhaustively; returns 0..n-1 */
int mc_choose(int n);
/* like mc_choose, but values != 0 are limited to `mc_fault_budget` per run */
extern int mc_fault_budget;
int mc_fault(const char* what);
/* runs before any one step of this thread, up to mc_fault_budget times */
extern __thread void (*mc_async)(void);
/* abandon this execution (counted, not a violation) */
void mc_prune(void) __attribute__((noreturn));
/* violation; sig identifies the failure (for known findings) */
void mc_fail(const char* sig, const char* fmt, ...)
    __attribute__((noreturn, format(printf, 2, 3)));
/* what is being executed (reported when the process crashes) */
void mc_ctx(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
/* human-readable trace (kept only for samples and replays) */
void mc_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
/* add to this execution's observable outcome (for distinct-outcome counts) */
void mc_outcome(uint64_t v);
/* count explored elementary cases inside one execution (inner loops) */
void mc_cases(uint64_t n);
extern bool mc_tier_thorough;

/* threads (scheduled) */
void mc_run_threads(int n, void (*fn)(int tid));
int mc_tid(void);
void mc_yield(void);          /* give way; used between transaction attempts */
bool mc_in_timed_wait(int tid); /* thread waits with a time-out */
void mc_point(void);          /* explicit scheduling point */
void mc_clock_advance(long sec, long nsec);
void mc_quiet_begin(void);    /* no scheduling between begin and end */
void mc_quiet_end(void);

/* heap accounting of the code under test */
void mc_heap_mark(void);
long mc_heap_live(void);      /* live blocks allocated since mark */
void mc_heap_report(void);
extern int mc_alloc_fault;    /* !=0: each allocation is a fault point */
extern int mc_sys_fault;
extern long mc_alloc_count;   /* allocations since start */
extern long mc_alloc_fail_at; /* >0: fail the n-th allocation from mark */
extern size_t mc_alloc_limit; /* larger requests fail (0: no limit) */

/* model of "last size requested" for size checks */
size_t mc_last_alloc_size(void);

#define mc_check(cond_, sig_, ...) \
    do { if (!(cond_)) mc_fail((sig_), __VA_ARGS__); } while (0)

#ifdef __cplusplus
}
#endif
