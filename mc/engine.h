/* Shared between engine.c and rt.c */
#pragma once
#include "mc.h"

#define MC_MAXDEV 48
#define MC_MAXTRACE (1u << 16)
#define MC_SHBITS 16
#define MC_SHSIZE (1u << MC_SHBITS)

enum { ST_OK = 0, ST_FAIL, ST_PRUNED, ST_INTERNAL, ST_KNOWN, ST_CUT };

struct mc_dev { uint32_t pos; uint16_t val; uint16_t cost; };
struct mc_item { uint16_t n; uint16_t cost; struct mc_dev d[MC_MAXDEV]; };

struct mc_tr { uint16_t n; uint16_t nfree; uint16_t chosen; };

struct mc_shacc { uint64_t key; uint32_t mask; uint32_t wr; };

struct mc_result {
    int status;
    uint32_t ntrace;
    uint64_t steps;
    uint64_t cases;
    uint64_t outcome;
    uint64_t msgs;
    char sig[256];
    char msg[2048];
    char ctx[512];
    /* in-process mode */
    int inproc;              /* child wants to return leftover items */
    uint32_t nleft;
    uint64_t nexec, nnodes, npruned, ncut, nmaxdepth;
    struct mc_item cur;      /* item being executed (crash recovery) */
    struct mc_tr trace[MC_MAXTRACE];
};

struct mc_global {
    /* work queue */
    int qlock;
    uint32_t qn;
    long outstanding;        /* items queued or being processed */
    int stop;
    int nworkers;
    /* statistics */
    uint64_t nexec, nnodes, nsteps, ncases, npruned, ndiverge, ncut, nknown,
             ncapped, nrejected, nmaxdepth;
    /* violation */
    int have_fail;
    struct mc_item fail_item;
    char fail_sig[256];
    char fail_msg[4096];
    /* access table for the shared-address reduction */
    struct mc_shacc sh_next[MC_SHSIZE];
    uint32_t sh_n_shared;
    uint8_t sh_cur[MC_SHSIZE]; /* 1: shared, interesting */
    uint64_t sh_key[MC_SHSIZE];
    /* distinct outcomes */
    uint64_t ndistinct;
    uint64_t outc[1u << 20];
    /* known findings seen */
    uint8_t known_hit[1024];
};

extern struct mc_global* G;
extern struct mc_result* R;
extern const struct mc_scenario* mc_cur_sc;
extern int mc_pb;            /* preemption bound of this pass */
extern int mc_cost_used;
extern bool mc_verbose;

/* choice among n options, the first nfree are free, the others cost one
 * preemption each (caller already limited n to the remaining budget) */
int mc_decide(int n, int nfree);
void mc_internal(const char* fmt, ...) __attribute__((noreturn));
void mc_finish(int status) __attribute__((noreturn));

/* rt.c */
void rt_reset(void);
void rt_describe(FILE* f);
extern uint64_t rt_steps;
