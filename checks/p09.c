/* P09: transactional memory is serializable and never exposes uncommitted data */
#include "ser.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"

/* two variables; layout chosen by the scenario */
static struct { unsigned char a[64]; } mem __attribute__((aligned(64)));
static unsigned char* var[2];
static int vsz;

enum { L0, L1, S0, S1, I0, I1, X01, NOPS };
static const char* opn[NOPS] = { "load x", "load y", "store x", "store y", "privatized x++", "privatized y++", "y=loadstore(x)" };

#define MAXOPS 3
static int prog[4][MAXOPS], proglen[4];
static int ntx;
static unsigned obs[4][MAXOPS], obs_final[4][MAXOPS];
static unsigned init_val[2] = { 1, 2 };

static unsigned rd(const unsigned char* p) { return vsz == 1 ? *p : *(const unsigned*)p; }
static void wr(unsigned char* p, unsigned v) { if (vsz == 1) *p = v; else *(unsigned*)p = v; }
static unsigned newval(int t, int i) { return 16 * (t + 1) + 4 * i + 3; }

static bool exec_model(int t, void* st)
{
    unsigned* s = st;
    for (int i = 0; i < proglen[t]; i++) {
        int o = prog[t][i];
        switch (o) {
        case L0: case L1: if (obs_final[t][i] != s[o - L0]) return false; break;
        case S0: case S1: s[o - S0] = newval(t, i); break;
        case I0: case I1:
            if (obs_final[t][i] != s[o - I0]) return false;
            s[o - I0]++;
            break;
        case X01: s[1] = s[0]; break;
        }
    }
    return true;
}

static bool final_model(const void* st)
{
    const unsigned* s = st;
    return s[0] == rd(var[0]) && s[1] == rd(var[1]);
}

static void do_ops(int t)
{
    for (int i = 0; i < proglen[t]; i++) {
        int o = prog[t][i];
        unsigned v = 0;
        unsigned char c;
        switch (o) {
        case L0: case L1:
            if (vsz == 1) { load_tx(var[o - L0], &c, 1); v = c; }
            else load_tx(var[o - L0], &v, 4);
            obs[t][i] = v;
            break;
        case S0: case S1:
            v = newval(t, i);
            if (vsz == 1) { c = v; store_tx(var[o - S0], &c, 1); }
            else store_tx(var[o - S0], &v, 4);
            break;
        case I0: case I1:
            privatize_tx(var[o - I0], vsz, PICOTM_TM_PRIVATIZE_LOADSTORE);
            v = rd(var[o - I0]);
            obs[t][i] = v;
            wr(var[o - I0], v + 1);
            break;
        case X01:
            loadstore_tx(var[0], var[1], vsz);
            break;
        }
    }
}

static void thread_fn(int tid)
{
    ser_begin(tid);
    picotm_begin
        if (picotm_number_of_restarts()) mc_yield();
        do_ops(tid);
    picotm_commit
        mc_fail("unexpected recovery", "transaction %d entered recovery", tid);
    picotm_end
    ser_commit(tid);
    memcpy(obs_final[tid], obs[tid], sizeof obs[tid]);
    picotm_release();
}

static void check_all(void)
{
    unsigned st[2] = { init_val[0], init_val[1] };
    for (int t = 0; t < ntx; t++)
        for (int i = 0; i < proglen[t]; i++) mc_outcome(obs_final[t][i]);
    mc_outcome(rd(var[0]));
    mc_outcome(rd(var[1]));
    if (!ser_search(ntx, 0, st, sizeof st, exec_model, final_model)) {
        char b[600]; int o = 0;
        for (int t = 0; t < ntx; t++) {
            o += snprintf(b + o, sizeof b - o, " T%d{", t);
            for (int i = 0; i < proglen[t]; i++) o += snprintf(b + o, sizeof b - o, "%s=%u; ", opn[prog[t][i]], obs_final[t][i]);
            o += snprintf(b + o, sizeof b - o, "}");
        }
        mc_fail("not serializable", "no serial order explains%s final x=%u y=%u", b, rd(var[0]), rd(var[1]));
    }
    for (unsigned i = 0; i < sizeof mem; i++) {
        int in = 0;
        for (int k = 0; k < 2; k++) if (&mem.a[i] >= var[k] && &mem.a[i] < var[k] + vsz) in = 1;
        if (!in) mc_check(mem.a[i] == 0xEE, "neighbour bytes", "byte %u beside the variables changed to %x", i, mem.a[i]);
    }
}

static void layout(int l)
{
    memset(&mem, 0xEE, sizeof mem);
    vsz = l == 1 ? 1 : 4;
    switch (l) {
    case 0: var[0] = mem.a; var[1] = mem.a + 16; break; /* distinct blocks */
    case 1: var[0] = mem.a + 8; var[1] = mem.a + 9; break; /* same block */
    case 2: var[0] = mem.a + 4; var[1] = mem.a + 14; break; /* y crosses two blocks */
    }
    wr(var[0], init_val[0]);
    wr(var[1], init_val[1]);
    ser_clock = 0;
    memset(ser_tx, 0, sizeof ser_tx);
    memset(obs, 0, sizeof obs);
}

/* main takes part in picotm first, so that the threads do not race for the
 * initialisation of picotm's global state (explored by other checks) */
static void warm_up(void)
{
    picotm_begin
        unsigned char c[4];
        load_tx(var[0], c, vsz);
        load_tx(var[1], c, vsz);
    picotm_commit
        mc_fail("unexpected recovery", "recovery in warm-up");
    picotm_end
}

static void describe(void)
{
    for (int t = 0; t < ntx; t++)
        for (int i = 0; i < proglen[t]; i++) mc_note("program T%d: %s", t, opn[prog[t][i]]);
}

/* all unordered pairs of two-operation programs in which at least one writes
 * and which share a memory block; layouts: y across two blocks, both in one
 * block (smaller alphabet first), separate blocks */
#define NP2 (NOPS * NOPS)
static struct { unsigned char l, p, q; } pairs[3 * NP2 * NP2];
static int npairs, npairs_quick;

static bool writes(int p) { return p / NOPS >= S0 || p % NOPS >= S0; }
static int vars(int p)
{
    static const int v[NOPS] = { 1, 2, 1, 2, 1, 2, 3 };
    return v[p / NOPS] | v[p % NOPS];
}

static void make_pairs(void)
{
    static const int order[] = { 2, 1, 1, 0 };
    for (int k = 0; k < 4; k++) {
        for (int p = 0; p < NP2; p++)
            for (int q = p; q < NP2; q++) {
                if (!writes(p) && !writes(q)) continue;
                if (order[k] != 1 && !(vars(p) & vars(q))) continue;
                /* same block: half of the pairs (first op of the second
                 * program on y) belong to the quick tier */
                bool yfirst = (q / NOPS) % 2 == 1 && p / NOPS != q / NOPS;
                if ((k == 1 && !yfirst) || (k == 2 && yfirst)) continue;
                pairs[npairs].l = order[k];
                pairs[npairs].p = p;
                pairs[npairs++].q = q;
            }
        if (k == 1) npairs_quick = npairs;
    }
}

#define CHUNK 64
static void sc_pairs(int chunk)
{
    int left = npairs - chunk * CHUNK;
    int v = chunk * CHUNK + mc_choose(left < CHUNK ? left : CHUNK);
    int p = pairs[v].p, q = pairs[v].q;
    layout(pairs[v].l);
    ntx = 2;
    proglen[0] = proglen[1] = 2;
    prog[0][0] = p / NOPS; prog[0][1] = p % NOPS;
    prog[1][0] = q / NOPS; prog[1][1] = q % NOPS;
    describe();
    warm_up();
    mc_run_threads(2, thread_fn);
    check_all();
}

static const int pat3[][3][2] = {
    { { L0, S1 }, { L1, S0 }, { S0, S1 } },
    { { L0, L1 }, { S0, S1 }, { I0, I1 } },
    { { I0, I1 }, { I1, I0 }, { I0, I1 } },
    { { L0, S0 }, { L0, S0 }, { L0, L1 } },
    { { X01, L1 }, { S0, L1 }, { I1, L0 } },
    { { L0, I0 }, { L0, I0 }, { S0, L1 } },
};

static void sc_triples(int v)
{
    layout(v / 6);
    ntx = 3;
    for (int t = 0; t < 3; t++) {
        proglen[t] = 2;
        prog[t][0] = pat3[v % 6][t][0];
        prog[t][1] = pat3[v % 6][t][1];
    }
    describe();
    warm_up();
    mc_run_threads(3, thread_fn);
    check_all();
}

/* no dirty or mixed reads, even in attempts that later abort: the writer keeps
 * x == y, writes both and sometimes restarts once */
static int writer_priv, writer_abort;
static void invariant_fn(int tid)
{
    if (tid == 0) {
        picotm_begin
            if (picotm_number_of_restarts()) mc_yield();
            unsigned v = 77;
            if (writer_priv) {
                privatize_tx(var[0], vsz, PICOTM_TM_PRIVATIZE_LOADSTORE);
                wr(var[0], v);
                privatize_tx(var[1], vsz, PICOTM_TM_PRIVATIZE_STORE);
                wr(var[1], v);
            } else {
                store_tx(var[0], &v, 4);
                store_tx(var[1], &v, 4);
            }
            if (writer_abort && !picotm_number_of_restarts())
                picotm_resolve_conflict(NULL);
            if (writer_abort == 2) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
        picotm_commit
            if (writer_abort != 2) mc_fail("unexpected recovery", "recovery in writer");
        picotm_end
    } else {
        picotm_begin
            if (picotm_number_of_restarts()) mc_yield();
            unsigned a, b;
            load_tx(var[0], &a, 4);
            load_tx(var[1], &b, 4);
            mc_check(a == b, "mixed state read", "a transaction read x=%u y=%u, never equal", a, b);
            mc_check(a == 5 || (a == 77 && writer_abort != 2), "dirty read", "a transaction read %u", a);
            mc_outcome(a);
        picotm_commit
            mc_fail("unexpected recovery", "recovery in reader");
        picotm_end
    }
    picotm_release();
}

static void sc_invariant(int v)
{
    layout(v % 2 ? 2 : 0);
    wr(var[0], 5);
    wr(var[1], 5);
    writer_priv = (v / 2) % 2;
    writer_abort = v / 4;
    warm_up();
    mc_run_threads(2, invariant_fn);
    unsigned want = writer_abort == 2 ? 5 : 77;
    mc_check(rd(var[0]) == want && rd(var[1]) == want, "final", "final x=%u y=%u", rd(var[0]), rd(var[1]));
}

static struct mc_scenario sc[] = {
    { "tm-invariant", sc_invariant, 12, MC_RACE, 2, 3, 20, 200, "reader sees x==y while a writer commits, restarts or aborts" },
    { "tm-triples", sc_triples, 18, MC_RACE, 1, 2, 30, 400, "three threads with conflicting two-operation programs" },
    { "tm-pairs", sc_pairs, 1, MC_RACE, 1, 2, 80, 1500, "pairs of two-operation programs over two variables that share a block and write" },
};

int main(int argc, char* argv[])
{
    static const char* const as[] = { "sequentially consistent interleavings of picotm's atomics and pthread calls; missing acquire/release ordering is reported as a data race instead of being explored as a weak-memory execution",
        "two or three threads, one transaction each, at most three operations", NULL };
    make_pairs();
    sc[2].nvariants = (npairs + CHUNK - 1) / CHUNK;
    sc[2].nvariants_quick = (npairs_quick + CHUNK - 1) / CHUNK;
    return mc_main(argc, argv, "P09", sc, sizeof sc / sizeof *sc, as);
}
