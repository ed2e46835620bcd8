/* P14: transactional containers are serializable under concurrency */
#include "ser.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-txlib.h"
#include "picotm/picotm-txlist.h"
#include "picotm/picotm-txlist-state.h"
#include "picotm/picotm-txmultiset.h"
#include "picotm/picotm-txmultiset-state.h"
#include "picotm/picotm-txqueue.h"
#include "picotm/picotm-txqueue-state.h"
#include "picotm/picotm-txstack.h"
#include "picotm/picotm-txstack-state.h"
#include <string.h>

enum { K_LIST, K_SET, K_QUEUE, K_STACK };
static int kind;

/* entries: 0..3 filled in by main, 4.. pushed by the threads */
#define NE 12
struct ent {
    union { struct txlist_entry l; struct txmultiset_entry m; struct txqueue_entry q; struct txstack_entry s; } u;
    int key;
};
static struct ent pool[NE];
static union { struct txlist_state l; struct txmultiset_state m; struct txqueue_state q; struct txstack_state s; } st[2];
/* neighbouring keys, some equal */
static const int keys[NE] = { 2, 4, 6, 4, 3, 5, 4, 1, 2, 7, 4, 3 };

/* operations; A is container 0, B is container 1 */
enum { PUSH, PUSHF, POP, POPB, SIZE, EMPTY, PEEK, ITER, MOVE, ERASE, PUSHB_B, POP_B, NOPS };
static const char* const opn[NOPS] = { "push", "push front", "pop", "pop back", "size", "empty", "peek", "iterate", "move A->B", "erase entry 1", "push to B", "pop from B" };

#define MAXOPS 2
static int prog[3][MAXOPS], proglen[3], fails[3];
static int ntx;
static unsigned long obs[3][MAXOPS], obs_final[3][MAXOPS];

struct model { int n[2]; int e[2][NE]; };
static struct model init_m, fin_m;

static int id_of(const void* p) { return (int)((const struct ent*)p - pool); }
static int newent(int t, int i) { return 4 + t * MAXOPS + i; }

static void m_ins(struct model* m, int c, int pos, int id)
{
    memmove(&m->e[c][pos + 1], &m->e[c][pos], sizeof(int) * (m->n[c] - pos));
    m->e[c][pos] = id;
    m->n[c]++;
}
static int m_del(struct model* m, int c, int pos)
{
    int id = m->e[c][pos];
    memmove(&m->e[c][pos], &m->e[c][pos + 1], sizeof(int) * (m->n[c] - pos - 1));
    m->n[c]--;
    return id;
}
static void m_push(struct model* m, int c, int id)
{
    int p = m->n[c];
    /* equal keys: new entries come first (any order is accepted by comparing keys only) */
    if (kind == K_SET) for (p = 0; p < m->n[c] && keys[m->e[c][p]] < keys[id]; p++) ;
    m_ins(m, c, p, id);
}
static int m_pop(struct model* m, int c) { return m->n[c] ? m_del(m, c, kind == K_STACK ? m->n[c] - 1 : 0) : -1; }
/* entries with equal keys are not told apart */
static unsigned long val(int id) { return id < 0 ? 0 : kind == K_SET ? keys[id] : id + 1; }

static unsigned long m_iter(const struct model* m, int c)
{
    unsigned long v = 0;
    for (int i = 0; i < m->n[c]; i++) v = v * 13 + val(m->e[c][i]);
    return v;
}

static bool exec_model(int t, void* s)
{
    struct model* m = s;
    if (fails[t]) {
        /* never happened; what it saw must still be consistent */
        struct model c = *m;
        fails[t] = 0;
        bool r = exec_model(t, &c);
        fails[t] = 1;
        return r;
    }
    for (int i = 0; i < proglen[t]; i++) {
        unsigned long v = 0;
        int id;
        switch (prog[t][i]) {
        case PUSH: m_push(m, 0, newent(t, i)); break;
        case PUSHF: m_ins(m, 0, 0, newent(t, i)); break;
        case PUSHB_B: m_push(m, 1, newent(t, i)); break;
        case POP: v = val(m_pop(m, 0)); break;
        case POP_B: v = val(m_pop(m, 1)); break;
        case POPB: v = val(m->n[0] ? m_del(m, 0, m->n[0] - 1) : -1); break;
        case SIZE: v = m->n[0]; break;
        case EMPTY: v = !m->n[0]; break;
        case PEEK: v = val(m->n[0] ? m->e[0][kind == K_STACK ? m->n[0] - 1 : 0] : -1); break;
        case ITER: v = m_iter(m, 0); break;
        case MOVE: id = m_pop(m, 0); v = val(id); if (id >= 0) m_push(m, 1, id); break;
        case ERASE:
            for (int k = 0; k < m->n[0]; k++) if (m->e[0][k] == 1) { m_del(m, 0, k); v = 1; break; }
            break;
        }
        if (v != obs_final[t][i]) return false;
    }
    return true;
}

static bool final_model(const void* s)
{
    const struct model* m = s;
    for (int c = 0; c < 2; c++) {
        if (m->n[c] != fin_m.n[c]) return false;
        if (kind == K_SET) {
            unsigned a = 0, b = 0;
            for (int i = 0; i < m->n[c]; i++) { a |= 1u << m->e[c][i]; b |= 1u << fin_m.e[c][i]; }
            if (a != b) return false;
        } else if (memcmp(m->e[c], fin_m.e[c], m->n[c] * sizeof(int)))
            return false;
    }
    return true;
}

static const void* key_of(struct txmultiset_entry* e) { return &((struct ent*)e)->key; }
static int cmp_keys(const void* a, const void* b) { int x = *(const int*)a, y = *(const int*)b; return (x > y) - (x < y); }

static void push(int c, int id)
{
    struct ent* e = &pool[id];
    switch (kind) {
    case K_LIST: txlist_push_back_tx(txlist_of_state_tx(&st[c].l), &e->u.l); break;
    case K_SET: txmultiset_insert_tx(txmultiset_of_state_tx(&st[c].m), &e->u.m); break;
    case K_QUEUE: txqueue_push_tx(txqueue_of_state_tx(&st[c].q), &e->u.q); break;
    case K_STACK: txstack_push_tx(txstack_of_state_tx(&st[c].s), &e->u.s); break;
    }
}

static int pop(int c, bool back, bool remove)
{
    void* e = NULL;
    switch (kind) {
    case K_LIST: {
        struct txlist* l = txlist_of_state_tx(&st[c].l);
        if (txlist_empty_tx(l)) return -1;
        e = back ? txlist_back_tx(l) : txlist_front_tx(l);
        if (remove) { if (back) txlist_pop_back_tx(l); else txlist_pop_front_tx(l); }
        break;
    }
    case K_SET: {
        struct txmultiset* m = txmultiset_of_state_tx(&st[c].m);
        if (txmultiset_empty_tx(m)) return -1;
        e = txmultiset_begin_tx(m);
        if (back) e = txmultiset_entry_prev_tx(txmultiset_end_tx(m));
        if (remove) txmultiset_erase_tx(m, e);
        break;
    }
    case K_QUEUE: {
        struct txqueue* q = txqueue_of_state_tx(&st[c].q);
        if (txqueue_empty_tx(q)) return -1;
        e = txqueue_front_tx(q);
        if (remove) txqueue_pop_tx(q);
        break;
    }
    case K_STACK: {
        struct txstack* s = txstack_of_state_tx(&st[c].s);
        if (txstack_empty_tx(s)) return -1;
        e = txstack_top_tx(s);
        if (remove) txstack_pop_tx(s);
        break;
    }
    }
    int id = id_of(e);
    mc_check(id >= 0 && id < NE, "foreign entry", "the container returns an entry that was never inserted");
    return id;
}

static void do_ops(int t)
{
    for (int i = 0; i < proglen[t]; i++) {
        unsigned long v = 0;
        int id, n = 0;
        switch (prog[t][i]) {
        case PUSH: push(0, newent(t, i)); break;
        case PUSHF: txlist_push_front_tx(txlist_of_state_tx(&st[0].l), &pool[newent(t, i)].u.l); break;
        case PUSHB_B: push(1, newent(t, i)); break;
        case POP: v = val(pop(0, false, true)); break;
        case POP_B: v = val(pop(1, false, true)); break;
        case POPB: v = val(pop(0, true, true)); break;
        case PEEK: v = val(pop(0, false, false)); break;
        case MOVE: id = pop(0, false, true); v = val(id); if (id >= 0) push(1, id); break;
        case SIZE: case EMPTY:
            switch (kind) {
            case K_LIST: { struct txlist* l = txlist_of_state_tx(&st[0].l); v = prog[t][i] == SIZE ? txlist_size_tx(l) : txlist_empty_tx(l); break; }
            case K_SET: { struct txmultiset* m = txmultiset_of_state_tx(&st[0].m); v = prog[t][i] == SIZE ? txmultiset_size_tx(m) : txmultiset_empty_tx(m); break; }
            case K_QUEUE: { struct txqueue* q = txqueue_of_state_tx(&st[0].q); v = prog[t][i] == SIZE ? txqueue_size_tx(q) : txqueue_empty_tx(q); break; }
            case K_STACK: { struct txstack* s = txstack_of_state_tx(&st[0].s); v = prog[t][i] == SIZE ? txstack_size_tx(s) : txstack_empty_tx(s); break; }
            }
            break;
        case ITER: case ERASE:
            if (kind == K_LIST) {
                struct txlist* l = txlist_of_state_tx(&st[0].l);
                struct txlist_entry* found = NULL;
                for (struct txlist_entry* p = txlist_begin_tx(l); p != txlist_end_tx(l); p = txlist_entry_next_tx(p)) {
                    mc_check(n++ < NE, "loop", "iteration does not end");
                    v = v * 13 + val(id_of(p));
                    if (id_of(p) == 1) found = p;
                }
                if (prog[t][i] == ERASE) { v = !!found; if (found) txlist_erase_tx(l, found); }
            } else {
                struct txmultiset* m = txmultiset_of_state_tx(&st[0].m);
                struct txmultiset_entry* found = NULL;
                for (struct txmultiset_entry* p = txmultiset_begin_tx(m); p != txmultiset_end_tx(m); p = txmultiset_entry_next_tx(p)) {
                    mc_check(n++ < NE, "loop", "iteration does not end");
                    v = v * 13 + val(id_of(p));
                    if (id_of(p) == 1) found = p;
                }
                if (prog[t][i] == ERASE) { v = !!found; if (found) txmultiset_erase_tx(m, found); }
            }
            break;
        }
        obs[t][i] = v;
    }
}

static void thread_fn(int t)
{
    ser_begin(t);
    picotm_begin
        if (picotm_number_of_restarts()) mc_yield();
        do_ops(t);
        if (fails[t]) {
            memcpy(obs_final[t], obs[t], sizeof obs[t]);
            picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
        }
    picotm_commit
        if (!fails[t]) mc_fail("unexpected recovery", "transaction %d entered recovery, status %d", t, (int)picotm_error_status());
    picotm_end
    ser_commit(t);
    memcpy(obs_final[t], obs[t], sizeof obs[t]);
    picotm_release();
}

static int ncoll;
static void coll(const void* p)
{
    int id = id_of(p), c = ncoll;
    mc_check(id >= 0 && id < NE && fin_m.n[c] < NE, "foreign entry", "the container holds an unknown entry");
    fin_m.e[c][fin_m.n[c]++] = id;
}
static void un_l(struct txlist_entry* e, void* d) { (void)d; coll(e); }
static void un_m(struct txmultiset_entry* e, void* d) { (void)d; coll(e); }
static void un_q(struct txqueue_entry* e, void* d) { (void)d; coll(e); }
static void un_s(struct txstack_entry* e, void* d) { (void)d; coll(e); }

static void finish(void)
{
    memset(&fin_m, 0, sizeof fin_m);
    for (ncoll = 0; ncoll < 2; ncoll++) {
        int c = ncoll;
        switch (kind) {
        case K_LIST: txlist_state_clear_and_uninit_entries(&st[c].l, un_l, NULL); txlist_state_uninit(&st[c].l); break;
        case K_SET: txmultiset_state_clear_and_uninit_entries(&st[c].m, un_m, NULL); txmultiset_state_uninit(&st[c].m); break;
        case K_QUEUE: txqueue_state_clear_and_uninit_entries(&st[c].q, un_q, NULL); txqueue_state_uninit(&st[c].q); break;
        case K_STACK:
            txstack_state_clear_and_uninit_entries(&st[c].s, un_s, NULL); txstack_state_uninit(&st[c].s);
            for (int i = 0; i < fin_m.n[c] / 2; i++) { int* e = fin_m.e[c]; int x = e[i]; e[i] = e[fin_m.n[c] - 1 - i]; e[fin_m.n[c] - 1 - i] = x; }
            break;
        }
        if (kind == K_SET)
            for (int i = 1; i < fin_m.n[c]; i++) mc_check(keys[fin_m.e[c][i]] >= keys[fin_m.e[c][i - 1]], "order", "the multiset is not sorted");
        mc_outcome(m_iter(&fin_m, c));
    }
    for (int t = 0; t < ntx; t++) for (int i = 0; i < proglen[t]; i++) mc_outcome(obs_final[t][i]);
    if (!ser_search(ntx, 0, &init_m, sizeof init_m, exec_model, final_model)) {
        char b[900];
        int o = 0;
        for (int t = 0; t < ntx; t++) {
            o += snprintf(b + o, sizeof b - o, " T%d{", t);
            for (int i = 0; i < proglen[t]; i++) o += snprintf(b + o, sizeof b - o, "%s=%lu; ", opn[prog[t][i]], obs_final[t][i]);
            o += snprintf(b + o, sizeof b - o, "%s}", fails[t] ? "error" : "commit");
        }
        for (int c = 0; c < 2; c++) {
            o += snprintf(b + o, sizeof b - o, " %c:", 'A' + c);
            for (int i = 0; i < fin_m.n[c]; i++) o += snprintf(b + o, sizeof b - o, "%d ", fin_m.e[c][i]);
        }
        mc_fail("not serializable", "no serial order explains%s", b);
    }
}

static void setup(int nfill)
{
    ser_clock = 0;
    memset(ser_tx, 0, sizeof ser_tx);
    memset(obs, 0, sizeof obs);
    memset(&init_m, 0, sizeof init_m);
    for (int i = 0; i < NE; i++) {
        pool[i].key = keys[i];
        switch (kind) {
        case K_LIST: txlist_entry_init(&pool[i].u.l); break;
        case K_SET: txmultiset_entry_init(&pool[i].u.m); break;
        case K_QUEUE: txqueue_entry_init(&pool[i].u.q); break;
        case K_STACK: txstack_entry_init(&pool[i].u.s); break;
        }
    }
    for (int c = 0; c < 2; c++)
        switch (kind) {
        case K_LIST: txlist_state_init(&st[c].l); break;
        case K_SET: txmultiset_state_init(&st[c].m, key_of, cmp_keys); break;
        case K_QUEUE: txqueue_state_init(&st[c].q); break;
        case K_STACK: txstack_state_init(&st[c].s); break;
        }
    for (int i = 0; i < nfill; i++) m_push(&init_m, 0, i);
    picotm_begin
        for (int i = 0; i < nfill; i++) push(0, i);
        txlist_of_state_tx(&st[0].l); /* takes part in txlib even if empty */
    picotm_commit
        mc_fail("recovery", "filling fails");
    picotm_end
}

static const int alpha[4][12] = {
    { PUSH, POP, ITER, MOVE, PUSHF, ERASE, POPB, SIZE, POP_B, -1 },
    { PUSH, POP, ITER, MOVE, ERASE, SIZE, POP_B, -1 },
    { PUSH, POP, PEEK, MOVE, SIZE, EMPTY, PUSHB_B, POP_B, -1 },
    { PUSH, POP, PEEK, MOVE, SIZE, EMPTY, PUSHB_B, POP_B, -1 },
};
static int nalpha(int k) { int n = 0; while (alpha[k][n] >= 0) n++; return n; }

static bool writes(int o) { return o != SIZE && o != EMPTY && o != PEEK && o != ITER; }

/* variant: kind and first operation of both programs; the rest is chosen */
static void sc_pairs(int v)
{
    kind = v % 4;
    v /= 4;
    int n = nalpha(kind);
    ntx = 2;
    /* unordered pairs of first operations */
    int a = 0, b = 0, k = 0;
    bool hit = false;
    for (a = 0; a < n && !hit; a++)
        for (b = a; b < n && !hit; b++)
            if (k++ == v) { hit = true; prog[0][0] = alpha[kind][a]; prog[1][0] = alpha[kind][b]; }
    if (!hit) mc_prune();
    proglen[0] = proglen[1] = 2;
    prog[0][1] = alpha[kind][mc_choose(mc_tier_thorough ? n : 3)];
    prog[1][1] = alpha[kind][mc_tier_thorough ? mc_choose(n) : 2 + mc_choose(2)];
    if (!writes(prog[0][0]) && !writes(prog[0][1]) && !writes(prog[1][0]) && !writes(prog[1][1])) mc_prune();
    fails[0] = fails[1] = 0;
    fails[mc_tier_thorough ? mc_choose(2) : (a + b) % 2] = mc_tier_thorough ? mc_choose(2) : (prog[0][1] + prog[1][1]) % 2;
    setup(mc_tier_thorough ? mc_choose(4) : 1 + (prog[0][0] + prog[1][1]) % 2);
    for (int t = 0; t < 2; t++) mc_note("program T%d: %s, %s, %s", t, opn[prog[t][0]], opn[prog[t][1]], fails[t] ? "error" : "commit");
    mc_run_threads(2, thread_fn);
    finish();
}

static void sc_triples(int v)
{
    kind = v % 4;
    v /= 4;
    static const int pat[][3][2] = {
        { { POP, PUSH }, { POP, PUSH }, { POP, -1 } },
        { { PUSH, -1 }, { POP, -1 }, { MOVE, -1 } },
        { { MOVE, POP }, { POP_B, PUSH }, { PUSH, -1 } },
        { { SIZE, PUSH }, { SIZE, PUSH }, { POP, -1 } },
        { { PUSH, POP }, { PUSH, PUSH }, { MOVE, -1 } },
    };
    ntx = 3;
    for (int t = 0; t < 3; t++) {
        proglen[t] = pat[v][t][1] < 0 ? 1 : 2;
        prog[t][0] = pat[v][t][0];
        prog[t][1] = pat[v][t][1];
        fails[t] = 0;
    }
    setup(2);
    mc_run_threads(3, thread_fn);
    finish();
}

static void sc_deep(int v)
{
    static const int pat[][2][2] = {
        { { POP, PUSH }, { POP, -1 } },
        { { MOVE, -1 }, { PUSH, POP } },
        { { SIZE, PUSH }, { PUSH, -1 } },
        { { POP, -1 }, { POP_B, PUSH } },
    };
    kind = v % 4;
    v /= 4;
    ntx = 2;
    for (int t = 0; t < 2; t++) {
        proglen[t] = pat[v][t][1] < 0 ? 1 : 2;
        prog[t][0] = pat[v][t][0];
        prog[t][1] = pat[v][t][1];
        fails[t] = 0;
    }
    setup(v & 1 ? 2 : 1);
    mc_run_threads(2, thread_fn);
    finish();
}

static const struct mc_scenario sc[] = {
    { "triples", sc_triples, 20, MC_RACE, 1, 2, 30, 250, "three threads with conflicting programs on one container type" },
    { "deep", sc_deep, 16, MC_RACE, 2, 3, 40, 150, "selected pairs with a larger preemption bound" },
    { "pairs", sc_pairs, 45 * 4, MC_RACE, 1, 2, 40, 400, "pairs of two-operation programs on lists, multisets, queues and stacks" },
};

int main(int argc, char* argv[])
{
    static const char* const as[] = { "sequentially consistent interleavings of picotm's atomics and pthread calls; missing acquire/release ordering is reported as a data race", "two or three threads, one transaction each, at most two operations", NULL };
    return mc_main(argc, argv, "P14", sc, sizeof sc / sizeof *sc, as);
}
