/* P11 lists, P12 multisets, P13 queues (kind 0) and stacks (kind 1); chosen by
 * PROP.  Sequential: every history of container operations and transaction
 * ends up to a depth, over two containers sharing a pool of entries, against a
 * model that is a plain sequence (sorted multiset). */
#include "mc.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-txlib.h"
#include "picotm/picotm-txlist.h"
#include "picotm/picotm-txlist-state.h"
#include "picotm/picotm-txmultiset.h"
#include "picotm/picotm-txmultiset-state.h"
#include "picotm/picotm-txqueue.h"
#include "picotm/picotm-txqueue-state.h"
#include "picotm/picotm-txstack.h"
#include "picotm/picotm-txstack-state.h"
#include <errno.h>
#include <string.h>

#define NE 8
#define NEMAX 312
static int ne = NE; /* entries in use; more in sc_many */
enum { K_LIST, K_SET, K_QUEUE, K_STACK };
static int kind;

struct ent {
    union { struct txlist_entry l; struct txmultiset_entry m; struct txqueue_entry q; struct txstack_entry s; } u;
    int key;
};
static struct ent pool[NEMAX];
static union { struct txlist_state l; struct txmultiset_state m; struct txqueue_state q; struct txstack_state s; } st[2];
static const int keys0[NE] = { 2, 1, 3, 2, 1, 3, 2, 2 };
static int keys[NEMAX], keymax;

/* model: ids in order */
struct model { int n[2]; int e[2][NEMAX]; };
static struct model cur, base;
static void m_copy(struct model* d, const struct model* s)
{
    for (int c = 0; c < 2; c++) { d->n[c] = s->n[c]; memcpy(d->e[c], s->e[c], s->n[c] * sizeof(int)); }
}

static int id_of(const void* p) { return (int)((const struct ent*)p - pool); }
static bool in_use(int id)
{
    for (int c = 0; c < 2; c++) for (int i = 0; i < cur.n[c]; i++) if (cur.e[c][i] == id) return true;
    return false;
}
static int free_ent(int key) /* lowest free entry, key 0: any */
{
    for (int i = 0; i < ne; i++) if (!in_use(i) && (!key || keys[i] == key)) return i;
    return -1;
}
static void m_insert(int c, int pos, int id)
{
    memmove(&cur.e[c][pos + 1], &cur.e[c][pos], sizeof(int) * (cur.n[c] - pos));
    cur.e[c][pos] = id;
    cur.n[c]++;
}
static int m_erase(int c, int pos)
{
    int id = cur.e[c][pos];
    memmove(&cur.e[c][pos], &cur.e[c][pos + 1], sizeof(int) * (cur.n[c] - pos - 1));
    cur.n[c]--;
    return id;
}

static const void* key_of(struct txmultiset_entry* e) { return &((struct ent*)e)->key; }
static int cmp_keys(const void* a, const void* b) { int x = *(const int*)a, y = *(const int*)b; return (x > y) - (x < y); }

static void init_all(void)
{
    cur.n[0] = cur.n[1] = 0;
    if (!keymax) { ne = NE; memcpy(keys, keys0, sizeof keys0); keymax = 3; }
    for (int i = 0; i < ne; i++) {
        memset(&pool[i], 0xA5, sizeof pool[i]);
        pool[i].key = keys[i];
        switch (kind) {
        case K_LIST: txlist_entry_init(&pool[i].u.l); break;
        case K_SET: txmultiset_entry_init(&pool[i].u.m); break;
        case K_QUEUE: txqueue_entry_init(&pool[i].u.q); break;
        case K_STACK: txstack_entry_init(&pool[i].u.s); break;
        }
    }
    for (int c = 0; c < 2; c++)
        switch (kind) {
        case K_LIST: txlist_state_init(&st[c].l); break;
        case K_SET: txmultiset_state_init(&st[c].m, key_of, cmp_keys); break;
        case K_QUEUE: txqueue_state_init(&st[c].q); break;
        case K_STACK: txstack_state_init(&st[c].s); break;
        }
}

static void show(char* b, const int* e, int n) { *b = 0; for (int i = 0; i < n; i++) b += sprintf(b, "%d%s", e[i], i + 1 < n ? " " : ""); }

static void same(int c, const int* got, int n, const char* sig, const char* what)
{
    bool ok = n == cur.n[c];
    if (kind == K_SET) {
        static char seen[NEMAX];
        memset(seen, 0, ne);
        for (int i = 0; ok && i < n; i++) {
            if (i && keys[got[i]] < keys[got[i - 1]]) ok = false;
            if (seen[got[i]]) ok = false;
            seen[got[i]] = 1;
        }
        for (int i = 0; ok && i < n; i++) if (!seen[cur.e[c][i]]) ok = false;
    } else
        ok = ok && !memcmp(got, cur.e[c], n * sizeof(int));
    if (!ok) {
        static char a[NEMAX * 5], b[NEMAX * 5];
        show(a, got, n);
        show(b, cur.e[c], cur.n[c]);
        mc_fail(sig, "%s: container %d holds {%s}, expected {%s}", what, c, a, b);
    }
}

static int coll[NEMAX + 2], ncoll;
static void collect(const void* p)
{
    int id = id_of(p);
    if (id < 0 || id >= ne || ncoll > ne) mc_fail("foreign entry", "a container holds an entry that was never inserted, or loops");
    coll[ncoll++] = id;
}
static void un_l(struct txlist_entry* e, void* d) { (void)d; collect(e); txlist_entry_uninit(e); }
static void un_m(struct txmultiset_entry* e, void* d) { (void)d; collect(e); txmultiset_entry_uninit(e); }
static void un_q(struct txqueue_entry* e, void* d) { (void)d; collect(e); txqueue_entry_uninit(e); }
static void un_s(struct txstack_entry* e, void* d) { (void)d; collect(e); txstack_entry_uninit(e); }

/* takes the containers apart with the non-transactional interface */
static void uninit_all(const char* sig)
{
    bool was[NEMAX] = { false };
    for (int c = 0; c < 2; c++) {
        ncoll = 0;
        switch (kind) {
        case K_LIST: txlist_state_clear_and_uninit_entries(&st[c].l, un_l, NULL); break;
        case K_SET: txmultiset_state_clear_and_uninit_entries(&st[c].m, un_m, NULL); break;
        case K_QUEUE: txqueue_state_clear_and_uninit_entries(&st[c].q, un_q, NULL); break;
        case K_STACK: txstack_state_clear_and_uninit_entries(&st[c].s, un_s, NULL); break;
        }
        if (kind == K_STACK) /* comes top first */
            for (int i = 0; i < ncoll / 2; i++) { int t = coll[i]; coll[i] = coll[ncoll - 1 - i]; coll[ncoll - 1 - i] = t; }
        same(c, coll, ncoll, sig, "at the end");
        for (int i = 0; i < ncoll; i++) was[coll[i]] = true;
        switch (kind) {
        case K_LIST: txlist_state_uninit(&st[c].l); break;
        case K_SET: txmultiset_state_uninit(&st[c].m); break;
        case K_QUEUE: txqueue_state_uninit(&st[c].q); break;
        case K_STACK: txstack_state_uninit(&st[c].s); break;
        }
    }
    for (int i = 0; i < ne; i++) {
        if (was[i]) continue;
        /* an entry outside of containers is not linked to anything; the
         * library asserts so */
        switch (kind) {
        case K_LIST: txlist_entry_uninit(&pool[i].u.l); break;
        case K_SET: txmultiset_entry_uninit(&pool[i].u.m); break;
        case K_QUEUE: txqueue_entry_uninit(&pool[i].u.q); break;
        case K_STACK: txstack_entry_uninit(&pool[i].u.s); break;
        }
    }
}

/* everything observable of container c in the running transaction */
static void queries(int c)
{
    int n = cur.n[c];
    const int* e = cur.e[c];
    switch (kind) {
    case K_LIST: {
        struct txlist* l = txlist_of_state_tx(&st[c].l);
        mc_check(txlist_size_tx(l) == (size_t)n, "size", "txlist_size_tx is %zu, expected %d", txlist_size_tx(l), n);
        mc_check(txlist_empty_tx(l) == !n, "empty", "txlist_empty_tx is wrong with %d entries", n);
        ncoll = 0;
        for (struct txlist_entry* p = txlist_begin_tx(l); p != txlist_end_tx(l); p = txlist_entry_next_tx(p)) collect(p);
        same(c, coll, ncoll, "iteration", "forward iteration");
        if (n) {
            mc_check(id_of(txlist_front_tx(l)) == e[0], "front", "txlist_front_tx");
            mc_check(id_of(txlist_back_tx(l)) == e[n - 1], "back", "txlist_back_tx");
            ncoll = 0;
            for (struct txlist_entry* p = txlist_end_tx(l); p != txlist_begin_tx(l);) collect(p = txlist_entry_prev_tx(p));
            for (int i = 0; i < ncoll / 2; i++) { int t = coll[i]; coll[i] = coll[ncoll - 1 - i]; coll[ncoll - 1 - i] = t; }
            same(c, coll, ncoll, "iteration", "backward iteration");
        }
        break;
    }
    case K_SET: {
        struct txmultiset* m = txmultiset_of_state_tx(&st[c].m);
        mc_check(txmultiset_size_tx(m) == (size_t)n, "size", "txmultiset_size_tx is %zu, expected %d", txmultiset_size_tx(m), n);
        mc_check(txmultiset_empty_tx(m) == !n, "empty", "txmultiset_empty_tx is wrong with %d entries", n);
        struct txmultiset_entry* end = txmultiset_end_tx(m);
        static struct txmultiset_entry* order[NEMAX + 1];
        ncoll = 0;
        for (struct txmultiset_entry* p = txmultiset_begin_tx(m); p != end; p = txmultiset_entry_next_tx(p)) { order[ncoll < ne ? ncoll : ne] = p; collect(p); }
        same(c, coll, ncoll, "iteration", "forward iteration");
        if (n) {
            struct txmultiset_entry* p = end;
            for (int i = n - 1; i >= 0; i--) {
                p = txmultiset_entry_prev_tx(p);
                mc_check(p == order[i], "iteration", "backward iteration differs from forward iteration at position %d", i);
            }
        }
        for (int k = 0; k <= keymax + 1; k++) {
            int cnt = 0, first = -1, after = -1;
            for (int i = 0; i < n; i++) {
                int x = ((struct ent*)order[i])->key;
                if (x == k) { cnt++; if (first < 0) first = i; }
                if (x > k && after < 0) after = i;
            }
            mc_check(txmultiset_count_tx(m, &k) == (size_t)cnt, "count", "txmultiset_count_tx(%d) is %zu, expected %d", k, txmultiset_count_tx(m, &k), cnt);
            struct txmultiset_entry* f = txmultiset_find_tx(m, &k);
            struct txmultiset_entry* lo = txmultiset_lower_bound_tx(m, &k);
            struct txmultiset_entry* up = txmultiset_upper_bound_tx(m, &k);
            struct txmultiset_entry* past = after < 0 ? end : order[after];
            if (cnt) {
                mc_check(f != end && ((struct ent*)f)->key == k, "find", "txmultiset_find_tx(%d) does not return an entry with the key", k);
                mc_check(lo == order[first], "lower bound", "txmultiset_lower_bound_tx(%d) does not return the first entry with the key", k);
                mc_check(up == past, "upper bound", "txmultiset_upper_bound_tx(%d) does not return the entry after the last one with the key", k);
            } else {
                mc_check(f == end, "find", "txmultiset_find_tx(%d) finds an entry, but there is none", k);
                /* the documentation leaves open where the empty range lies */
                mc_check(lo == up && (lo == end || lo == past), "empty range", "the range of the absent key %d is not empty", k);
            }
        }
        break;
    }
    case K_QUEUE: {
        struct txqueue* q = txqueue_of_state_tx(&st[c].q);
        mc_check(txqueue_size_tx(q) == (size_t)n, "size", "txqueue_size_tx is %zu, expected %d", txqueue_size_tx(q), n);
        mc_check(txqueue_empty_tx(q) == !n, "empty", "txqueue_empty_tx is wrong with %d entries", n);
        if (n) {
            mc_check(id_of(txqueue_front_tx(q)) == e[0], "front", "txqueue_front_tx is entry %d, expected %d", id_of(txqueue_front_tx(q)), e[0]);
            mc_check(id_of(txqueue_back_tx(q)) == e[n - 1], "back", "txqueue_back_tx is entry %d, expected %d", id_of(txqueue_back_tx(q)), e[n - 1]);
        }
        break;
    }
    case K_STACK: {
        struct txstack* s = txstack_of_state_tx(&st[c].s);
        mc_check(txstack_size_tx(s) == (size_t)n, "size", "txstack_size_tx is %zu, expected %d", txstack_size_tx(s), n);
        mc_check(txstack_empty_tx(s) == !n, "empty", "txstack_empty_tx is wrong with %d entries", n);
        if (n) mc_check(id_of(txstack_top_tx(s)) == e[n - 1], "top", "txstack_top_tx is entry %d, expected %d", id_of(txstack_top_tx(s)), e[n - 1]);
        break;
    }
    }
    mc_cases(1);
}

enum { PUSHF, PUSHB, INS, ERASE, POPF, POPB, CLEAR, END_COMMIT, END_ERROR, END_RESTART };
struct op { int k, c, a, b; };
static struct op en[128];
static int nen;
static volatile int left, want_rec, got_rec, attempts, oom;
static void add(int k, int c, int a, int b) { if (nen < 128) en[nen++] = (struct op){ k, c, a, b }; }

static void enabled(bool two, int max)
{
    nen = 0;
    for (int c = 0; c < (two ? 2 : 1); c++) {
        int n = cur.n[c], f = n < max ? free_ent(0) : -1;
        switch (kind) {
        case K_LIST:
            if (f >= 0) {
                add(PUSHB, c, f, 0);
                if (!c) { add(PUSHF, c, f, 0); for (int i = 0; i <= n; i++) add(INS, c, f, i); }
            }
            for (int i = 0; i < n; i++) add(ERASE, c, i, 0);
            if (n && !c) { add(POPF, c, 0, 0); add(POPB, c, 0, 0); }
            if (!c || n) add(CLEAR, c, 0, 0);
            break;
        case K_SET:
            if (n < max)
                for (int k = 1; k <= 3; k++) { f = free_ent(k); if (f >= 0) add(INS, c, f, 0); }
            for (int i = 0; i < n; i++) add(ERASE, c, i, 0);
            if (!c || n) add(CLEAR, c, 0, 0);
            break;
        case K_QUEUE: case K_STACK:
            if (f >= 0) add(PUSHB, c, f, 0);
            if (n) add(kind == K_QUEUE ? POPF : POPB, c, 0, 0);
            break;
        }
    }
    add(END_COMMIT, 0, 0, 0);
    add(END_ERROR, 0, 0, 0);
    if (attempts < 4) add(END_RESTART, 0, 0, 0);
}

static void do_op(const struct op* o)
{
    static const char* const nm[] = { "push_front", "push_back", "insert", "erase", "pop_front", "pop_back", "clear", "commit", "error", "restart" };
    mc_note("%s container %d (%d %d)", nm[o->k], o->c, o->a, o->b);
    int c = o->c;
    struct ent* e = o->k <= INS ? &pool[o->a] : o->k == ERASE ? &pool[cur.e[c][o->a]] : NULL;
    /* the real operation first: if it aborts, the model must not have it */
    switch (kind) {
    case K_LIST: {
        struct txlist* l = txlist_of_state_tx(&st[c].l);
        switch (o->k) {
        case PUSHF: txlist_push_front_tx(l, &e->u.l); break;
        case PUSHB: txlist_push_back_tx(l, &e->u.l); break;
        case INS: txlist_insert_tx(l, &e->u.l, o->b < cur.n[c] ? &pool[cur.e[c][o->b]].u.l : txlist_end_tx(l)); break;
        case ERASE: txlist_erase_tx(l, &e->u.l); break;
        case POPF: txlist_pop_front_tx(l); break;
        case POPB: txlist_pop_back_tx(l); break;
        case CLEAR: txlist_clear_tx(l); break;
        }
        break;
    }
    case K_SET: {
        struct txmultiset* m = txmultiset_of_state_tx(&st[c].m);
        switch (o->k) {
        case INS: txmultiset_insert_tx(m, &e->u.m); break;
        case ERASE: txmultiset_erase_tx(m, &e->u.m); break;
        case CLEAR: txmultiset_clear_tx(m); break;
        }
        break;
    }
    case K_QUEUE: {
        struct txqueue* q = txqueue_of_state_tx(&st[c].q);
        if (o->k == PUSHB) txqueue_push_tx(q, &e->u.q); else txqueue_pop_tx(q);
        break;
    }
    case K_STACK: {
        struct txstack* s = txstack_of_state_tx(&st[c].s);
        if (o->k == PUSHB) txstack_push_tx(s, &e->u.s); else txstack_pop_tx(s);
        break;
    }
    }
    switch (o->k) {
    case PUSHF: m_insert(c, 0, o->a); break;
    case PUSHB: m_insert(c, cur.n[c], o->a); break;
    case INS: {
        int p = o->b;
        if (kind == K_SET) for (p = 0; p < cur.n[c] && keys[cur.e[c][p]] < keys[o->a]; p++) ;
        m_insert(c, p, o->a);
        break;
    }
    case ERASE: m_erase(c, o->a); break;
    case POPF: m_erase(c, 0); break;
    case POPB: m_erase(c, cur.n[c] - 1); break;
    case CLEAR: cur.n[c] = 0; break;
    }
}

static int eager, two, maxn, big;

/* one transaction, until a transaction end is chosen or the depth is used up */
static void run_tx(void)
{
    want_rec = got_rec = attempts = 0;
    m_copy(&base, &cur);
    picotm_begin
        if (attempts) m_copy(&cur, &base); /* rolled back */
        attempts++;
        if (attempts > 5) mc_fail("unexpected restart", "the transaction restarts again and again");
        if (attempts > 1) { queries(0); if (two) queries(1); }
        for (;;) {
            if (left <= 0) {
                if (!eager) { queries(0); if (two) queries(1); }
                if (attempts > 1) break;
                int k = mc_choose(3);
                if (k == 0) break;
                if (k == 1) { want_rec = 1; picotm_recover_from_error_code(PICOTM_GENERAL_ERROR); }
                mc_note("restart");
                picotm_resolve_conflict(NULL);
            }
            enabled(two, maxn);
            struct op o = en[mc_choose(nen)];
            left--;
            if (o.k == END_COMMIT) { mc_note("commit"); if (!eager) { queries(0); if (two) queries(1); } break; }
            if (o.k == END_ERROR) { mc_note("error"); want_rec = 1; picotm_recover_from_error_code(PICOTM_GENERAL_ERROR); }
            if (o.k == END_RESTART) { mc_note("restart"); picotm_resolve_conflict(NULL); }
            do_op(&o);
            if (eager) { queries(0); if (two) queries(1); }
        }
    picotm_commit
        got_rec = 1;
        m_copy(&cur, &base);
        if (oom && !want_rec)
            mc_check(picotm_error_status() == PICOTM_ERRNO && picotm_error_as_errno() == ENOMEM, "recovery", "recovery with status %d after a failed allocation", (int)picotm_error_status());
        else
            mc_check(want_rec, "recovery", "unexpected recovery, status %d", (int)picotm_error_status());
    picotm_end
    if (want_rec && !got_rec) mc_fail("recovery", "the transaction did not run its recovery code");
}

static void fill(int n)
{
    static const int order[4][5] = { { 0, 1, 2, 3, 4 }, { 2, 1, 0, 4, 3 }, { 1, 0, 3, 2, 5 }, { 0, 3, 1, 6, 2 } };
    if (!n) return;
    int o = kind == K_SET ? mc_choose(4) : 0;
    struct model m0; m_copy(&m0, &cur);
    picotm_begin
        m_copy(&cur, &m0);
        for (int i = 0; i < n; i++) {
            struct op p = { kind == K_SET ? INS : PUSHB, 0, order[o][i], 0 };
            do_op(&p);
        }
        if (two) { struct op p = { kind == K_SET ? INS : PUSHB, 1, 7, 0 }; do_op(&p); }
    picotm_commit
        mc_fail("recovery", "filling the container fails");
    picotm_end
}

static void setkind(int v)
{
#if PROP == 11
    (void)v; kind = K_LIST;
#elif PROP == 12
    (void)v; kind = K_SET;
#else
    kind = v % 2 ? K_STACK : K_QUEUE;
#endif
}

static void history(int v)
{
    init_all();
    eager = mc_choose(2);
    fill(big ? 4 + mc_choose(2) : mc_choose(4));
    mc_note("-- %d entries, %s", cur.n[0], eager ? "queries after each operation" : "queries at the end");
    while (left > 0) run_tx();
    for (int c = 0; c < 2; c++) { mc_outcome(cur.n[c]); for (int i = 0; i < cur.n[c]; i++) mc_outcome(cur.e[c][i]); }
    uninit_all("final contents");
}

static void sc_one(int v)
{
    setkind(v);
    big = 0;
    two = 0;
    maxn = PROP == 12 ? 6 : 5;
    oom = 0;
    int d[] = { 5, 0 };
    if (PROP == 13) d[0] = 7;
    if (mc_tier_thorough) d[0] += PROP == 13 ? 3 : 1;
    left = d[0];
    history(v);
}

static void sc_big(int v)
{
    setkind(v);
    big = 1;
    two = 0;
    maxn = 7;
    oom = 0;
    left = 3 + (mc_tier_thorough ? 1 : 0);
    history(v);
}

static void sc_two(int v)
{
    setkind(v);
    big = 0;
    two = 1;
    maxn = 3;
    oom = 0;
    left = (PROP == 13 ? 6 : 4) + (mc_tier_thorough ? PROP == 13 ? 2 : 1 : 0);
    history(v);
}

static void sc_oom(int v)
{
    setkind(v);
    two = 0;
    maxn = 4;
    oom = 1;
    left = PROP == 13 ? 4 : 3;
    init_all();
    eager = 0;
    fill(mc_choose(3));
    mc_fault_budget = 2; /* a failing allocation is tried again once */
    mc_alloc_fault = 1;
    while (left > 0) run_tx();
    mc_alloc_fault = 0;
    /* the locks are free again and a new transaction works */
    left = 0;
    eager = 1;
    struct model m0; m_copy(&m0, &cur);
    picotm_begin
        m_copy(&cur, &m0);
        if (oom++ > 4) mc_fail("lock leak", "transactions conflict after a failed allocation");
        queries(0);
        int f = free_ent(0);
        struct op p = { kind == K_SET ? INS : PUSHB, 0, f, 0 };
        do_op(&p);
        queries(0);
    picotm_commit
        mc_fail("recovery", "the transaction after a failed allocation fails");
    picotm_end
    uninit_all("contents after a failed allocation");
}

/* multisets: trees of every shape, then two erased entries */
static void shape_erase(int n)
{
    struct op p = { ERASE, 0, mc_choose(n), 0 };
    do_op(&p);
}
static void sc_shape(int v)
{
    setkind(v);
    two = 0;
    const int n = mc_tier_thorough ? 7 : 6, dup = mc_choose(2);
    int used = 0;
    for (int i = 0; i < n; i++) {
        int k = mc_choose(n - i), j = 0;
        while (used >> j & 1 || k--) j++;
        used |= 1 << j;
        keys[i] = dup ? (j + 2) / 2 : j + 1;
    }
    keys[n] = dup ? 2 : 4; keys[NE - 1] = keys[n];
    keymax = dup ? (n + 1) / 2 : n;
    init_all();
    keymax = keymax ? keymax : 1;
    picotm_begin
        for (int i = 0; i < n; i++) { struct op p = { INS, 0, i, 0 }; do_op(&p); }
    picotm_commit
        mc_fail("recovery", "filling the container fails");
    picotm_end
    static volatile int end, second;
    end = mc_choose(2); second = mc_choose(2);
    m_copy(&base, &cur); got_rec = 0;
    picotm_begin
        m_copy(&cur, &base);
        shape_erase(n);
        if (second) { queries(0); shape_erase(n - 1); }
        queries(0);
        if (end) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    picotm_commit
        got_rec = 1;
        m_copy(&cur, &base);
    picotm_end
    mc_check(got_rec == end, "recovery", "unexpected outcome of the transaction");
    picotm_begin
        queries(0);
        struct op p = { INS, 0, n, 0 };
        do_op(&p);
        queries(0);
    picotm_commit
        mc_fail("recovery", "inserting fails");
    picotm_end
    uninit_all("final contents");
    keymax = 0;
    mc_outcome(end);
}

/* many entries, inserted and removed in several orders */
static int nth(int order, int i, int n)
{
    switch (order) {
    case 0: return i;
    case 1: return n - 1 - i;
    case 2: return i & 1 ? n - 1 - i / 2 : i / 2; /* from both ends */
    default: return (int)((i * 7L + 3) % n);      /* n is no multiple of 7 */
    }
}
static void sc_many(int v)
{
    setkind(v);
    two = 0;
    static const int ns[] = { 40, 300, 17, 129 };
    static volatile int n, ins, era, per, end, m, tries, i;
    n = ns[mc_choose(mc_tier_thorough ? 4 : 2)];
    ins = mc_choose(4); era = mc_choose(4);
    per = mc_choose(2); /* entries per transaction: 8 or all */
    end = mc_choose(3);
    m = (int[]){ n / 2, n - 1, n }[mc_choose(3)];
    int dup = kind == K_SET ? mc_choose(2) : 0;
    ne = n + 1;
    for (int j = 0; j < n; j++) keys[j] = dup ? j / 3 + 1 : j + 1;
    keys[n] = n / 2;
    keymax = dup ? (n - 1) / 3 + 1 : n;
    init_all();
    for (i = 0; i < n;) {
        m_copy(&base, &cur);
        picotm_begin
            m_copy(&cur, &base);
            for (int j = i; j < n && j < i + (per ? n : 8); j++) {
                int x = nth(ins, j, n);
                struct op p = { kind == K_SET ? INS : PUSHB, 0, x, 0 };
                if (kind == K_LIST && ins == 3) p = (struct op){ INS, 0, x, cur.n[0] / 2 };
                else if (kind == K_LIST && ins == 1) p.k = PUSHF;
                do_op(&p);
            }
            queries(0);
        picotm_commit
            mc_fail("recovery", "inserting into a container of %d entries fails with status %d", cur.n[0], (int)picotm_error_status());
        picotm_end
        i += per ? n : 8;
    }
    m_copy(&base, &cur);
    got_rec = 0; tries = 0;
    picotm_begin
        m_copy(&cur, &base);
        tries++;
        queries(0);
        for (int j = 0; j < m; j++) {
            struct op p = { ERASE, 0, era == 3 ? (j * 7 + 3) % cur.n[0] : nth(era == 2 && j & 1, 0, cur.n[0]), 0 };
            if (era == 1) p.a = cur.n[0] - 1;
            if (kind == K_QUEUE) p.k = POPF;
            if (kind == K_STACK) p.k = POPB;
            do_op(&p);
        }
        queries(0);
        if (end == 1) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
        if (end == 2 && tries == 1) picotm_resolve_conflict(NULL);
    picotm_commit
        got_rec = 1;
        m_copy(&cur, &base);
    picotm_end
    mc_check(got_rec == (end == 1), "recovery", "unexpected outcome of a transaction removing %d of %d entries", m, n);
    m_copy(&base, &cur);
    picotm_begin
        m_copy(&cur, &base);
        queries(0);
        struct op p = { kind == K_SET ? INS : PUSHB, 0, n, 0 };
        do_op(&p);
        queries(0);
    picotm_commit
        mc_fail("recovery", "inserting fails");
    picotm_end
    uninit_all("final contents");
    mc_outcome(cur.n[0]);
    keymax = 0;
    ne = NE;
}

static const struct mc_scenario sc[] = {
#if PROP == 12
    { "shape", sc_shape, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 25, 400, "multisets of six (seven) entries inserted in every order, with distinct and with equal keys; one or two of them erased; committed and aborted" },
#endif
    { "one", sc_one, PROP == 13 ? 2 : 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 25, 400, "histories over one container: operations, commits, errors and restarts in any order, starting with 0 to 3 entries" },
    { "big", sc_big, PROP == 13 ? 2 : 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 25, 400, "shorter histories starting with four and five entries" },
    { "two", sc_two, PROP == 13 ? 2 : 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 25, 400, "histories over two containers exchanging entries" },
    { "many", sc_many, PROP == 13 ? 2 : 1, MC_NOPREEMPT, 0, 0, 25, 120, "40 and 300 entries, inserted and removed in several orders, in one or in many transactions; commit, error, restart" },
    { "oom", sc_oom, PROP == 13 ? 2 : 1, MC_NOPREEMPT, 0, 0, 45, 120, "histories with up to two failing allocations at every point" },
};

int main(int argc, char* argv[])
{
    static const char* const as[] = { "sequential: one thread; concurrency is checked by P14", "at most eight entries and, for multisets, keys 1 to 3; more only in the orders of the scenario many", NULL };
    return mc_main(argc, argv, PROP == 11 ? "P11" : PROP == 12 ? "P12" : "P13", sc, sizeof sc / sizeof *sc, as);
}
