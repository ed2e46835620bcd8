/* P08: sequential tree map, linked list, table and reference-counter helpers */
#include "mc.h"
#include "picotm/picotm-error.h"
#include "picotm/picotm-lib-ptr.h"
#include "picotm/picotm-lib-array.h"
#include "picotm/picotm-lib-ref.h"
#include "picotm/picotm-lib-slist.h"
#include "picotm/picotm-lib-tab.h"
#include "picotm/picotm-lib-treemap.h"
#include <errno.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>

/* ------------------------------------------------------------- tree map */
#define NK 9
static unsigned long long kset[NK];
static int nk;
static uintptr_t mval[NK];   /* model: value of each key, 0 = none */
static uintptr_t next_val;
static int create_calls, destroy_calls;
static bool create_fail;
static unsigned long long create_key;
static struct picotm_treemap tm;
static bool destroyed[64];

static uintptr_t create(unsigned long long key, struct picotm_treemap* m, struct picotm_error* e)
{
    create_calls++;
    create_key = key;
    mc_check(m == &tm, "map argument", "creator called with another map");
    if (create_fail) { picotm_error_set_error_code(e, PICOTM_OUT_OF_BOUNDS); return 0; }
    return next_val++;
}
static void destroy(uintptr_t v, struct picotm_treemap* m)
{
    mc_check(m == &tm && v >= 1 && v < next_val, "destroy of unknown value", "value_destroy called with unknown value %lu", (unsigned long)v);
    mc_check(!destroyed[v], "destroyed twice", "value %lu destroyed twice", (unsigned long)v);
    destroyed[v] = true;
    destroy_calls++;
}

static int visit_n, visit_stop;
static unsigned long long visit_prev;
static unsigned visit_mask;
static void visit(uintptr_t v, unsigned long long key, struct picotm_treemap* m, void* data, struct picotm_error* e)
{
    mc_check(data == &visit_n && m == &tm, "visit arguments", "visitor called with other arguments");
    int i;
    for (i = 0; i < nk && kset[i] != key; i++) ;
    mc_check(i < nk && mval[i] == v, "visit", "visitor called with key %llu value %lu, expected value %lu", key, (unsigned long)v, i < nk ? (unsigned long)mval[i] : 0);
    mc_check(!(visit_mask & 1u << i), "visited twice", "key %llu visited twice", key);
    visit_mask |= 1u << i;
    visit_prev = key;
    if (++visit_n == visit_stop) picotm_error_set_error_code(e, PICOTM_OUT_OF_BOUNDS);
}

static void check_all_keys(void)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    int n = 0;
    unsigned want = 0;
    for (int i = 0; i < nk; i++) if (mval[i]) { n++; want |= 1u << i; }
    for (visit_stop = 0; visit_stop <= n; visit_stop++) { /* 0: never */
        visit_n = 0; visit_mask = 0;
        e = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
        picotm_treemap_for_each_value(&tm, &visit_n, visit, &e);
        if (visit_stop) {
            mc_check(picotm_error_is_set(&e) && visit_n == visit_stop, "visitor error", "a failing visitor does not end the traversal");
        } else {
            mc_check(!picotm_error_is_set(&e), "traversal error", "traversal fails");
            mc_check(visit_mask == want, "traversal", "traversal visits keys %x, expected %x", visit_mask, want);
        }
    }
    mc_cases(1);
}

static void find(int i, int mode) /* 0 look up, 1 create, 2 failing creator */
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    int calls = create_calls;
    create_fail = mode == 2;
    mc_note("find %llu mode %d", kset[i], mode);
    long allocs = mc_alloc_count;
    uintptr_t v = picotm_treemap_find_value(&tm, kset[i], mode ? create : NULL, &e);
    (void)allocs;
    if (mval[i]) {
        mc_check(create_calls == calls, "created again", "creator called again for key %llu", kset[i]);
        mc_check(!picotm_error_is_set(&e) && v == mval[i], "lookup", "key %llu gives value %lu, expected %lu", kset[i], (unsigned long)v, (unsigned long)mval[i]);
    } else if (mode == 0) {
        mc_check(v == 0, "lookup", "key %llu gives value %lu, but none was created", kset[i], (unsigned long)v);
        mc_check(mc_alloc_fault || !picotm_error_is_set(&e), "lookup error", "look-up fails");
    } else if (picotm_error_is_set(&e)) {
        mc_check(v == 0, "error value", "value returned with an error");
        if (mode == 2 && create_calls > calls)
            mc_check(e.status == PICOTM_ERROR_CODE && e.value.error_hint == PICOTM_OUT_OF_BOUNDS, "creator error", "the creator's error is not reported");
        else
            mc_check(mc_alloc_fault && create_calls == calls, "spurious error", "an error is reported without reason, or after a value was created");
    } else {
        mc_check(mode == 1, "creator error", "the creator's error is not reported");
        mc_check(create_calls == calls + 1 && create_key == kset[i], "creator", "creator called %d times with key %llu", create_calls - calls, create_key);
        mc_check(v == next_val - 1, "lookup", "a new value is not returned");
        mval[i] = v;
    }
}

static const unsigned long nbits_of[] = { 1, 2, 4, 5, 8, 13 };
static void treemap(int v, int depth)
{
    unsigned long nb = nbits_of[v];
    unsigned long long w = 1ull << nb;
    unsigned long long k[] = { 0, 1, w - 1, w, w * w - 1, w * w + 1, 1ull << 63, ULLONG_MAX, (1ull << 63) + w };
    nk = 0;
    for (int i = 0; i < NK; i++) {
        int j;
        for (j = 0; j < nk && kset[j] != k[i]; j++) ;
        if (j == nk) kset[nk++] = k[i];
    }
    memset(mval, 0, sizeof mval);
    memset(destroyed, 0, sizeof destroyed);
    next_val = 1;
    create_calls = destroy_calls = 0;
    picotm_treemap_init(&tm, nb);
    for (int d = 0; d < depth; d++) {
        if (mc_alloc_fault && !mc_tier_thorough) { /* fewer keys and no failing creators */
            static const int few[] = { 0, 1, 3, 6, 7 };
            int o = mc_choose(10), i = few[o % 5];
            find(i < nk ? i : nk - 1, o < 5);
            continue;
        }
        int o = mc_choose(3 * nk + 1);
        if (o == 3 * nk) break;
        find(o % nk, o / nk == 0 ? 1 : o / nk == 1 ? 0 : 2);
        if (!mc_alloc_fault) check_all_keys();
    }
    mc_alloc_fault = 0;
    check_all_keys();
    for (int i = 0; i < nk; i++) find(i, 0);
    for (int i = 0; i < nk; i++) mc_outcome(mval[i]);
    picotm_treemap_uninit(&tm, destroy);
    int n = 0;
    for (int i = 0; i < nk; i++) n += !!mval[i];
    mc_check(destroy_calls == n, "clean-up", "%d values cleaned up, expected %d", destroy_calls, n);
}
static void sc_treemap(int v) { mc_heap_mark(); treemap(v, nbits_of[v] > 8 ? 3 : mc_tier_thorough ? 4 : 3); mc_check(mc_heap_live() == 0, "leak", "the tree map leaks %ld blocks", mc_heap_live()); }
static void sc_treemap_oom(int v)
{
    mc_heap_mark();
    mc_fault_budget = mc_tier_thorough ? 2 : 1;
    mc_alloc_fault = 1;
    treemap(v, mc_tier_thorough ? 3 : 2);
    mc_check(mc_heap_live() == 0, "leak", "the tree map leaks %ld blocks", mc_heap_live());
}

/* ---------------------------------------------------------- linked list */
/* an undefined helper macro would not compile; give it a wrong meaning instead */
#define __PIOTM_SLIST_INITIALIZER(x) { .next = (void*)1 }
#define NI 5
struct item { int key; struct picotm_slist l; };
static struct item items[NI];
static struct picotm_slist heads[2];
static int ln[2], le[2][NI];
static int id_of(const struct picotm_slist* s) { return (int)(picotm_containerof((struct picotm_slist*)s, struct item, l) - items); }
static int seen[NI + 2], nseen, stop_at, step;
static _Bool t0(const struct picotm_slist* s) { seen[nseen++] = id_of(s); return nseen == stop_at; }
static _Bool t1(const struct picotm_slist* s, void* a) { mc_check(a == items, "find arguments", "find_1"); return t0(s); }
static _Bool t2(const struct picotm_slist* s, void* a, void* b) { mc_check(a == items && b == heads, "find arguments", "find_2"); return t0(s); }
static size_t w0(struct picotm_slist* s) { seen[nseen++] = id_of(s); return nseen == stop_at ? 0 : step; }
static size_t w1(struct picotm_slist* s, void* a) { mc_check(a == items, "walk arguments", "walk_1"); return w0(s); }
static size_t w2(struct picotm_slist* s, void* a, void* b) { mc_check(a == items && b == heads, "walk arguments", "walk_2"); return w0(s); }
static void c0(struct picotm_slist* s) { mc_check(!picotm_slist_is_enqueued(s), "clean-up", "clean-up of an enqueued item"); seen[nseen++] = id_of(s); }
static void c1(struct picotm_slist* s, void* a) { mc_check(a == items, "clean-up arguments", "cleanup_1"); c0(s); }
static void c2(struct picotm_slist* s, void* a, void* b) { mc_check(a == items && b == heads, "clean-up arguments", "cleanup_2"); c0(s); }
static int cmpi(struct picotm_slist* a, struct picotm_slist* b) { int x = items[id_of(a)].key, y = items[id_of(b)].key; return (x > y) - (x < y); }

static void slist_queries(int h)
{
    const struct picotm_slist* hd = &heads[h];
    int n = ln[h];
    mc_check(picotm_slist_is_empty(hd) == !n, "is_empty", "picotm_slist_is_empty");
    mc_check(picotm_slist_front(hd) == (n ? &items[le[h][0]].l : NULL), "front", "picotm_slist_front");
    mc_check(picotm_slist_back(hd) == (n ? &items[le[h][n - 1]].l : NULL), "back", "picotm_slist_back");
    int i = 0;
    for (const struct picotm_slist* p = picotm_slist_begin(hd); p != picotm_slist_end(hd); p = picotm_slist_next(p), i++) {
        mc_check(i < n && id_of(p) == le[h][i], "iteration", "position %d holds item %d", i, id_of(p));
        mc_check(picotm_slist_is_enqueued(p), "is_enqueued", "item %d is not enqueued", id_of(p));
        mc_check(picotm_slist_prev(p) == (i ? &items[le[h][i - 1]].l : hd), "prev", "wrong previous item of item %d", id_of(p));
    }
    mc_check(i == n, "iteration", "%d items, expected %d", i, n);
    for (int k = 0; k < 3; k++)
        for (stop_at = 1; stop_at <= n + 1; stop_at++) {
            nseen = 0;
            struct picotm_slist* r = k == 0 ? picotm_slist_find_0(hd, t0) : k == 1 ? picotm_slist_find_1(hd, t1, items) : picotm_slist_find_2(hd, t2, items, heads);
            mc_check(r == (stop_at <= n ? &items[le[h][stop_at - 1]].l : hd), "find", "find_%d stops at the wrong item", k);
            mc_check(nseen == (stop_at <= n ? stop_at : n) && !memcmp(seen, le[h], nseen * sizeof(int)), "find", "find_%d tests the wrong items", k);
            for (step = 1; step <= 3; step++) {
                nseen = 0;
                r = k == 0 ? picotm_slist_walk_0(hd, w0) : k == 1 ? picotm_slist_walk_1(hd, w1, items) : picotm_slist_walk_2(hd, w2, items, heads);
                int pos = 0, cnt = 0;
                while (pos < n) {
                    mc_check(cnt < nseen && seen[cnt] == le[h][pos], "walk", "walk_%d with increment %d visits the wrong items", k, step);
                    if (++cnt == stop_at) break;
                    pos += step;
                }
                mc_check(cnt == nseen, "walk", "walk_%d visits %d items, expected %d", k, nseen, cnt);
                mc_check(r == (pos < n ? &items[le[h][pos]].l : hd), "walk", "walk_%d returns the wrong item", k);
            }
        }
    mc_cases(1);
}

static void sc_slist(int v)
{
    (void)v;
    static const int k[NI] = { 2, 1, 3, 2, 1 };
    ln[0] = ln[1] = 0;
    for (int i = 0; i < NI; i++) { items[i].key = k[i]; picotm_slist_init_item(&items[i].l); }
    for (int i = 0; i < 2; i++) picotm_slist_init_head(&heads[i]);
    int depth = mc_tier_thorough ? 6 : 5;
    for (int d = 0; d < depth; d++) {
        bool used[NI] = { false };
        for (int h = 0; h < 2; h++) for (int i = 0; i < ln[h]; i++) used[le[h][i]] = true;
        int f;
        for (f = 0; f < NI && used[f]; f++) ;
        struct { int k, h, i; } en[64];
        int n = 0;
        for (int h = 0; h < 2; h++) {
            if (f < NI) {
                en[n].k = 0; en[n].h = h; en[n++].i = 0;
                en[n].k = 1; en[n].h = h; en[n++].i = 0;
                bool sorted = true;
                for (int i = 1; i < ln[h]; i++) if (items[le[h][i]].key > items[le[h][i - 1]].key) sorted = false;
                if (!h && sorted) { en[n].k = 2; en[n].h = h; en[n++].i = 0; }
                if (!h) for (int i = 0; i < ln[h]; i++) {
                    en[n].k = 3; en[n].h = h; en[n++].i = i;
                    en[n].k = 4; en[n].h = h; en[n++].i = i;
                }
            }
            for (int i = 0; i < ln[h]; i++) { en[n].k = 5; en[n].h = h; en[n++].i = i; }
            if (ln[h]) { en[n].k = 6; en[n].h = h; en[n++].i = 0; }
        }
        int c = mc_choose(n), h = en[c].h, at = 0, *L = le[h];
        struct picotm_slist* it = en[c].i < ln[h] ? &items[L[en[c].i]].l : NULL;
        switch (en[c].k) {
        case 0: picotm_slist_enqueue_front(&heads[h], &items[f].l); at = 0; break;
        case 1: picotm_slist_enqueue_back(&heads[h], &items[f].l); at = ln[h]; break;
        case 2:
            picotm_slist_enqueue_sorted(&heads[h], &items[f].l, cmpi);
            /* position among the sorted items; equal ones in any order */
            at = -1;
            break;
        case 3: picotm_slist_enqueue_before(it, &items[f].l); at = en[c].i; break;
        case 4: picotm_slist_enqueue_after(it, &items[f].l); at = en[c].i + 1; break;
        case 5: picotm_slist_dequeue(it); at = en[c].i; break;
        case 6: picotm_slist_dequeue_front(&heads[h]); at = 0; break;
        }
        if (en[c].k <= 4) {
            if (at < 0) {
                int m = 0, prev = INT_MAX, old = 0;
                int L2[NI + 1];
                for (const struct picotm_slist* p = picotm_slist_begin(&heads[h]); p != picotm_slist_end(&heads[h]) && m <= NI; p = picotm_slist_next(p)) {
                    int id = id_of(p);
                    if (m < NI) L2[m] = id;
                    mc_check(items[id].key <= prev, "sorted", "enqueue_sorted breaks the order");
                    prev = items[id].key;
                    if (id != f) { mc_check(old < ln[h] && L[old] == id, "sorted", "enqueue_sorted reorders items"); old++; }
                    m++;
                }
                mc_check(m == ln[h] + 1 && old == ln[h], "sorted", "enqueue_sorted loses items");
                memcpy(L, L2, m * sizeof(int));
                ln[h]++;
            } else {
                memmove(L + at + 1, L + at, (ln[h] - at) * sizeof(int));
                L[at] = f;
                ln[h]++;
            }
        } else {
            int id = L[at];
            memmove(L + at, L + at + 1, (ln[h] - at - 1) * sizeof(int));
            ln[h]--;
            mc_check(!picotm_slist_is_enqueued(&items[id].l), "is_enqueued", "item %d is still enqueued", id);
        }
        slist_queries(0);
        slist_queries(1);
        for (int i = 0; i < NI; i++) {
            bool in = false;
            for (int q = 0; q < 2; q++) for (int j = 0; j < ln[q]; j++) in = in || le[q][j] == i;
            mc_check(in == picotm_slist_is_enqueued(&items[i].l), "is_enqueued", "picotm_slist_is_enqueued is wrong for item %d", i);
        }
    }
    nseen = 0;
    int k3 = mc_choose(3);
    if (k3 == 0) picotm_slist_cleanup_0(&heads[0], c0);
    if (k3 == 1) picotm_slist_cleanup_1(&heads[0], c1, items);
    if (k3 == 2) picotm_slist_cleanup_2(&heads[0], c2, items, heads);
    mc_check(nseen == ln[0] && !memcmp(seen, le[0], nseen * sizeof(int)) && picotm_slist_is_empty(&heads[0]), "clean-up", "clean-up visits %d items, expected %d", nseen, ln[0]);
    mc_outcome(ln[0] * 8 + ln[1]);
}

/* ---------------------------------------------------------------- table */
static size_t tstep, tstop;
static unsigned char* tbase;
static size_t tsiz, texp[64], ntexp, ntgot;
static size_t tw(void* e, struct picotm_error* er)
{
    size_t i = ((unsigned char*)e - tbase) / tsiz;
    mc_check(tbase + i * tsiz == e, "walk element", "walk passes a pointer inside of an element");
    mc_check(ntgot < ntexp && texp[ntgot] == i, "walk element", "walk visits element %zu, expected %zu", i, ntgot < ntexp ? texp[ntgot] : (size_t)-1);
    ntgot++;
    if (ntgot == tstop) { picotm_error_set_error_code(er, PICOTM_OUT_OF_BOUNDS); return 1; }
    return tstep;
}
static size_t tw2(void* e, void* a, struct picotm_error* er) { mc_check(a == &tsiz, "walk argument", "tabwalk_2"); return tw(e, er); }
static size_t tw3(void* e, void* a, void* b, struct picotm_error* er) { mc_check(a == &tsiz && b == &tstep, "walk argument", "tabwalk_3"); return tw(e, er); }
static int cmpb(const void* a, const void* b) { return (int)*(const unsigned char*)a - *(const unsigned char*)b; }

static void sc_tab(int v)
{
    (void)v;
    static const size_t sizes[] = { 1, 4, 24 };
    static const size_t ns[] = { 1, 2, 3, 4, 5, 8, 9, 17 };
    tsiz = sizes[mc_choose(3)];
    mc_heap_mark();
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    unsigned char* t = NULL;
    size_t n = 0;
    for (int d = 0; d < 4; d++) {
        size_t m = ns[mc_choose(8)];
        unsigned char* t2 = picotm_tabresize(t, n, m, tsiz, &e);
        mc_check(t2 && !picotm_error_is_set(&e), "resize", "picotm_tabresize fails");
        t = t2;
        for (size_t i = 0; i < (n < m ? n : m) * tsiz; i++) mc_check(t[i] == (unsigned char)(i + 3), "resize contents", "contents lost when resizing from %zu to %zu", n, m);
        n = m;
        for (size_t i = 0; i < n * tsiz; i++) t[i] = i + 3; /* owned memory (asan) */
    }
    tbase = t;
    for (int k = 0; k < 5; k++)
        for (tstep = 1; tstep <= 3; tstep++)
            for (tstop = 0; tstop <= n; tstop++) {
                bool rev = k >= 3;
                ntexp = ntgot = 0;
                size_t pos = 0, c = 0;
                for (long i = rev ? n - 1 : 0; rev ? i >= 0 : i < (long)n; i += rev ? -(long)tstep : (long)tstep) { texp[ntexp++] = i; }
                e = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
                size_t r = k == 0 ? picotm_tabwalk_1(t, n, tsiz, tw, &e) : k == 1 ? picotm_tabwalk_2(t, n, tsiz, tw2, (void*)&tsiz, &e) :
                           k == 2 ? picotm_tabwalk_3(t, n, tsiz, tw3, (void*)&tsiz, (void*)&tstep, &e) :
                           k == 3 ? picotm_tabrwalk_1(t, n, tsiz, tw, &e) : picotm_tabrwalk_2(t, n, tsiz, tw2, (void*)&tsiz, &e);
                bool stopped = tstop && tstop <= ntexp;
                mc_check(picotm_error_is_set(&e) == stopped, "walk error", "error of the call-back function is lost");
                c = stopped ? tstop : ntexp;
                mc_check(ntgot == c, "walk", "walk visits %zu elements, expected %zu", ntgot, c);
                pos = stopped ? (tstop - 1) * tstep : ntexp * tstep;
                mc_check(r == pos, "walk result", "walk returns %zu, expected %zu", r, pos);
                mc_cases(1);
            }
    picotm_tabfree(t);
    mc_check(mc_heap_live() == 0, "leak", "the table leaks");
    mc_outcome(n);
}

static void sc_uniq(int v)
{
    (void)v;
    static const size_t sizes[] = { 1, 4, 24 };
    size_t siz = sizes[mc_choose(3)];
    int n = mc_choose(8);
    unsigned char k[8], out[8];
    for (int i = 0; i < n; i++) k[i] = (i ? k[i - 1] : 1) + mc_choose(i ? 2 : 1); /* sorted */
    unsigned char* t = malloc(n * siz + 1);
    for (int i = 0; i < n; i++) memset(t + i * siz, k[i], siz);
    t[n * siz] = 0x99;
    int m = 0;
    for (int i = 0; i < n; i++) if (!i || k[i] != k[i - 1]) out[m++] = k[i];
    size_t r = picotm_tabuniq(t, n, siz, cmpb);
    mc_check(r == (size_t)m, "uniq", "picotm_tabuniq returns %zu, expected %d", r, m);
    for (int i = 0; i < m; i++) for (size_t j = 0; j < siz; j++) mc_check(t[i * siz + j] == out[i], "uniq contents", "element %d of %d is %d, expected %d", i, m, t[i * siz + j], out[i]);
    mc_check(t[n * siz] == 0x99, "uniq bounds", "picotm_tabuniq writes beyond the table");
    free(t);
    mc_outcome(m);
}

static void sc_init(int v)
{
    (void)v;
    struct picotm_slist it = PICOTM_SLIST_ITEM_INITIALIZER;
    struct picotm_slist hd = PICOTM_SLIST_HEAD_INITIALIZER(&it);
    mc_check(it.next == NULL && hd.next == &it, "initializer", "static initializers of list items and heads set wrong pointers");
    struct picotm_slist a, b;
    picotm_slist_init_head(&a);
    picotm_slist_init_item(&b);
    mc_check(picotm_slist_is_empty(&a) && picotm_slist_begin(&a) == picotm_slist_end(&a), "initializer", "an initialised list is not empty");
    mc_outcome(1);
}

static void sc_tab_oom(int v)
{
    (void)v;
    static const size_t ns[] = { 1, 2, 3, 5, 9 };
    mc_heap_mark();
    mc_fault_budget = 3;
    mc_alloc_fault = 1;
    unsigned char* t = NULL;
    size_t n = 0;
    for (int d = 0; d < 4; d++) {
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        size_t m = n + ns[mc_choose(5)];
        unsigned char* t2 = picotm_tabresize(t, n, m, 8, &e);
        if (picotm_error_is_set(&e)) {
            mc_check(!t2 && e.status == PICOTM_ERRNO && e.value.errno_hint == ENOMEM, "resize error", "wrong error for a failed allocation");
        } else {
            mc_check(!!t2, "resize", "picotm_tabresize returns NULL without an error");
            t = t2;
            for (size_t i = 0; i < n * 8; i++) mc_check(t[i] == (unsigned char)(i + 3), "resize contents", "contents lost");
            n = m;
        }
        for (size_t i = 0; i < n * 8; i++) t[i] = i + 3;
    }
    picotm_tabfree(t);
    mc_alloc_fault = 0;
    mc_check(mc_heap_live() == 0, "leak", "the table leaks");
    mc_outcome(n);
}

/* ------------------------------------------------------ reference counts */
static void sc_ref(int v)
{
    (void)v;
    unsigned start = (unsigned[]){ 0, 1, 2, 255, 256, 65533 }[mc_choose(6)];
    struct picotm_ref16 a;
    struct picotm_shared_ref16 b;
    picotm_ref_init(&a, start);
    picotm_ref_init(&b, start);
    unsigned n = start;
    for (int d = 0; d < 8; d++) {
        mc_check(picotm_ref_count(&a) == n && picotm_ref_count(&b) == n, "count", "count is %u and %u, expected %u", (unsigned)picotm_ref_count(&a), (unsigned)picotm_ref_count(&b), n);
        bool up = n == 0 || (n < 65535 && mc_choose(2));
        bool x, y;
        if (up) { x = picotm_ref_up(&a); y = picotm_ref_up(&b); mc_check(x == (n == 0) && y == (n == 0), "first reference", "picotm_ref_up returns %d and %d at %u", x, y, n); n++; }
        else { x = picotm_ref_down(&a); y = picotm_ref_down(&b); mc_check(x == (n == 1) && y == (n == 1), "last reference", "picotm_ref_down returns %d and %d at %u", x, y, n); n--; }
    }
    mc_outcome(n);
}

/* rounding of addresses, differences, arrays and containers */
static void sc_ptr(int v)
{
    (void)v;
    static const uintptr_t base[] = { 0, 0x7fffff00, 0xffffff00, 0x100000000ul, 0x7fffffffff00ul, UINTPTR_MAX - 700 };
    uintptr_t b = base[mc_choose(6)];
    size_t al = (size_t)mc_choose(260) + 1;
    if (al > 256) al = (size_t)1 << (9 + 3 * (al - 257));
    for (uintptr_t a = b; a < b + 300; a++) {
        uintptr_t f = a, c = a;
        while (f % al) f--;
        bool over = false;
        while (c % al && !over) { c++; over = !c; }
        mc_ctx("address %lx, alignment %zu", (unsigned long)a, al);
        mc_check(picotm_address_floor(a, al) == f, "floor", "rounded down to %lx, expected %lx", (unsigned long)picotm_address_floor(a, al), (unsigned long)f);
        mc_check((uintptr_t)picotm_ptr_floor((void*)a, al) == f, "floor", "pointer rounded down to %p, expected %lx", picotm_ptr_floor((void*)a, al), (unsigned long)f);
        if (!over) {
            mc_check(picotm_address_ceil(a, al) == c, "ceil", "rounded up to %lx, expected %lx", (unsigned long)picotm_address_ceil(a, al), (unsigned long)c);
            mc_check((uintptr_t)picotm_ptr_ceil((void*)a, al) == c, "ceil", "pointer rounded up to %p, expected %lx", picotm_ptr_ceil((void*)a, al), (unsigned long)c);
        }
        mc_check(picotm_ptr_diff((void*)a, (void*)b) == (ptrdiff_t)(a - b) && picotm_ptr_diff((void*)b, (void*)a) == -(ptrdiff_t)(a - b), "difference", "%td bytes between %lx and %lx", picotm_ptr_diff((void*)a, (void*)b), (unsigned long)b, (unsigned long)a);
        mc_cases(1);
    }
    static long arr[7]; static struct { char c; long l[3]; short s; } box;
    mc_check(picotm_arraylen(arr) == 7 && picotm_arraylen(box.l) == 3, "array", "wrong number of elements");
    mc_check(picotm_arraybeg(arr) == &arr[0] && picotm_arrayfirst(arr) == &arr[0] && picotm_arrayend(arr) == &arr[7] && picotm_arraylast(arr) == &arr[6], "array", "wrong ends");
    for (int i = 0; i < 7; i++) mc_check(picotm_arrayat(arr, i) == &arr[i], "array", "wrong element");
    void* e[] = { picotm_containerof(&box.c, __typeof__(box), c), picotm_containerof(&box.l, __typeof__(box), l), picotm_containerof(&box.s, __typeof__(box), s) };
    for (int i = 0; i < 3; i++) mc_check(e[i] == &box, "container", "wrong container");
    mc_outcome((long)al);
}

static const struct mc_scenario sc[] = {
    { "ptr", sc_ptr, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 10, 10, "rounding of all addresses in six windows to alignments 1-256 and larger powers of two" },
    { "ref", sc_ref, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 10, 10, "reference counters near zero and near their limit" },
    { "slist-init", sc_init, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 10, 10, "static and dynamic initialisation of lists" },
    { "uniq", sc_uniq, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 10, 10, "picotm_tabuniq on all sorted arrays up to length 7" },
    { "tab", sc_tab, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 20, 60, "table resizing and walks" },
    { "tab-oom", sc_tab_oom, 1, MC_NOPREEMPT, 0, 0, 10, 30, "table resizing with failing allocations" },
    { "slist", sc_slist, 1, MC_NOPREEMPT | MC_INPROC, 0, 0, 30, 300, "operation sequences on two lists, all queries, finds, walks and clean-ups" },
    { "treemap", sc_treemap, 6, MC_NOPREEMPT | MC_INPROC, 0, 0, 40, 400, "look-up sequences over nine keys incl. the largest, directories of 1 to 13 bits" },
    { "treemap-oom", sc_treemap_oom, 6, MC_NOPREEMPT, 0, 0, 20, 120, "look-up sequences with failing allocations" },
};

int main(int argc, char* argv[])
{
    static const char* const as[] = { "call-back functions respect their documented contract", NULL };
    return mc_main(argc, argv, "P08", sc, sizeof sc / sizeof *sc, as);
}
