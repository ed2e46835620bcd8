/* P07: concurrent look-ups in a shared tree map agree on one value per key */
#include "mc.h"
#include "picotm/picotm.h"
#include "picotm/picotm-error.h"
#include "picotm/picotm-lib-shared-treemap.h"
#include <stdlib.h>
#include <string.h>

#define SHADOW __attribute__((no_sanitize_thread, noinline)) static

static struct picotm_shared_treemap map;
struct val { unsigned long long key; unsigned long long check; int id; };

/* values come from a pool, so that allocation faults concern only directories */
#define NV 160
static struct val pool[NV];
static int nval;
static int destroyed[NV];
static bool stored_seen[NV];
static int create_fails_for = -9; /* thread whose creator fails once */

SHADOW bool sh_fail(int t) { if (create_fails_for != t) return false; create_fails_for = -9; return true; }
SHADOW bool sh_will_fail(int t) { return create_fails_for == t; }
SHADOW struct val* take(void)
{
    mc_check(nval < NV, "harness", "pool");
    return &pool[nval++];
}
SHADOW void sh_destroy(struct val* v)
{
    int i = (int)(v - pool);
    mc_check(i >= 0 && i < nval, "destroy of unknown value", "value_destroy called with a value that was never created");
    mc_check(!destroyed[i], "destroyed twice", "value %d of key %llu destroyed twice", i, v->key);
    destroyed[i]++;
}

static uintptr_t create(unsigned long long key, struct picotm_shared_treemap* m, struct picotm_error* e)
{
    mc_check(m == &map, "map argument", "creator called with another map");
    if (sh_fail(mc_tid())) {
        picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY);
        return 0;
    }
    struct val* v = take();
    v->key = key;
    v->check = ~key;
    v->id = 1;
    return (uintptr_t)v;
}

static void destroy(uintptr_t p, struct picotm_shared_treemap* m)
{
    mc_check(m == &map, "map argument", "destroy function called with another map");
    struct val* v = (struct val*)p;
    sh_destroy(v);
    v->check = 0;
}

/* what each key maps to, agreed on by everybody */
static struct { unsigned long long key; struct val* v; } seen[16];
static int nseen;

SHADOW void agree(int t, unsigned long long key, struct val* v)
{
    mc_check(v->key == key, "wrong key", "T%d: look-up of %llx returned the value of %llx", t, key, v->key);
    mc_check(!destroyed[v - pool], "destroyed value", "T%d: look-up of %llx returned a destroyed value", t, key);
    for (int i = 0; i < nseen; i++) {
        if (seen[i].key == key) {
            mc_check(seen[i].v == v, "two values for one key", "T%d: look-up of %llx returned another value than before", t, key);
            return;
        }
        mc_check(seen[i].v != v, "shared value", "keys %llx and %llx share a value", seen[i].key, key);
    }
    seen[nseen].key = key;
    seen[nseen++].v = v;
}
SHADOW bool is_seen(unsigned long long key)
{
    for (int i = 0; i < nseen; i++) if (seen[i].key == key) return true;
    return false;
}
SHADOW int count_created(unsigned long long key) { int n = 0; for (int i = 0; i < nval; i++) if (pool[i].key == key) n++; return n; }

static unsigned long long keys[MC_MAXTHREADS][2];
static bool nocreate[MC_MAXTHREADS][2];
static int nk[MC_MAXTHREADS];

static void lookup(int t, unsigned long long key, bool nc)
{
    struct picotm_error err = PICOTM_ERROR_INITIALIZER;
    bool had = is_seen(key), failing = sh_will_fail(t) || mc_alloc_fault;
    int before = count_created(key);
    uintptr_t p = picotm_shared_treemap_find_value(&map, key, nc ? NULL : create, nc ? NULL : destroy, &err);
    if (picotm_error_is_set(&err)) {
        mc_check(failing && !nc, "unexpected error", "T%d: look-up of %llx failed", t, key);
        mc_check(!p, "value with error", "T%d: look-up of %llx failed but returned a value", t, key);
        mc_outcome(1);
        return;
    }
    if (!p) {
        mc_check(nc, "no value", "T%d: look-up of %llx with a creator returned nothing", t, key);
        mc_check(!had, "value lost", "T%d: look-up of %llx returned nothing though it had been found before", t, key);
        mc_outcome(2);
        return;
    }
    (void)before;
    struct val* v = (struct val*)p;
    mc_check(v->check == ~v->key && v->id == 1, "partially constructed value", "T%d: value of %llx is not complete", t, key);
    agree(t, key, v);
    mc_outcome(3 + key);
}

static void thread_fn(int t) { for (int i = 0; i < nk[t]; i++) lookup(t, keys[t][i], nocreate[t][i]); }

static void finish(void)
{
    /* values still stored: everything created and not destroyed must be found */
    mc_alloc_fault = 0;
    int live = 0;
    for (int i = 0; i < nval; i++) if (!destroyed[i]) {
        live++;
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        uintptr_t p = picotm_shared_treemap_find_value(&map, pool[i].key, NULL, NULL, &err);
        mc_check(p == (uintptr_t)&pool[i], "unreachable value", "value %d of key %llx was created, not destroyed, and is not in the map", i, pool[i].key);
    }
    int n0 = nval;
    picotm_shared_treemap_uninit(&map, destroy);
    mc_check(nval == n0, "created in clean-up", "clean-up creates values");
    for (int i = 0; i < nval; i++) mc_check(destroyed[i] == 1, "not destroyed", "value %d of key %llx was not destroyed by the clean-up", i, pool[i].key);
    mc_check(mc_heap_live() == 0, "leak", "%ld directories leaked", mc_heap_live());
    mc_outcome(nval);
}

static const struct { int kb, lb; unsigned long long k[3]; } shape[] = {
    { 6, 2, { 0x15, 0x16, 0x25 } },      /* same leaf directory; different leaf */
    { 5, 2, { 0x1f, 0x0f, 0x10 } },      /* key length not a multiple of the level */
    { 52, 13, { 0xfffffffffffffull, 0, 0x1fff } },
    { 4, 4, { 0, 15, 7 } },              /* one level */
    { 2, 1, { 0, 3, 1 } },
    { 64, 13, { 0xffffffffffffffffull, 0x7fffffffffffffffull, 1 } },
};

static void reset(int s)
{
    picotm_shared_treemap_init(&map, shape[s].kb, shape[s].lb);
    nval = nseen = 0;
    memset(destroyed, 0, sizeof destroyed);
    memset(pool, 0, sizeof pool);
    create_fails_for = -9;
    mc_heap_mark();
}

static void sc_two(int v)
{
    reset(v);
    for (int t = 0; t < 2; t++) {
        nk[t] = 2;
        for (int i = 0; i < 2; i++) { keys[t][i] = shape[v].k[t + i ? mc_choose(3) : 0]; nocreate[t][i] = t == 1 && i == 0 && mc_choose(2); }
    }
    create_fails_for = mc_choose(2) ? 0 : -9;
    mc_run_threads(2, thread_fn);
    finish();
}

static void sc_three(int v)
{
    reset(v % 4);
    for (int t = 0; t < 3; t++) { nk[t] = 1 + (t == 0); for (int i = 0; i < 2; i++) { keys[t][i] = shape[v % 4].k[t + i ? mc_choose(2) : 0]; nocreate[t][i] = false; } }
    create_fails_for = v / 4 ? 1 : -9;
    mc_run_threads(3, thread_fn);
    finish();
}

static void sc_faults(int v)
{
    reset(v % 4);
    mc_fault_budget = 1 + v / 4;
    mc_alloc_fault = 1;
    for (int t = 0; t < 2; t++) { nk[t] = 2; for (int i = 0; i < 2; i++) { keys[t][i] = shape[v % 4].k[t + i ? mc_choose(3) : 0]; nocreate[t][i] = false; } }
    mc_run_threads(2, thread_fn);
    finish();
}

/* sequential: every key of small maps, in several orders; every value distinct */
static void sc_all(int v)
{
    static const int kb[] = { 0, 1, 2, 3, 4, 5, 6, 5, 6 }, lb[] = { 1, 1, 1, 2, 2, 2, 3, 5, 4 };
    picotm_shared_treemap_init(&map, kb[v], lb[v]);
    nval = nseen = 0;
    memset(destroyed, 0, sizeof destroyed);
    memset(pool, 0, sizeof pool);
    create_fails_for = -9;
    mc_heap_mark();
    unsigned long long n = 1ull << kb[v];
    static struct val* at[64];
    int step = (int[]){ 1, 5, 63, 11 }[mc_choose(4)];
    for (unsigned long long i = 0; i < n; i++) {
        unsigned long long k = (i * step) % n;
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        mc_check(!picotm_shared_treemap_find_value(&map, k, NULL, NULL, &err), "phantom value", "key %llx found before it was created", k);
        struct val* x = (struct val*)picotm_shared_treemap_find_value(&map, k, create, destroy, &err);
        mc_check(x && x->key == k, "wrong value", "key %llx", k);
        at[k] = x;
        mc_check(nval == (int)i + 1, "created", "%d values created for %d keys", nval, (int)i + 1);
    }
    for (unsigned long long k = 0; k < n; k++) {
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        mc_check((struct val*)picotm_shared_treemap_find_value(&map, k, NULL, NULL, &err) == at[k], "wrong value", "key %llx changed its value", k);
        mc_check((struct val*)picotm_shared_treemap_find_value(&map, k, create, destroy, &err) == at[k], "wrong value", "key %llx changed its value", k);
    }
    mc_check(nval == (int)n, "created", "%d values created for %d keys", nval, (int)n);
    mc_cases(3 * n);
    finish();
}

/* sequential: maps with wide keys; a base key and all keys that differ from it in
 * one bit (and all that differ in two bits, one of them chosen), every value distinct */
static void sc_wide(int v)
{
    static const int kb[] = { 64, 64, 64, 52, 33, 32, 40, 48 }, lb[] = { 13, 4, 1, 13, 5, 8, 7, 10 };
    picotm_shared_treemap_init(&map, kb[v], lb[v]);
    nval = nseen = 0;
    memset(destroyed, 0, sizeof destroyed);
    memset(pool, 0, sizeof pool);
    create_fails_for = -9;
    mc_heap_mark();
    static const unsigned long long bases[] = { 0, ~0ull, 0x5555555555555555ull };
    unsigned long long mask = kb[v] == 64 ? ~0ull : (1ull << kb[v]) - 1;
    unsigned long long base = bases[mc_choose(3)] & mask, base2 = base ^ (1ull << mc_choose(kb[v]));
    static unsigned long long k[NV];
    static struct val* at[NV];
    int n = 0;
    k[n++] = base;
    for (int i = 0; i < kb[v]; i++) k[n++] = base ^ (1ull << i);
    for (int i = 0; i < kb[v]; i++) {
        unsigned long long x = base2 ^ (1ull << i);
        int j = 0;
        while (j < n && k[j] != x) j++;
        if (j == n) k[n++] = x;
    }
    for (int i = 0; i < n; i++) {
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        mc_check(!picotm_shared_treemap_find_value(&map, k[i], NULL, NULL, &err), "phantom value", "key %llx found before it was created", k[i]);
        struct val* x = (struct val*)picotm_shared_treemap_find_value(&map, k[i], create, destroy, &err);
        mc_check(x, "no value", "no value for key %llx", k[i]);
        mc_check(x->key == k[i], "wrong value", "key %llx has the value of another key", k[i]);
        at[i] = x;
    }
    for (int i = 0; i < n; i++) {
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        mc_check((struct val*)picotm_shared_treemap_find_value(&map, k[i], create, destroy, &err) == at[i], "wrong value", "key %llx changed its value", k[i]);
    }
    mc_check(nval == n, "created", "%d values created for %d keys", nval, n);
    mc_cases(n);
    finish();
}

static struct mc_scenario sc[] = {
    { "wide-keys", sc_wide, 8, MC_NOPREEMPT, 0, 0, 15, 30, "keys of 32 to 64 bits that differ in one or two bits, at any position" },
    { "all-keys", sc_all, 9, MC_NOPREEMPT, 0, 0, 5, 20, "every key of small maps in four orders" },
    { "lookup-two", sc_two, 6, MC_RACE, 2, 3, 20, 250, "two threads with two look-ups each, failing creator", 3 },
    { "lookup-three", sc_three, 8, MC_RACE, 1, 3, 15, 250, "three threads with up to two look-ups" },
    { "lookup-faults", sc_faults, 8, MC_RACE, 1, 2, 10, 200, "failing directory allocations", 2 },
};

int main(int argc, char* argv[])
{
    static const char* const as[] = { "sequentially consistent interleavings, missing ordering is reported as a data race", NULL };
    return mc_main(argc, argv, "P07", sc, sizeof sc / sizeof *sc, as);
}
