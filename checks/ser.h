/* Serializability oracle: committed transactions, each with an operation
 * program over a small abstract state, must be explained by some sequential
 * order that respects real time (commit of A before begin of B => A first).
 * The caller supplies `exec`, which runs transaction t's program on the model
 * state and returns false as soon as a recorded result differs. */
#pragma once
#include "mc.h"
#include <string.h>

#define SER_MAXTX 8
struct ser_tx { int used; int begin, end; };
static struct ser_tx ser_tx[SER_MAXTX];
static int ser_clock;

static inline void ser_begin(int t) { ser_tx[t].begin = __atomic_add_fetch(&ser_clock, 1, __ATOMIC_SEQ_CST); }
static inline void ser_commit(int t)
{
    ser_tx[t].end = __atomic_add_fetch(&ser_clock, 1, __ATOMIC_SEQ_CST);
    ser_tx[t].used = 1;
}

typedef struct { unsigned char b[1024]; } ser_state;
/* exec(t, state): apply transaction t, false if its observations do not match */
typedef bool (*ser_exec)(int t, void* state);
typedef bool (*ser_final)(const void* state);

static inline bool ser_search(int ntx, unsigned done, const void* st, size_t sz,
                              ser_exec exec, ser_final fin)
{
    bool any = false;
    for (int t = 0; t < ntx; t++) {
        if ((done & (1u << t)) || !ser_tx[t].used) continue;
        any = true;
        bool ok = true;
        for (int u = 0; u < ntx; u++)
            if (u != t && ser_tx[u].used && !(done & (1u << u)) && ser_tx[u].end < ser_tx[t].begin) ok = false;
        if (!ok) continue;
        ser_state s2;
        memcpy(&s2, st, sz);
        if (!exec(t, &s2)) continue;
        if (ser_search(ntx, done | 1u << t, &s2, sz, exec, fin)) return true;
    }
    if (any) return false;
    return fin(st);
}
