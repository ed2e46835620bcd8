/* value sets for integer types: everything for narrow types, otherwise all
 * neighbourhoods of powers of two, of the limits and of other types' limits */
#pragma once
#include <limits.h>
#include <stdint.h>
typedef __int128 i128;
static i128 iv[70000];
static int niv;
static inline void iv_add(i128 v, i128 lo, i128 hi)
{
    if (v < lo || v > hi) return;
    for (int i = 0; i < niv && niv < 4000; i++) if (iv[i] == v) return;
    iv[niv++] = v;
}
static inline void iv_make(int bits, int sgn, int all16, int delta)
{
    i128 lo = sgn ? -((i128)1 << (bits - 1)) : 0, hi = ((i128)1 << (sgn ? bits - 1 : bits)) - 1;
    niv = 0;
    if (bits <= 8 || (bits == 16 && all16)) {
        for (i128 v = lo; v <= hi; v++) iv[niv++] = v;
        return;
    }
    for (int d = -delta; d <= delta; d++) {
        for (int k = 0; k < bits; k++) { iv_add(((i128)1 << k) + d, lo, hi); iv_add(-((i128)1 << k) + d, lo, hi); }
        iv_add(lo + d, lo, hi);
        iv_add(hi + d, lo, hi);
        iv_add(hi / 3 + d, lo, hi);
        iv_add(lo / 3 + d, lo, hi);
    }
    /* neighbourhood of the square root */
    i128 r = 0;
    for (int b = 33; b >= 0; b--) if ((r + ((i128)1 << b)) * (r + ((i128)1 << b)) <= hi) r += (i128)1 << b;
    for (int d = -2; d <= 2; d++) { iv_add(r + d, lo, hi); iv_add(-r + d, lo, hi); }
    iv_add((i128)0x5555555555555555, lo, hi);
    iv_add((i128)0x123456789abcdef, lo, hi);
    iv_add(12345, lo, hi); iv_add(-12345, lo, hi); iv_add(46341, lo, hi); iv_add(-46341, lo, hi);
}
static inline const char* istr(i128 v, char* b)
{
    char t[50]; int n = 0, neg = v < 0, o = 0;
    unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    do { t[n++] = '0' + (int)(u % 10); u /= 10; } while (u);
    if (neg) b[o++] = '-';
    while (n) b[o++] = t[--n];
    b[o] = 0;
    return b;
}
