/* C03: a program with bounded live data runs for ever in bounded memory: the
 * operating system refuses every region beyond a limit the live data fits in,
 * or the number of regions is compared with a bound. Rounds of allocation
 * replace entries of a live table in a symbolic pattern; garbage includes
 * cycles and old objects; mixed sizes. */
#include "gch.h"
#ifndef R
#define R 6
#endif
#ifndef L
#define L 6                     /* live entries */
#endif
#ifndef B
#define B 12                    /* allocations per round */
#endif
#ifndef LIMIT
#define LIMIT 0
#endif
#ifndef MAXPOOLS
#define MAXPOOLS 8
#endif
#ifndef BIG
#define BIG 0
#endif
#ifndef NSYMR
#define NSYMR 2
#endif
GGC_TYPE(Node)
    GGC_MPTR(Node, a);
    GGC_MDATA(ggc_size_t, d);
    GGC_MPTR(Node, b);
GGC_END_TYPE(Node, GGC_PTR(Node, a) GGC_PTR(Node, b))
#ifdef GGGGC_FEATURE_FINALIZERS
static int pend;
static void fin(void *o) { pend--; }
#endif
#ifndef DBG
#define getenv_dbg 0
#else
#define getenv_dbg 1
#endif
void harness_main(void)
{
    NodeArray tab = NULL; Node x = NULL, y = NULL; GGC_size_t_Array da = NULL;
    gs_w dv[L]; gs_w ptr[L]; int r, i, k; gs_w sel;
    GGC_PUSH_4(tab, x, y, da);
    env_pool_bytes = GGGGC_POOL_BYTES;
    env_pool_limit = LIMIT;
    tab = GGC_NEW_PA(Node, L);
    for (i = 0; i < L; i++) { dv[i] = 0; ptr[i] = 0; }
    for (r = 0; r < R; r++) {
        for (i = 0; i < B; i++) {
            int last = i == B - 1;
            x = GGC_NEW(Node);
            { gs_w v = r * 100 + i; GGC_WD(x, d, v); }
#ifdef GGGGC_FEATURE_FINALIZERS
            if (i == 0) { GGC_FINALIZE(x, fin); pend++; gs_assert(pend <= 40, "finalizers of garbage run eventually"); }
#endif
            /* garbage cycles through the previous one, which may be old */
            if (y) { GGC_WP(x, a, y); GGC_WP(y, b, x); }
            y = last ? NULL : x;
            if (BIG && i % 4 == 2) { gs_w big; da = GGC_NEW_DA(size_t, BIG); big = r; GGC_WAD(da, BIG - 1, big); da = NULL; }
            if (last) {
                gs_w v, w;
                /* replace a symbolic entry of the table by a self-contained object */
                x = GGC_NEW(Node); v = gs_u64("d"); GGC_WD(x, d, v);
                w = r < NSYMR ? gs_range("entry", 0, L - 1) : (gs_w) (r * 5 % L);
                for (k = 0; k < L; k++) {
                    y = GGC_RAP(tab, k);
                    y = (Node) gs_ite(w == (gs_w) k, (gs_w) x, (gs_w) y);
                    GGC_WAP(tab, k, y);
                    dv[k] = gs_ite(w == (gs_w) k, v, dv[k]);
                    ptr[k] = gs_ite(w == (gs_w) k, 1, ptr[k]);
                }
                y = NULL;
            }
        }
#ifdef COLL
        sel = gs_choose("collect", r < NSYMR ? GGGGC_GENERATIONS + 1 : 1);
        if (sel) ggggc_collect0((unsigned char) (sel - 1));
#endif
        if (getenv_dbg) gs_log("pools", env_pool_live * 1000 + r);
        gs_assert(env_pool_live <= MAXPOOLS, "a program with bounded live data runs in bounded memory");
    }
    for (k = 0; k < L; k++) {
        x = (Node) gs_concrete((gs_w) GGC_RAP(tab, k));
        if (gs_concrete(ptr[k])) { gs_assert(x != NULL && GGC_RD(x, d) == dv[k] && !GGC_RP(x, a) && !GGC_RP(x, b), "live data is intact"); gs_cover("live"); }
        else gs_assert(x == NULL, "null stays null");
    }
    gs_cover("end");
}
