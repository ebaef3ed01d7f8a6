/* C12/C03: threads come and go for ever in bounded memory, their shared
 * results staying valid as long as they are reachable. */
#include "gch.h"
#ifndef R
#define R 12                    /* rounds */
#endif
#ifndef W
#define W 2                     /* workers per round, alive together */
#endif
#ifndef MAXPOOLS
#define MAXPOOLS 8
#endif
#ifndef PICKS
#define PICKS 6                 /* free scheduling choices when a thread blocks; round robin afterwards */
#endif
#ifndef LATER
#define LATER 0             /* what happens in the later rounds */
#endif
#ifndef NALLOC
#define NALLOC 20
#endif
GGC_TYPE(Node)
    GGC_MPTR(Node, a);
    GGC_MDATA(ggc_size_t, d);
GGC_END_TYPE(Node, GGC_PTR(Node, a))
static NodeArray shared; static gs_w outv[W]; static int next_; static long mx;
static void worker(GGC_ThreadArg a)
{
    Node x = NULL, y = NULL; int i, me; gs_w v;
    GGC_PUSH_3(a, x, y);
    me = next_++ % W;
    for (i = 0; i < NALLOC; i++) {
        y = x; x = GGC_NEW(Node); v = (gs_w) i; GGC_WD(x, d, v); GGC_WP(x, a, y);
#ifndef KEEP
        if (i % 4 == 3) x = NULL;
#endif
    }
#ifdef KEEP
    /* the live data of one thread fill several regions */
    for (y = x, i = NALLOC - 1; y; y = GGC_RP(y, a), i--)
        gs_assert(gs_mapped(y, sizeof(struct Node__ggggc_struct)) && GGC_RD(y, d) == (gs_w) i, "a thread's objects are its own");
    gs_assert(i == -1, "a thread's objects are complete");
    x = y = NULL;
#endif
    x = GGC_NEW(Node); v = gs_u64("out"); GGC_WD(x, d, v); outv[me] = v;
    GGC_WAP(shared, me, x);
    return;
}
void harness_main(void)
{
    ggc_thread_t th[W]; GGC_ThreadArg ta = NULL; Node x = NULL; int r, i;
    GGC_PUSH_3(shared, ta, x);
    env_pool_bytes = GGGGC_POOL_BYTES;
    env_picks = PICKS;
    shared = GGC_NEW_PA(Node, W);
    ta = GGC_NEW(GGC_ThreadArg);
    for (r = 0; r < R; r++) {
        for (i = 0; i < W; i++) gs_assert(ggc_thread_create(&th[i], worker, ta) == 0, "create");
        for (i = 0; i < W; i++) gs_assert(ggc_thread_join(th[i]) == 0, "join");
        { int c = r < 3 ? (int) gs_choose("collect", 3) : LATER;
#ifdef GGGGC_COLLECTOR_PORTABLEMS
            if (c) ggggc_collect0(0);
#else
            if (c) ggggc_collect0((unsigned char) (c == 1 ? 0 : GGGGC_GENERATIONS - 1));
#endif
        }
        for (i = 0; i < W; i++) {
            x = (Node) gs_concrete((gs_w) GGC_RAP(shared, i));
            gs_assert(x != NULL && gs_mapped(x, sizeof(struct Node__ggggc_struct)) && GGC_RD(x, d) == outv[i], "a shared object stays valid after its thread exits");
        }
        if (env_pool_live > mx) { mx = env_pool_live; gs_log("pools", mx); }
        gs_assert(env_pool_live <= MAXPOOLS, "threads come and go in bounded memory");
    }
    gs_cover("end");
}
