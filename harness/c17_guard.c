/* C17: a graph of live objects at freely chosen ages; one live object's guard
 * word is overwritten with any other value; the next collection, of any
 * generation, stops. (With no guard overwritten it does not, and the graph is
 * intact.) */
#include "gch.h"
#ifndef AGES
#define AGES (GGGGC_GENERATIONS + 2)
#endif
#ifndef WHO
#define WHO 0                   /* 1: a blocked thread, 2: a yielding thread owns the victim */
#endif
#ifdef GGGGC_COLLECTOR_PORTABLEMS
#define COLLECT(g) ggggc_collect0(0)
#define NGEN 1
#else
#define COLLECT(g) ggggc_collect0((unsigned char) (g))
#define NGEN GGGGC_GENERATIONS
#endif
GGC_TYPE(Node)
    GGC_MPTR(Node, a);
    GGC_MDATA(ggc_size_t, d);
    GGC_MPTR(NodeArray, b);
GGC_END_TYPE(Node, GGC_PTR(Node, a) GGC_PTR(Node, b))
static int corrupted;
static void onAbort(void)
{
    gs_assert(corrupted, "a correct program never triggers the check");
    gs_cover("reported");
    gs_exit();
}
static volatile int blockedNow, go;
static void scribble(void *p, gs_w v)
{
    ((struct GGGGC_Header *) p)->ggggc_memoryCorruptionCheck = v;
}
#if WHO
static Node shared;
static void worker(GGC_ThreadArg a)
{
    Node w = NULL;
    GGC_PUSH_2(a, w);
    w = GGC_NEW(Node);
    shared = w; /* the raw address: nothing moves before main collects */
#if WHO == 1
    ggc_pre_blocking();
    blockedNow = 1; env_progress();
    while (!go) env_spin();
    ggc_post_blocking();
#else
    blockedNow = 1; env_progress();
    while (!go) { GGC_YIELD(); env_spin(); }
#endif
    gs_assert(w != NULL, "model: worker");
    return;
}
#endif
void harness_main(void)
{
    Node x = NULL, y = NULL, z = NULL; NodeArray arr = NULL; GGC_size_t_Array da = NULL; struct GGGGC_Descriptor *dyn = NULL;
    int i, k, which, at; gs_w v, d = gs_u64("d"); void *t = NULL;
    GGC_PUSH_6(x, y, arr, da, dyn, z);
    env_on_abort = onAbort;
    {
        ggc_size_t pm[1]; pm[0] = (ggc_size_t) 1;
        at = (int) gs_choose("age at", 3);
        k = (int) gs_choose("age", AGES);
        x = GGC_NEW(Node); GGC_WD(x, d, d);
        if (at == 0) for (i = 0; i < k; i++) COLLECT(i < NGEN ? i : NGEN - 1);
        y = GGC_NEW(Node);
        z = GGC_NEW(Node); GGC_WP(y, a, z);
        z = GGC_NEW(Node); { Node w = GGC_RP(y, a); GGC_WP(w, a, z); } z = NULL;    /* deep: x -> arr -> y -> . -> . */
        arr = GGC_NEW_PA(Node, 3);
        if (at == 1) for (i = 0; i < k; i++) COLLECT(i < NGEN ? i : NGEN - 1);
        da = GGC_NEW_DA(size_t, 5);
        dyn = GGC_NEW_DESCRIPTOR(HW + 3, pm);
        if (at == 2) for (i = 0; i < k; i++) COLLECT(i < NGEN ? i : NGEN - 1);
        GGC_WP(x, a, y); GGC_WP(x, b, arr); GGC_WAP(arr, 1, y);
        if (gs_choose("only indirectly", 2)) { y = NULL; arr = NULL; }
    }
#if WHO
    {
        ggc_thread_t th; GGC_ThreadArg ta = NULL;
        GGC_PUSH_1(ta);
        ta = GGC_NEW(GGC_ThreadArg);
        gs_assert(ggc_thread_create(&th, worker, ta) == 0, "thread creation");
        while (!blockedNow) { GGC_YIELD(); env_spin(); }
    }
#endif
    which = (int) gs_choose("victim", WHO ? 10 : 9);
    y = GGC_RP(x, a); arr = GGC_RP(x, b);
    switch (which) {
        case 0: break;
        case 1: t = x; break;
        case 2: t = y; break;
        case 3: t = arr; break;
        case 4: t = da; break;
        case 5: t = dyn; break;
        case 6: t = x->header.descriptor__ptr; break;
        case 7: t = GGC_RP(y, a); break;
        case 8: t = GGC_RP(GGC_RP(y, a), a); break;
#if WHO
        case 9: t = shared; break;
#endif
    }
    y = NULL; arr = NULL;
    if (t) {
        v = gs_u64("guard");
        gs_assume(v != GGGGC_MEMORY_CORRUPTION_VAL);
        scribble(t, v);
        corrupted = 1;
    }
    COLLECT(gs_choose("gen", NGEN));
    gs_assert(!corrupted, "a live object's overwritten guard word is reported by the next collection");
    gs_assert(GGC_RD(x, d) == d && GGC_RP(GGC_RP(GGC_RP(x, a), a), a) && GGC_RP(x, a) && GGC_RP(x, b) && GGC_RAP(GGC_RP(x, b), 1) == GGC_RP(x, a), "the graph is intact");
    gs_cover("end");
#if WHO
    gs_exit();
#endif
}
