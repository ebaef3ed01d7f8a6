/* C04: requests near and beyond what a region can hold: they are either served
 * in full or refused by stopping, never served with less than requested. */
#include "gch.h"
#ifndef ELS
#define ELS {1, 2, 8, 24, 4096}
#define NELS 5
#endif
#define CAP ((GGGGC_POOL_BYTES - GGGGC_OFFSETOF_B) / 8)
#define GGGGC_OFFSETOF_B ((gs_w) &((struct GGGGC_Pool *) 0)->start)
#ifdef GGGGC_COLLECTOR_PORTABLEMS
#define ONE(x)
#define COLLECT(g) ggggc_collect()
#else
#define ONE(x) x
#define COLLECT(g) ggggc_collect0(g)
#endif
static int stopped;
static void on_abort(void) { stopped = 1; gs_cover("refused"); gs_exit(); }
void harness_main(void)
{
    static const gs_w els[] = ELS;
    void *p = NULL; gs_w n, el, bytes, i;
    GGC_PUSH_1(p);
    env_on_abort = on_abort;
#if MODE == 0    /* reference arrays that can never fit */
    n = gs_u64("n");
    gs_assume(n > CAP - HW - 1);
    p = ggggc_mallocPointerArray(n);
    gs_fail("a reference array larger than any region was handed out");
#elif MODE == 1  /* data arrays that can never fit */
    n = gs_u64("n");
    el = els[gs_choose("el", NELS)];
    gs_assume(n > (CAP - HW - 1) * 8 / el);
    p = ggggc_mallocDataArray(n, el);
    gs_fail("a data array larger than any region was handed out");
#elif MODE == 2  /* few huge elements */
    el = gs_u64("el");
    n = 1 + gs_choose("n", 4);
    gs_assume(el > (CAP - HW - 1) * 8);
    p = ggggc_mallocDataArray(n, el);
    gs_fail("a data array larger than any region was handed out");
#elif MODE == 3  /* up to the largest that fits */
    n = CAP - HW - 1 - gs_range("short", 0, 3);
    n = gs_concrete(n);
    p = gs_choose("da", 2) ? ggggc_mallocDataArray(n * 8 - gs_concrete(gs_range("b", 0, 7)), 1) : ggggc_mallocPointerArray(n);
    bytes = (HW + 1 + n) * 8;
    gs_assert(gs_mapped(p, bytes), "backed by memory");
    ONE(gs_assert((((gs_w) p ^ ((gs_w) p + bytes - 1)) & ~(GGGGC_POOL_BYTES - 1)) == 0, "inside one region"));
    i = gs_range("probe", HW + 1, HW + n);
    gs_assert(((gs_w *) p)[i] == 0, "zero");
    COLLECT(GGGGC_GENERATIONS - 1);
    COLLECT(0);
    gs_assert(gs_mapped(p, bytes), "backed by memory");
    ONE(gs_assert((((gs_w) p ^ ((gs_w) p + bytes - 1)) & ~(GGGGC_POOL_BYTES - 1)) == 0, "inside one region"));
    gs_assert(((gs_w *) p)[i] == 0, "zero");
    gs_cover("end");
#elif MODE == 4  /* no elements, or elements without size */
    el = gs_u64("el");
    p = ggggc_mallocDataArray(0, el);
    gs_assert(GGC_LENGTH((GGC_voidpArray) p) == 0, "length");
    COLLECT(gs_choose("c", GGGGC_GENERATIONS));
    n = gs_u64("n");
    p = ggggc_mallocDataArray(n, 0);
    gs_assert(GGC_LENGTH((GGC_voidpArray) p) == n, "length");
    COLLECT(gs_choose("c", GGGGC_GENERATIONS));
    gs_assert(GGC_LENGTH((GGC_voidpArray) p) == n, "length");
    p = ggggc_mallocPointerArray(0);
    gs_assert(GGC_LENGTH((GGC_voidpArray) p) == 0, "length");
    gs_cover("end");
#endif
}
