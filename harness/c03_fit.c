/* C03: a request that fits in memory the program may have is served: part of
 * the heap is filled with live objects, then a large array of any size that
 * fits in a region is requested. */
#include "gch.h"
#ifndef LIMIT
#define LIMIT 0
#endif
#ifndef LMIN
#define LMIN 0
#endif
#ifndef LMAX
#define LMAX 60
#endif
#ifndef LSTEP
#define LSTEP 12
#endif
#ifndef NREQ
#define NREQ 2
#endif
#define CAP ((GGGGC_POOL_BYTES - GGGGC_OFFSETOF_START) / sizeof(ggc_size_t))
#define GGGGC_OFFSETOF_START ((ggc_size_t) &((struct GGGGC_Pool *) 0)->start)
void harness_main(void)
{
    GGC_size_t_Array a[NREQ + 1], b; int i, j, n; gs_w sz[NREQ];
    GGC_PUSH_1(fchain);
    env_pool_bytes = GGGGC_POOL_BYTES; env_pool_limit = LIMIT;
    for (i = 0; i <= NREQ; i++) a[i] = NULL;
    n = (int) gs_choose("live", LMAX / LSTEP + 1) * LSTEP + LMIN;
    for (i = 0; i < n; i++) filler(i & 1);
    if (gs_choose("collect first", 2)) ggggc_collect();
    {
        GGC_PUSH_3(a[0], a[1], a[NREQ > 2 ? 2 : 1]);
        for (i = 0; i < NREQ; i++) {
            static const ggc_size_t frac[] = { 0, 2, 5, 8 };
            sz[i] = CAP - HW - 1 - (CAP / 10) * frac[gs_choose("size", 4)];
            a[i] = GGC_NEW_DA(size_t, sz[i]);
            b = a[i];
            for (j = 0; j < (int) sz[i]; j += 7) { gs_w v = (gs_w) j ^ 5; gs_assert(GGC_RAD(b, j) == 0, "fresh"); GGC_WAD(b, j, v); }
            b = NULL;
#ifdef DROP
            a[i] = NULL;
#endif
        }
        check_chain(fchain);
        for (i = 0; i < NREQ; i++) if (a[i]) for (j = 0; j < (int) sz[i]; j += 7) gs_assert(GGC_RAD(a[i], j) == (gs_w) (j ^ 5), "array intact");
        gs_assert(env_pool_live <= 40, "memory stays bounded");
    }
    gs_cover("end");
}
