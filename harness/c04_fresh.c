/* C04: whatever was in memory before, a fresh object is zero, inside one
 * region, disjoint from everything alive, and as large as requested. */
#include "gch.h"
#ifndef K
#define K 2                     /* requests */
#endif
#ifndef DIRT
#define DIRT 40                 /* garbage arrays that leave nonzero words behind */
#endif
#ifndef LEAVES
#define LEAVES 8                /* fill levels 0..LEAVES-1 words before the end of the region */
#endif
#ifndef LENS
#define LENS {0, 1, 2, 5, 33}
#define NLENS 5
#endif
#ifndef AGES
#define AGES 3
#endif
#ifndef KINDS
#define KINDS 5
#endif
GGC_TYPE(Node)
    GGC_MPTR(Node, a);
    GGC_MDATA(ggc_size_t, d);
GGC_END_TYPE(Node, GGC_PTR(Node, a))
GGC_TYPE(Big)
    GGC_MDATA(ggc_size_t, d0);
    GGC_MPTR(Node, a);
    GGC_MDATA(ggc_size_t, d1);
    GGC_MDATA(ggc_size_t, d2);
    GGC_MDATA(char, c);
GGC_END_TYPE(Big, GGC_PTR(Big, a))
GGC_TYPE(Tiny)
    GGC_MDATA(char, c);
GGC_END_TYPE(Tiny, GGC_NO_PTRS)
GGC_DA_TYPE(gs_w)
typedef unsigned char byte;
GGC_DA_TYPE(byte)
struct odd { unsigned char b[11]; };
typedef struct odd odd;
GGC_DA_TYPE(odd)

static gs_w dirty;
static NodeArray keep;
static void soil(int n)
{
    GGC_gs_w_Array da = NULL; NodeArray pa = NULL; Node nd = NULL; int i, j;
    GGC_PUSH_3(da, pa, nd);
    for (i = 0; i < n; i++) {
        int len = 3 + i % 7;
        da = GGC_NEW_DA(gs_w, len);
        for (j = 0; j < len; j++) { gs_w v = dirty; GGC_WAD(da, j, v); }
        nd = GGC_NEW(Node); { gs_w v = ~dirty; GGC_WD(nd, d, v); } GGC_WP(nd, a, nd);
        pa = GGC_NEW_PA(Node, 2); GGC_WAP(pa, 0, nd); GGC_WAP(pa, 1, nd);
        if (keep && i % 5 == 0) { nd = GGC_NEW(Node); { gs_w v = i; GGC_WD(nd, d, v); } GGC_WAP(keep, i / 5, nd); }
    }
    return;
}
static void check_keep(int n)
{
    Node nd = NULL; int i;
    GGC_PUSH_1(nd);
    for (i = 0; i < n; i++) if (i % 5 == 0) {
        nd = GGC_RAP(keep, i / 5);
        gs_assert(nd != NULL && GGC_RD(nd, d) == (gs_w) i && !GGC_RP(nd, a), "live objects are unchanged by later allocations");
    }
    return;
}
/* the bytes of a live or fresh object, as requested */
static void check_fresh(void *p, gs_w bytes, gs_w from)
{
    gs_w a = (gs_w) p, i, w;
    gs_assert(p != NULL, "an allocation succeeds");
    gs_assert((a & (sizeof(gs_w) - 1)) == 0, "objects are aligned");
#ifndef GGGGC_COLLECTOR_PORTABLEMS
    gs_assert(((a ^ (a + bytes - 1)) & ~(GGGGC_POOL_BYTES - 1)) == 0, "an object lies inside one region");
    gs_assert((void *) (GGGGC_POOL_OF(p)->start) <= p, "an object lies behind the region's header");
#endif
    gs_assert(gs_mapped(p, bytes), "an object is backed by memory");
    gs_assert(obj_words(p) * sizeof(gs_w) >= bytes, "the collector sees an object at least as large as requested");
    i = gs_range("probe", HW, obj_words(p) - 1);
    w = ((gs_w *) p)[i];
    if (from) gs_assert(w == 0 || i < from, "fresh storage is zero");
    else gs_assert(w == 0, "fresh storage is zero");
}
static void check_array(void *p, gs_w len, gs_w elsize)
{
    check_fresh(p, (HW + 1) * sizeof(gs_w) + len * elsize, HW + 1);
    gs_assert(((GGC_voidpArray) p)->length == len, "an array reports the requested length");
    gs_assert(GGC_LENGTH((GGC_voidpArray) p) == len, "GGC_LENGTH reports the requested length");
}
static void disjoint(void *p, gs_w n, void *q, gs_w m)
{
    gs_w a = (gs_w) p, b = (gs_w) q;
    gs_assert(a + n <= b || b + m <= a, "objects do not overlap");
}
/* an exiting thread leaves its dirty regions behind */
static void worker(GGC_ThreadArg a)
{
    GGC_PUSH_1(a);
    soil(DIRT);
    return;
}

void harness_main(void)
{
    static const gs_w lens[] = LENS;
    GGC_voidpArray got = NULL; void *p = NULL; Node nd = NULL; void *q = NULL;
    gs_w size[K + 1]; int i, j; gs_w kind, len;
    GGC_PUSH_6(got, p, nd, q, keep, fchain);
    dirty = gs_u64("dirty");
    keep = GGC_NEW_PA(Node, DIRT / 5 + 1);
    got = (GGC_voidpArray) GGC_NEW_PA(Node, K + 1);
    soil(DIRT);
#ifdef THREAD
    {
        GGC_ThreadArg ta = NULL; ggc_thread_t t;
        GGC_PUSH_1(ta);
        ta = GGC_NEW(GGC_ThreadArg);
        gs_assert(ggc_thread_create(&t, worker, ta) == 0, "thread creation");
        ggc_thread_join(t);
    }
#endif
    j = (int) gs_choose("collect", AGES);
    if (j) ggggc_collect0((unsigned char) (j - 1 < GGGGC_GENERATIONS ? j - 1 : GGGGC_GENERATIONS - 1));
    if (j > GGGGC_GENERATIONS) ggggc_collect0(GGGGC_GENERATIONS - 1);
#ifdef FILL
    gs_assert(fill_young(gs_choose("leave", LEAVES)), "exact fill reached");
#endif
    for (i = 0; i < K; i++) {
        kind = gs_choose("kind", KINDS);
        len = kind >= 3 ? lens[gs_choose("len", NLENS)] : 0;
        if (kind == 0) { p = GGC_NEW(Node); size[i] = sizeof(struct Node__ggggc_struct); check_fresh(p, size[i], 0); }
        else if (kind == 1) { p = GGC_NEW(Big); size[i] = sizeof(struct Big__ggggc_struct); check_fresh(p, size[i], 0); }
        else if (kind == 2) { p = GGC_NEW(Tiny); size[i] = sizeof(struct Tiny__ggggc_struct); check_fresh(p, size[i], 0); }
        else if (kind == 3) { p = GGC_NEW_PA(Node, len); size[i] = (HW + 1 + len) * 8; check_array(p, len, 8); }
        else if (kind == 4) { p = GGC_NEW_DA(odd, len); size[i] = (HW + 1) * 8 + len * 11; check_array(p, len, 11); }
        gs_assert(((struct GGGGC_Header *) p)->descriptor__ptr->user__ptr == NULL, "a type's user value starts null");
        if (kind == 0) gs_assert(((struct GGGGC_Header *) p)->descriptor__ptr == Node__descriptorSlot.descriptor, "a fresh object has its type");
        if (kind == 1) gs_assert(((struct GGGGC_Header *) p)->descriptor__ptr == Big__descriptorSlot.descriptor, "a fresh object has its type");
        disjoint(p, size[i], keep, (HW + 1 + DIRT / 5 + 1) * 8);
        disjoint(p, size[i], got, (HW + 1 + K + 1) * 8);
        for (j = 0; j < i; j++) { q = GGC_RAP(got, j); disjoint(p, size[i], q, size[j]); }
        q = NULL;
        for (j = 0; j < (DIRT + 4) / 5; j++) disjoint(p, size[i], GGC_RAP(keep, j), sizeof(struct Node__ggggc_struct));
        GGC_WAP(got, i, p);
        /* write everything that was requested: later objects must not notice */
        if (kind >= 3) memset((char *) p + (HW + 1) * 8, kind == 3 ? 0 : 0xff, size[i] - (HW + 1) * 8);
        else if (kind == 1) { Big b = (Big) p; gs_w v = dirty; char c = 0x7f; GGC_WD(b, d0, v); GGC_WD(b, d1, v); GGC_WD(b, d2, v); GGC_WD(b, c, c); }
        else if (kind == 2) { Tiny b = (Tiny) p; char c = 0x7f; GGC_WD(b, c, c); }
    }
    check_keep(DIRT);
    check_chain(fchain);
#ifdef LAST
    ggggc_collect0(GGGGC_GENERATIONS - 1);
    check_keep(DIRT);
    check_chain(fchain);
#endif
    gs_cover("end");
}
