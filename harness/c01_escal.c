/* C01: a young collection which promotes some objects, finds the next
 * generation full, and goes on as a collection of more generations (perhaps up
 * to a full one). Several references lead to the same objects, and some
 * objects have descriptions of their own, so any part of the graph may already
 * have moved (once or more often) when it is reached again. */
#include "gch.h"
#ifndef N
#define N 3
#endif
#ifndef L
#define L 1
#endif
#ifndef X0
#define X0 0
#endif
#ifndef XN
#define XN 17
#endif
#define NO (N + L)
#ifndef GEN
#define GEN 0
#endif
GGC_TYPE(Node)
    GGC_MPTR(Node, a);
    GGC_MDATA(ggc_size_t, d);
    GGC_MPTR(Node, b);
GGC_END_TYPE(Node, GGC_PTR(Node, a) GGC_PTR(Node, b))
static Node o[NO + 1];
/* room left in an older generation */
static void level(int full, int gens)
{
    int i;
    fill_young(full);
    for (i = 0; i < gens; i++) ggggc_collect0((unsigned char) i);
}
void harness_main(void)
{
    Node r0 = NULL, r1 = NULL, x = NULL, y = NULL; struct GGGGC_Descriptor *desc = NULL;
    gs_w s0, s1; int i;
    GGC_PUSH_6(r0, r1, x, y, desc, fchain);
#if GGGGC_GENERATIONS > 2
    if (gs_choose("oldest full", 2)) {
        level((int) gs_choose("free words older", 2) * 7 + 2, GGGGC_GENERATIONS - 1);
        if (gs_choose("old garbage", 2)) { int k = nfill / 2; while (nfill > k) { fchain = GGC_RP(fchain, next); nfill--; } }
    }
#endif
    level(X0 + (int) gs_choose("free words", XN), 1);
    if (gs_choose("garbage", 2)) { int k = nfill / 2; while (nfill > k) { fchain = GGC_RP(fchain, next); nfill--; } }
    {
        GGC_PUSH_5(o[1], o[2], o[3], o[NO > 3 ? 4 : 1], o[NO > 4 ? 5 : 1]);
        for (i = 1; i <= N; i++) { o[i] = GGC_NEW(Node); sh_new(3); }
        for (; i <= NO; i++) {
            gs_w d = gs_u64("leaf");
            desc = ggggc_allocateDescriptorDA(HW + 2);
#ifdef OWNREFS
            /* a description with references, too */
            desc = ggggc_allocateDescriptor(HW + 2, ((ggc_size_t) 2 << HW) | 1);
#endif
            o[i] = (Node) ggggc_malloc(desc); sh_new(2);
            gwd(o[i], 0, d); sh_word(i, 0, 0, d);
#ifdef OWNREFS
            sh_word(i, 1, 1, 0);
#endif
            desc = NULL;
        }
        for (i = 1; i <= N; i++) {
            gs_w sa = gs_range("a", 0, i == 1 ? NO : 1), sb = gs_range("b", i == 3 ? 2 : 0, i == 3 ? 4 : NO), d = gs_u64("d");
            x = o[i];
            y = (Node) pick((void **) o, NO + 1, sa); GGC_WP(x, a, y);
            y = (Node) pick((void **) o, NO + 1, sb); GGC_WP(x, b, y);
            GGC_WD(x, d, d);
            sh_word(i, 0, 1, sa); sh_word(i, 1, 0, d); sh_word(i, 2, 1, sb);
        }
        x = y = NULL;
        s0 = 1; s1 = gs_range("r1", 1, 2);
        r0 = o[1];
        r1 = (Node) pick((void **) o, NO + 1, s1);
        for (i = 1; i <= NO; i++) o[i] = NULL;
    }
    ggggc_collect0(0);
    check_begin();
    s1 = gs_concrete(s1); check_obj(r0, (int) s0); check_obj(r1, (int) s1); check_chain(fchain);
    if (seen[NO]) {
        struct GGGGC_Header *lf = (struct GGGGC_Header *) seen[NO];
        if (GGGGC_GEN_OF(lf) > GGGGC_GEN_OF(lf->descriptor__ptr)) gs_cover("description left behind");
        if (GGGGC_GEN_OF(lf) != GGGGC_GEN_OF(seen[1])) gs_cover("part of the graph left behind");
    }
    churn(10);
    ggggc_collect0(GEN);
    churn(200);
    check_begin();
    check_obj(r0, (int) s0); check_obj(r1, (int) s1); check_chain(fchain);
    gs_cover("end");
}
