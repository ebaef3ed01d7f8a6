/* C01: collections that escalate because an older generation is full. The old
 * generation is filled with live objects up to a chosen number of free words,
 * then a young graph with symbolic edges is collected. */
#include "gch.h"
#ifndef N
#define N 2
#endif
#ifndef X0
#define X0 0
#endif
#ifndef XN
#define XN 16
#endif
GGC_TYPE(Node)
    GGC_MPTR(Node, a);
    GGC_MDATA(ggc_size_t, d);
    GGC_MPTR(Node, b);
GGC_END_TYPE(Node, GGC_PTR(Node, a) GGC_PTR(Node, b))
static Node o[N + 1];
void harness_main(void)
{
    Node r0 = NULL, x = NULL, y = NULL;
    Fill keep = NULL;
    gs_w s0; int i, g;
    GGC_PUSH_5(r0, x, y, fchain, keep);
#if GGGGC_GENERATIONS > 2
    /* older generations first */
    for (g = GGGGC_GENERATIONS - 2; g > 0; g--) {
        fill_young(gs_choose("free words older", 2) ? 2 : 9);
        for (i = 0; i < g; i++) ggggc_collect0(i);
    }
#endif
    fill_young((X0 + gs_choose("free words", XN) * 1) + 0);
    ggggc_collect0(0);
#ifdef DEADFILL
    /* some of the old fillers die: all but the oldest k */
    if (gs_choose("old garbage", 2)) {
        int k = nfill / 2;
        while (nfill > k) { fchain = GGC_RP(fchain, next); nfill--; }
    }
#endif
    {
        GGC_PUSH_3(o[1], o[2], o[N > 2 ? 3 : 2]);
        for (i = 1; i <= N; i++) { o[i] = GGC_NEW(Node); sh_new(3); }
        for (i = 1; i <= N; i++) {
            gs_w sa = gs_range("a", 0, N), sb = gs_range("b", 0, N), d = gs_u64("d");
            x = o[i];
            y = (Node) pick((void **) o, N + 1, sa); GGC_WP(x, a, y);
            y = (Node) pick((void **) o, N + 1, sb); GGC_WP(x, b, y);
            GGC_WD(x, d, d);
            sh_word(i, 0, 1, sa); sh_word(i, 1, 0, d); sh_word(i, 2, 1, sb);
        }
        x = y = NULL;
        s0 = gs_range("r0", 0, N);
        r0 = (Node) pick((void **) o, N + 1, s0);
        for (i = 1; i <= N; i++) o[i] = NULL;
    }
    ggggc_collect0(0);
    check_begin();
    s0 = gs_concrete(s0); check_obj(r0, (int) s0); check_chain(fchain);
    /* and the heap is still usable */
    for (i = 0; i < 4; i++) filler(i & 1);
    ggggc_collect0((unsigned char) gs_choose("gen", GGGGC_GENERATIONS));
    for (i = 0; i < 40; i++) filler(i & 1);
    check_begin();
    check_obj(r0, (int) s0); check_chain(fchain);
    gs_cover("end");
}
