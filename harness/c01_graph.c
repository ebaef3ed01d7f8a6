/* C01: N objects with symbolic references, data and roots; symbolic ages; a
 * symbolic sequence of collections; the reachable graph is compared. */
#include "gch.h"
#ifndef N
#define N 3
#endif
#ifndef NCOL
#define NCOL 2
#endif
GGC_TYPE(Node)
    GGC_MPTR(Node, a);
    GGC_MDATA(ggc_size_t, d);
    GGC_MPTR(Node, b);
GGC_END_TYPE(Node, GGC_PTR(Node, a) GGC_PTR(Node, b))

static Node o[N + 1];
static struct GGGGC_Descriptor *dyn;
void harness_main(void)
{
    Node r0 = NULL, r1 = NULL, x = NULL, y = NULL;
    gs_w s0, s1; int i, k;
    GGC_PUSH_4(r0, r1, x, y);
    {
        GGC_PUSH_5(o[1], o[2], o[N > 2 ? 3 : 2], o[N > 3 ? 4 : 2], dyn);
        /* ages: a collection may happen between the allocations */
        for (i = 1; i <= N; i++) {
            if (i == N) { /* one object of a type whose description is only reachable through it */
                ggc_size_t pm[1]; pm[0] = (ggc_size_t) 5 << HW;
                dyn = GGC_NEW_DESCRIPTOR(HW + 3, pm);
                o[i] = (Node) GGC_NEW_FROM_DESCRIPTOR(dyn);
                dyn = NULL;
            } else o[i] = GGC_NEW(Node);
            k = sh_new(3);
#ifdef AGES
            k = (int) gs_choose("age", GGGGC_GENERATIONS > 1 ? AGES : 1);
            if (k) ggggc_collect0(k - 1);
#endif
        }
        for (i = 1; i <= N; i++) {
            gs_w sa = gs_range("a", 0, N), sb = gs_range("b", 0, N), d = gs_u64("d");
            x = o[i];
            y = (Node) pick((void **) o, N + 1, sa); GGC_WP(x, a, y);
            y = (Node) pick((void **) o, N + 1, sb); GGC_WP(x, b, y);
            GGC_WD(x, d, d);
            sh_word(i, 0, 1, sa); sh_word(i, 1, 0, d); sh_word(i, 2, 1, sb);
        }
        x = y = NULL;
        s0 = gs_range("r0", 0, N); s1 = gs_range("r1", 0, N);
        r0 = (Node) pick((void **) o, N + 1, s0);
        r1 = (Node) pick((void **) o, N + 1, s1);
        for (i = 1; i <= N; i++) o[i] = NULL;
    }
    for (i = 0; i < NCOL; i++)
        ggggc_collect0((unsigned char) gs_choose("gen", GGGGC_GENERATIONS));
    check_begin();
    s0 = gs_concrete(s0); check_obj(r0, (int) s0);
    s1 = gs_concrete(s1); check_obj(r1, (int) s1);
    if (s0 && s1 && s0 != s1) gs_cover("two live roots");
    gs_cover("end");
}
