/* C01: more pending references than one worklist chunk holds (1024), in one or
 * two arrays of every length around the chunk size, through several
 * collections, with one element (near either end) referring to another object. */
#include "gch.h"
#ifndef BASE
#define BASE 1018
#endif
#ifndef LENS
#define LENS 10
#endif
#ifndef NCOL
#define NCOL 2
#endif
#ifdef GGGGC_COLLECTOR_PORTABLEMS
#define COLLECT(g) ggggc_collect0(0)
#define NGEN 1
#else
#define COLLECT(g) ggggc_collect0((unsigned char) (g))
#define NGEN GGGGC_GENERATIONS
#endif
GGC_TYPE(Leaf) GGC_MDATA(ggc_size_t, d); GGC_MPTR(Leaf, self); GGC_END_TYPE(Leaf, GGC_PTR(Leaf, self))
static LeafArray A, B; static gs_w vd[3];
static void checkLeaf(Leaf l, int k, Leaf *first)
{
    if (*first) { gs_assert(l == *first, "shared target stays shared"); return; }
    gs_assert(l != NULL && gs_mapped(l, sizeof(*l)), "a live reference points into the heap");
    gs_assert(GGC_RD(l, d) == vd[k], "data words are unchanged");
    gs_assert(GGC_RP(l, self) == l, "every reference to an object designates the same object");
    *first = l;
}
void harness_main(void)
{
    Leaf l[3], x = NULL; int i, k, n, m, at; gs_w v;
    l[0] = l[1] = l[2] = NULL;
    GGC_PUSH_7(A, B, l[0], l[1], l[2], x, fchain);
    n = BASE + (int) gs_choose("length", LENS);
    m = gs_choose("two arrays", 2) ? BASE + 3 : 0;
    at = (int) gs_choose("odd one", 4);
    for (k = 0; k < 3; k++) { v = vd[k] = gs_u64("d"); x = GGC_NEW(Leaf); GGC_WD(x, d, v); GGC_WP(x, self, x); l[k] = x; }
    at = at == 0 ? 0 : at == 1 ? 1 : at == 2 ? n - 1 : n / 2;
    A = GGC_NEW_PA(Leaf, n);
    for (i = 0; i < n; i++) { x = i == at ? l[2] : l[i & 1]; GGC_WAP(A, i, x); }
    if (m) { B = GGC_NEW_PA(Leaf, m); for (i = 0; i < m; i++) { x = i == at ? l[2] : l[!(i & 1)]; GGC_WAP(B, i, x); } }
    x = l[0] = l[1] = l[2] = NULL;
    for (k = 0; k < NCOL; k++) {
        Leaf f[3]; f[0] = f[1] = f[2] = NULL;
        COLLECT(gs_choose("gen", NGEN));
        churn(8);
        gs_assert(A->length == (ggc_size_t) n, "array length");
        for (i = 0; i < n; i++) { int w = i == at ? 2 : i & 1; checkLeaf(GGC_RAP(A, i), w, &f[w]); }
        if (m) for (i = 0; i < m; i++) { int w = i == at ? 2 : !(i & 1); checkLeaf(GGC_RAP(B, i), w, &f[w]); }
    }
    gs_cover("end");
}
