/* C03: N objects with symbolic references and ages; part of the graph is
 * dropped; after full collections the space in use is exactly that of the
 * reachable objects, whatever is garbage (cycles, old objects, arrays). */
#include "gch.h"
#ifndef N
#define N 3
#endif
#ifndef AGES
#define AGES 1
#endif
GGC_TYPE(Node)
    GGC_MPTR(Node, a);
    GGC_MDATA(ggc_size_t, d);
    GGC_MPTR(Node, b);
GGC_END_TYPE(Node, GGC_PTR(Node, a) GGC_PTR(Node, b))
static Node o[N + 1];
#ifdef GGGGC_COLLECTOR_PORTABLEMS
/* the space in use is what is left after subtracting what can be allocated
 * again before the heap has to grow or be collected; see c15 */
#error not for portablems
#endif
static ggc_size_t usedWords(void)
{
    ggc_size_t u = 0; int g; struct GGGGC_Pool *p;
    for (p = ggggc_gen0; p; p = p->next) u += p->free - p->start;
    for (g = 1; g < GGGGC_GENERATIONS; g++)
        for (p = ggggc_gens[g]; p; p = p->next) u += p->free - p->start;
    return u;
}
static gs_w reach(gs_w s, gs_w *seenM)
{
    gs_w t, n = 0; struct sh *h;
    s = gs_concrete(s);
    if (!s || (*seenM >> s & 1)) return 0;
    *seenM |= 1ul << s; h = &SH[s];
    n = HW + h->words;
    t = h->val[0] = gs_concrete(h->val[0]); n += reach(t, seenM);
    t = h->val[2] = gs_concrete(h->val[2]); n += reach(t, seenM);
    return n;
}
void harness_main(void)
{
    Node r0 = NULL, r1 = NULL, x = NULL, y = NULL;
    gs_w s0, s1, live, m = 0; int i, k; ggc_size_t base;
    GGC_PUSH_4(r0, r1, x, y);
    /* warm up: every type used below has been described */
    x = GGC_NEW(Node); x = (Node) GGC_NEW_PA(Node, 7); x = NULL;
    ggggc_collect(); ggggc_collect();
    base = usedWords();
    {
        GGC_PUSH_5(o[1], o[2], o[N > 2 ? 3 : 2], o[N > 3 ? 4 : 2], o[N > 4 ? 5 : 2]);
        for (i = 1; i <= N; i++) {
            o[i] = GGC_NEW(Node); sh_new(3);
#ifdef JUNK
            { int j; for (j = 0; j < JUNK; j++) { NodeArray na = GGC_NEW_PA(Node, 7); Node q = o[i]; GGC_WAP(na, j % 7, q); } }
#endif
            k = (int) gs_choose("age", GGGGC_GENERATIONS > 1 ? AGES : 1);
            if (k) ggggc_collect0(k - 1);
        }
        for (i = 1; i <= N; i++) {
            gs_w sa = gs_range("a", 0, N), sb = gs_range("b", 0, N), d = gs_u64("d");
            x = o[i];
            y = (Node) pick((void **) o, N + 1, sa); GGC_WP(x, a, y);
            y = (Node) pick((void **) o, N + 1, sb); GGC_WP(x, b, y);
            GGC_WD(x, d, d);
            sh_word(i, 0, 1, sa); sh_word(i, 1, 0, d); sh_word(i, 2, 1, sb);
        }
        x = y = NULL;
#ifdef PROMOTE
        for (i = 0; i < GGGGC_GENERATIONS - 1; i++) ggggc_collect0(i);
#endif
        s0 = gs_range("r0", 0, N); s1 = gs_range("r1", 0, 1);
        r0 = (Node) pick((void **) o, N + 1, s0);
        r1 = (Node) pick((void **) o, N + 1, s1);
        for (i = 1; i <= N; i++) o[i] = NULL;
    }
    ggggc_collect();
    live = reach(s0, &m); live += reach(s1, &m);
    if (live) gs_cover("live");
    gs_assert(usedWords() == base + live, "after a full collection exactly the reachable objects take space");
    check_begin(); check_obj(r0, (int) gs_concrete(s0)); check_obj(r1, (int) gs_concrete(s1));
    r0 = r1 = NULL;
    ggggc_collect();
    gs_assert(usedWords() == base, "after everything is dropped the heap is as it was");
    gs_cover("end");
}
