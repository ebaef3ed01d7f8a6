/* C09: internal tagging. Every slot of two linked objects, an array element, a
 * type's user value and two roots may be any tagged word or any reference. */
#include "gch.h"
#ifndef N
#define N 2
#endif
#ifndef NCOL
#define NCOL 2
#endif
#ifndef AGES
#define AGES 1
#endif
GGC_TYPE(Node)
    GGC_MPTR(Node, a);
    GGC_MDATA(ggc_size_t, d);
    GGC_MPTR(Node, b);
GGC_END_TYPE(Node, GGC_PTR(Node, a) GGC_PTR(Node, b))
static Node o[N + 1];
static Node glob;
struct slot { gs_w tagged, tv, sel; };
static gs_w value(struct slot *s)
{
    s->tagged = gs_range("tagged", 0, 1);
    s->tv = gs_u64("tagged value");
    gs_assume((s->tv & (sizeof(ggc_size_t) - 1)) != 0);
    s->sel = gs_range("target", 0, N);
    return gs_ite(s->tagged != 0, s->tv, (gs_w) pick((void **) o, N + 1, s->sel));
}
static struct slot sa[N + 1], sb[N + 1], se, su, sr[3];
static int depth;
static void check(void *v, struct slot *s)
{
    int id; Node n;
    if (gs_concrete(s->tagged)) { gs_assert((gs_w) v == s->tv, "a tagged word is left unchanged"); gs_cover("tagged"); return; }
    id = (int) gs_concrete(s->sel);
    s->sel = id; s->tagged = gs_concrete(s->tagged);
    if (!id) { gs_assert(v == NULL, "null stays null"); return; }
    if (seen[id]) { gs_assert(v == seen[id], "every reference designates the same object"); return; }
    n = (Node) gs_concrete((gs_w) v);
    gs_assert(n != NULL && gs_mapped(n, sizeof(*n)), "an untagged reference is kept alive and updated");
    seen[id] = n;
    gs_assert(GGC_RD(n, d) == SH[id].val[0], "an untagged reference designates its object");
    check(GGC_RP(n, a), &sa[id]);
    check(GGC_RP(n, b), &sb[id]);
    gs_cover("untagged");
}
void harness_main(void)
{
    Node x = NULL, y = NULL, r = NULL; NodeArray arr = NULL; gs_w d; int i, k;
    { GGC_PUSH_1(glob); GGC_GLOBALIZE(); }
    GGC_PUSH_4(x, y, r, arr);
    {
        GGC_PUSH_2(o[1], o[N]);
        for (i = 1; i <= N; i++) {
            o[i] = GGC_NEW(Node);
            k = (int) gs_choose("age", GGGGC_GENERATIONS > 1 ? AGES : 1);
            if (k) ggggc_collect0(k - 1);
        }
        arr = GGC_NEW_PA(Node, 2);
        for (i = 1; i <= N; i++) {
            x = o[i];
            y = (Node) value(&sa[i]); GGC_WP(x, a, y);
            y = (Node) value(&sb[i]); GGC_WP(x, b, y);
            d = gs_u64("d"); GGC_WD(x, d, d);
            sh_new(3); sh_word(i, 0, 0, d);
        }
        y = (Node) value(&se); GGC_WAP(arr, 1, y);
        x = o[1];
        y = (Node) value(&su); GGC_WUP(x, y);
        r = (Node) value(&sr[0]); glob = (Node) value(&sr[1]); y = (Node) value(&sr[2]);
        x = NULL;
        for (i = 1; i <= N; i++) o[i] = NULL;
    }
    for (i = 0; i < NCOL; i++) ggggc_collect0((unsigned char) gs_choose("gen", GGGGC_GENERATIONS));
    check_begin();
    check(r, &sr[0]); check(glob, &sr[1]); check(y, &sr[2]);
    gs_assert(arr != NULL && gs_mapped(arr, 8 * (HW + 3)) && arr->length == 2 && GGC_RAP(arr, 0) == NULL, "the array is intact");
    check(GGC_RAP(arr, 1), &se);
    x = GGC_NEW(Node);
    check(GGC_RUP(x), &su);
    gs_cover("end");
}
