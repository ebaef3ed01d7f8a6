/* C13: two lists of symbolic elements under K operations, each chosen freely,
 * with collections before and inside operations, against sequences. */
#include "gch.h"
#include "ggggc/collections/list.h"
GGC_TYPE(Thing)
    GGC_MDATA(ggc_size_t, v);
    GGC_MPTR(Thing, peer);
GGC_END_TYPE(Thing, GGC_PTR(Thing, peer))
GGC_LIST(Thing)
#ifndef K
#define K 2
#endif
#ifndef L0
#define L0 2            /* initial lengths up to L0 */
#endif
#ifndef GCMODES
#define GCMODES 3       /* 0 none, 1 collection at the 1st allocation, 2 at the 2nd, 3 explicit young, 4 explicit full */
#endif
#define MAXL 24
#ifndef LEAVES
#define LEAVES 24
#endif
#ifndef CHURN
#define CHURN 8
#endif
static ThingList A, B;
static gs_w seq[2][MAXL]; static int len[2];
static Thing things;
static int nth;

static Thing thing(gs_w v)
{
    Thing t = NULL;
    GGC_PUSH_1(t);
    t = GGC_NEW(Thing);
    GGC_WD(t, v, v);
    GGC_WP(t, peer, t);
    return t;
}
static gs_w fresh(void) { nth++; return gs_u64("element"); }
static ThingList lst(int i) { return i ? B : A; }
/* the sequence model; positions may be symbolic */
static void ins(int l, gs_w at, gs_w v)
{
    int i;
    seq[l][len[l]] = 0;
    for (i = len[l]; i >= 0; i--) seq[l][i] = gs_ite((gs_w) i < at, seq[l][i], gs_ite((gs_w) i == at, v, i ? seq[l][i - 1] : 0));
    len[l]++;
}
static void splice(int l, gs_w at, int m)
{
    int i;
    for (i = 0; i < len[m]; i++) ins(l, at + i, seq[m][i]);
    len[m] = 0;
}
static ThingListNode node(ThingList list, gs_w at)
{
    ThingListNode n = GGC_RP(list, head); gs_w r = 0, i;
    for (i = 0; n; i++, n = GGC_RP(n, next)) r = gs_ite(at == i, (gs_w) n, r);
    return (ThingListNode) r;
}
static void gc(void)
{
    switch (gs_choose("collection", GCMODES)) {
        case 1: fill_young(0); break;
        case 2: fill_young(HW + 2); break;
        case 3: ggggc_collect0(0); break;
        case 4: ggggc_collect0(GGGGC_GENERATIONS - 1); break;
        case 5: fill_young(gs_choose("leave", LEAVES)); break;
    }
}
static void checkThing(Thing t, gs_w v)
{
    gs_assert(t != NULL && gs_mapped(t, sizeof(*t)), "an element is a live object");
    gs_assert(GGC_RD(t, v) == v, "the element at this position is the right one");
    gs_assert(GGC_RP(t, peer) == t, "the element is intact");
}
static void checkArr(ThingArray arr, int l)
{
    int i;
    gs_assert(arr->length == (ggc_size_t) len[l], "the array has the list's length");
    for (i = 0; i < len[l]; i++) checkThing(GGC_RAP(arr, i), seq[l][i]);
}
static void op(void)
{
    int l = gs_choose("list", 2), m = !l;
    gs_w v;
    Thing t = NULL; ThingListNode n = NULL; ThingArray arr = NULL;
    GGC_PUSH_3(t, n, arr);
    switch (gs_choose("operation", 8)) {
        case 0: v = fresh(); t = thing(v); gc(); ThingListPush(lst(l), t); ins(l, len[l], v); break;
        case 1: v = fresh(); t = thing(v); gc(); ThingListUnshift(lst(l), t); ins(l, 0, v); break;
        case 2:
            gc();
            t = ThingListShift(lst(l));
            if (!len[l]) gs_assert(t == NULL, "shifting an empty list yields nothing");
            else { int i; checkThing(t, seq[l][0]); for (i = 1; i < len[l]; i++) seq[l][i - 1] = seq[l][i]; len[l]--; }
            break;
        case 3: {
            gs_w at;
            if (!len[l]) gs_exit();
            at = gs_range("after", 0, len[l] - 1);
            v = fresh(); t = thing(v); gc();
            n = node(lst(l), at);
            ThingListInsertAfter(lst(l), n, t); ins(l, at + 1, v);
            break;
        }
        case 4: gc(); ThingListPushList(lst(l), lst(m)); splice(l, len[l], m); break;
        case 5: gc(); ThingListUnshiftList(lst(l), lst(m)); splice(l, 0, m); break;
        case 6: {
            gs_w at;
            if (!len[l]) gs_exit();
            at = gs_range("after", 0, len[l] - 1);
            gc();
            n = node(lst(l), at);
            ThingListInsertAfterList(lst(l), n, lst(m)); splice(l, at + 1, m);
            break;
        }
        case 7: gc(); arr = ThingListToArray(lst(l)); checkArr(arr, l); break;
    }
}
static void check(int l)
{
    ThingListNode n = GGC_RP(lst(l), head);
    int i;
    gs_assert(GGC_RD(lst(l), length) == (ggc_size_t) len[l], "length is the number of elements");
    for (i = 0; i < len[l]; i++) {
        gs_assert(n != NULL, "no element is lost");
        gs_assert(gs_mapped(n, sizeof(*n)), "nodes are live");
        checkThing(GGC_RP(n, el), seq[l][i]);
        n = GGC_RP(n, next);
    }
    gs_assert(n == NULL, "nothing follows the last element");
}
void harness_main(void)
{
    int i, j;
    Thing t = NULL; ThingArray arr = NULL;
    GGC_PUSH_5(A, B, t, arr, fchain);
    A = GGC_NEW(ThingList); B = GGC_NEW(ThingList);
    for (j = 0; j < 2; j++) {
        int n = gs_choose(j ? "length of B" : "length of A", L0 + 1);
        for (i = 0; i < n; i++) {
            gs_w v = fresh(); t = thing(v);
            if (i & 1) { ThingListUnshift(lst(j), t); ins(j, 0, v); }
            else { ThingListPush(lst(j), t); ins(j, len[j], v); }
        }
    }
    t = NULL;
    check(0); check(1);
    for (i = 0; i < K; i++) { op(); churn(CHURN); check(0); check(1); }
    gs_cover("operations done");
    /* what comes afterwards sees consistent ends */
    for (j = 0; j < 2; j++) { gs_w v = fresh(); t = thing(v); ThingListPush(lst(j), t); ins(j, len[j], v); }
    ggggc_collect0(GGGGC_GENERATIONS - 1);
    check(0); check(1);
    arr = ThingListToArray(A); checkArr(arr, 0);
    arr = ThingListToArray(B); checkArr(arr, 1);
    check_chain(fchain);
    gs_cover("end");
}
