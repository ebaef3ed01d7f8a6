/* C08: finalizers under every short history of registrations, drops and young,
 * full and escalated collections. */
#include "gch.h"
#ifndef NF
#define NF 2
#endif
#ifndef K
#define K 3
#endif
#ifndef EV
#define EV 4
#endif
GGC_TYPE(Leaf)
    GGC_MDATA(ggc_size_t, a);
    GGC_MPTR(Leaf, self);
GGC_END_TYPE(Leaf, GGC_PTR(Leaf, self))
GGC_TYPE(Res)
    GGC_MDATA(ggc_size_t, id);
    GGC_MPTR(Leaf, leaf);
    GGC_MPTR(Res, other);
    GGC_MDATA(ggc_size_t, val);
GGC_END_TYPE(Res, GGC_PTR(Res, leaf) GGC_PTR(Res, other))

static Res r[NF], keep;
static gs_w val[NF], rooted[NF], refers[NF];      /* symbolic truth values: root r[i] holds i; i refers to i-1 */
static int reg[NF], ran[NF], inCollect, depth;
#ifdef RESURRECT
static int kept;
#endif

static gs_w reachable(int i)
{
    gs_w x = 0; int j;
    for (j = NF - 1; j >= i; j--) x = rooted[j] | (j + 1 < NF ? x & refers[j + 1] : 0);
    return x;
}
static void intact(Res o, int i)
{
    Leaf l; Res p;
    gs_assert(gs_mapped(o, sizeof(*o)) && obj_words(o) == HW + 4, "the object is intact");
    gs_assert(GGC_RD(o, id) == (ggc_size_t) i && GGC_RD(o, val) == val[i], "the object's contents are intact");
    l = GGC_RP(o, leaf);
    gs_assert(l != NULL && gs_mapped(l, sizeof(*l)) && GGC_RP(l, self) == l && GGC_RD(l, a) == ~val[i], "what the object references is intact");
    p = GGC_RP(o, other);
    gs_assert((p != NULL) == (refers[i] != 0), "the object's references are intact");
    if (p) gs_assert(gs_mapped(p, sizeof(*p)) && GGC_RD(p, id) == (ggc_size_t) i - 1 && GGC_RD(p, val) == val[i - 1], "the object's references are intact");
}
static void fin(void *v)
{
    Res o = (Res) v; int i;
    GGC_PUSH_1(o);
    gs_assert(inCollect, "finalizers run in a collection");
    gs_assert(o != NULL && gs_mapped(o, sizeof(*o)), "the finalizer receives the object");
    i = (int) GGC_RD(o, id);
    gs_assert(i >= 0 && i < NF && reg[i], "only registered finalizers run");
    gs_assert(reachable(i) == 0, "a finalizer only runs once its object is unreachable");
    gs_assert(ran[i] < reg[i], "a finalizer runs once");
    intact(o, i);
    ran[i]++;
    gs_cover("ran");
#ifdef ALLOCFIN
    if (depth < 1) { depth++; if (gs_choose("collection in the finalizer", 2)) ggggc_collect0(gs_choose("which", GGGGC_GENERATIONS)); filler(1); depth--; intact(o, i); }
#endif
#ifdef RESURRECT
    if (!kept && gs_choose("keep it", 2)) { kept = i + 1; keep = o; }
#endif
}
static void collect(int gen) { int i; inCollect++; ggggc_collect0(gen); inCollect--; for (i = 0; i < NF; i++) { gs_assert((r[i] != NULL) == (rooted[i] != 0), "roots are kept"); if (r[i]) intact(r[i], i); } }
static void registerIt(int i) { GGC_FINALIZE(r[i], fin); reg[i]++; }

void harness_main(void)
{
    int i, k;
    Leaf l = NULL; Res o = NULL; void *tail = NULL;
#ifdef LASTNULL
    GGC_PUSH_1(tail);
    { 
#endif
    GGC_PUSH_4(l, o, keep, fchain);
    for (i = 0; i < NF; i++) { GGC_PUSH_1(r[i]); GGC_GLOBALIZE(); }
    inCollect = 1;  /* setting up may collect; nothing is unreachable yet */
    for (i = 0; i < NF; i++) {
        gs_w id = i, v;
        val[i] = gs_u64("value"); v = ~val[i];
        l = GGC_NEW(Leaf); GGC_WD(l, a, v); GGC_WP(l, self, l);
        o = GGC_NEW(Res); v = val[i];
        GGC_WD(o, id, id); GGC_WD(o, val, v); GGC_WP(o, leaf, l);
        refers[i] = 0;
        if (i) { Res p = r[i - 1]; refers[i] = gs_range("refers to its predecessor", 0, 1); p = (Res) gs_ite(refers[i] != 0, (gs_w) p, 0); GGC_WP(o, other, p); }
        r[i] = o; rooted[i] = 1;
        o = NULL; l = NULL;
        /* register now, or after the object has aged */
        switch (gs_choose("registered", AGES)) {
            case 0: registerIt(i); break;
            case 1: collect(0); registerIt(i); break;
            case 2: collect(GGGGC_GENERATIONS - 1); registerIt(i); break;
            case 3: registerIt(i); registerIt(i); break;
            case 4: break;
            case 5: fill_young(0); registerIt(i); break;        /* the registration itself collects */
            case 6: collect(0); fill_young(0); registerIt(i); break;
        }
    }
    for (k = 0; k < K; k++) {
        switch (gs_choose("event", EV)) {
            case 0: collect(0); break;
            case 1: collect(GGGGC_GENERATIONS - 1); break;
            case 2: {      /* drop any of them */
                gs_w d;
                for (i = 0; i < NF; i++) {
                    d = gs_range("drop", 0, 1);
                    r[i] = (Res) gs_ite(d != 0, 0, (gs_w) r[i]);
                    rooted[i] = rooted[i] & (d ^ 1);
                }
                break;
            }
            case 3: fill_young(0); collect(0); break;
            case 4: i = gs_choose("register", NF); if (!r[i]) gs_exit(); if (gs_choose("region full", 2)) fill_young(0); registerIt(i); break;
            case 5: collect(1); break;
        }
    }
    /* nothing is lost: drop everything, and it all runs */
    for (i = 0; i < NF; i++) { rooted[i] = 0; r[i] = NULL; }
#ifdef RESURRECT
    if (kept) intact(keep, kept - 1);
    keep = NULL;
#endif
    for (i = 0; i < NF + 1; i++) collect(GGGGC_GENERATIONS - 1);
    for (i = 0; i < NF; i++) gs_assert(ran[i] == reg[i], "every registered finalizer has run");
    collect(0); collect(GGGGC_GENERATIONS - 1);
    check_chain(fchain);
    gs_cover("end");
#ifdef LASTNULL
    }
#endif
}
