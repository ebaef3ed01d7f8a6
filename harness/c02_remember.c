/* C02: references from old objects to young ones. Old holders are placed all
 * over their region (several cards, objects spanning cards, last card, exactly
 * full region), with a symbolic choice of which holder words refer to which
 * young object, of the ages, and of the following collections. */
#include "gch.h"
#ifndef NH          /* holders: small objects spread over the region */
#define NH 24
#endif
#ifndef GAP
#define GAP 0
#endif
#ifndef NCOL
#define NCOL 2
#endif
#ifndef ARR         /* a holder array of this many references */
#define ARR 40
#endif
#ifndef CHURN       /* dead objects allocated over the freed young space */
#define CHURN 6
#endif
#ifndef LEAVE
#define LEAVE 20
#endif
GGC_TYPE(Hold) GGC_MPTR(Hold, prev); GGC_MPTR(void *, v); GGC_MDATA(ggc_size_t, n); GGC_END_TYPE(Hold, GGC_PTR(Hold, prev) GGC_PTR(Hold, v))
GGC_TYPE(Young) GGC_MPTR(Young, p); GGC_MDATA(ggc_size_t, d); GGC_END_TYPE(Young, GGC_PTR(Young, p))
static Hold hchain;
static gs_w vd[3];
static void checkv(Young y, int k)
{
    y = (Young) gs_concrete((gs_w) y);
    gs_assert(y != NULL && gs_mapped(y, sizeof(struct Young__ggggc_struct)), "an old object's reference is kept up to date");
    gs_assert(GGC_RD(y, d) == vd[k], "an object referred to by an old object is kept alive");
}
void harness_main(void)
{
    Hold h = NULL, x = NULL; Young a = NULL, b = NULL, y = NULL; GGC_voidpArray arr = NULL, arr2 = NULL;
    gs_w at, at2, ai, cross; int i, k, w, age;
#ifdef PAD
    GGC_size_t_Array pad = NULL;
    GGC_PUSH_10(h, x, a, b, y, arr, arr2, hchain, fchain, pad);
    pad = GGC_NEW_DA(size_t, gs_choose("pad", PAD));    /* promoted first, so everything follows it */
#elif defined(HFIRST)
    GGC_PUSH_9(h, x, a, b, y, arr, arr2, fchain, hchain);
#else
    GGC_PUSH_9(h, x, a, b, y, arr, arr2, hchain, fchain);
#endif
    vd[0] = gs_u64("d0"); vd[1] = gs_u64("d1"); vd[2] = gs_u64("d2");
    for (i = 0; i < NH; i++) {
        x = GGC_NEW(Hold); GGC_WP(x, prev, hchain); GGC_WD(x, n, i); hchain = x;
        if (GAP && i % 3 == 2) filler(i & 1);
        if (i == NH / 2) arr = GGC_NEW_PA(GGC_voidp, ARR);
    }
    arr2 = GGC_NEW_PA(GGC_voidp, 2);
#ifdef EXACT
    gs_assert(fill_young(gs_choose("leave", 2) ? LEAVE : 0), "exact fill reached");
#endif
    x = NULL;
    /* the holders reach a symbolic age */
    age = 1 + gs_choose("age", GGGGC_GENERATIONS - 1);
    for (i = 0; i < age; i++) ggggc_collect0(i);
#ifdef FULLFIRST
    if (gs_choose("full", 2)) ggggc_collect0(GGGGC_GENERATIONS - 1);
#endif
    if (GGGGC_POOL_OF(hchain)->free == GGGGC_POOL_OF(hchain)->end) gs_cover("full region");
    for (h = hchain; h; h = GGC_RP(h, prev)) if (GGGGC_CARD_OF(h) == 0 && GGGGC_POOL_OF(h)->free == GGGGC_POOL_OF(h)->end) { gs_cover("first card"); gs_log("n", GGC_RD(h, n)); }
    a = GGC_NEW(Young); { gs_w v = vd[0]; GGC_WD(a, d, v); }
    b = GGC_NEW(Young); { gs_w v = vd[1]; GGC_WD(b, d, v); }
    y = GGC_NEW(Young); { gs_w v = vd[2]; GGC_WD(y, d, v); }
    GGC_WP(b, p, y);
    /* one holder gets a, another (or the same) gets b, one array slot gets a or b */
    at = gs_choose("holder of a", NH); at2 = gs_choose("holder of b", 3) * (NH / 3); ai = gs_choose("array slot", ARR);
    cross = gs_range("slot has b", 0, 1);
    for (h = hchain; h; h = GGC_RP(h, prev)) {
        if (GGC_RD(h, n) == at) GGC_WP(h, v, a);
        if (GGC_RD(h, n) == at2 && at2 != at) GGC_WP(h, v, b);
    }
    { void *s = (void *) gs_ite(cross != 0, (gs_w) b, (gs_w) a); GGC_WAP(arr, ai, s); }
    GGC_WUP(arr2, y);
    h = NULL; a = b = y = NULL;
    for (k = 0; k < NCOL; k++) {
        ggggc_collect0((unsigned char) gs_choose("gen", GGGGC_GENERATIONS));
        churn(CHURN);
        w = 0;
        for (h = hchain, i = NH - 1; h; h = GGC_RP(h, prev), i--) {
            gs_assert(gs_mapped(h, sizeof(struct Hold__ggggc_struct)) && GGC_RD(h, n) == (gs_w) i, "the old objects are unchanged");
            if ((gs_w) i == at) { checkv((Young) GGC_RP(h, v), 0); w++; }
            else if ((gs_w) i == at2) { Young q = (Young) GGC_RP(h, v); checkv(q, 1); checkv(GGC_RP(q, p), 2); gs_assert(GGC_RP(q, p) == (Young) GGC_RUP(arr2), "shared target stays shared"); w++; }
            else gs_assert(GGC_RP(h, v) == NULL, "null stays null");
        }
        gs_assert(w == (at == at2 ? 1 : 2), "all old objects are there");
        for (i = 0; i < ARR; i++) if ((gs_w) i != ai) gs_assert(GGC_RAP(arr, i) == NULL, "null stays null");
        checkv((Young) GGC_RAP(arr, ai), cross != 0);
        checkv((Young) GGC_RUP(arr2), 2);
        check_chain(fchain);
    }
    /* wherever it ended up, nothing that is reused later holds it */
    for (k = 0; k < GGGGC_GENERATIONS; k++) {
        Young q;
        for (i = 0; i < CHURN; i++) filler(i & 1);
        ggggc_collect0(k);
        churn(CHURN);
        checkv((Young) GGC_RUP(arr2), 2);
        q = (Young) GGC_RAP(arr, ai);
        checkv(q, cross != 0);
        for (h = hchain; h; h = GGC_RP(h, prev)) {
            if (GGC_RD(h, n) == at) { checkv((Young) GGC_RP(h, v), 0); if (!cross) gs_assert(q == (Young) GGC_RP(h, v), "shared target stays shared"); }
            else if (GGC_RD(h, n) == at2) { checkv((Young) GGC_RP(h, v), 1); if (cross) gs_assert(q == (Young) GGC_RP(h, v), "shared target stays shared"); checkv(GGC_RP((Young) GGC_RP(h, v), p), 2); }
        }
        check_chain(fchain);
    }
    gs_cover("end");
}
