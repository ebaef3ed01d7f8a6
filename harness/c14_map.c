/* C14: a map with arbitrary (symbolic) keys, hashes and values against a
 * dictionary; collections before or inside any operation. A key is (h, k): the
 * hash function returns h, and two keys are equal if both words are. */
#include "gch.h"
#include "ggggc/collections/map.h"
GGC_TYPE(Key)
    GGC_MDATA(ggc_size_t, h);
    GGC_MDATA(ggc_size_t, k);
    GGC_MPTR(Key, self);
GGC_END_TYPE(Key, GGC_PTR(Key, self))
GGC_TYPE(Val)
    GGC_MPTR(Val, self);
    GGC_MDATA(ggc_size_t, v);
GGC_END_TYPE(Val, GGC_PTR(Val, self))
static size_t hash(Key a)
{
    gs_assert(a != NULL && gs_mapped(a, sizeof(*a)) && GGC_RP(a, self) == a, "the hash function is given a live key");
    return GGC_RD(a, h);
}
static int cmp(Key a, Key b)
{
    gs_assert(a != NULL && gs_mapped(a, sizeof(*a)) && GGC_RP(a, self) == a, "the comparison is given live keys");
    gs_assert(b != NULL && gs_mapped(b, sizeof(*b)) && GGC_RP(b, self) == b, "the comparison is given live keys");
    return (int) gs_ite((GGC_RD(a, h) == GGC_RD(b, h)) & (GGC_RD(a, k) == GGC_RD(b, k)), 0, 1);
}
GGC_MAP(M, Key, Val, hash, cmp)

#ifndef NPUT
#define NPUT 4
#endif
#ifndef POST
#define POST 0      /* puts after the clone */
#endif
#ifndef GCMODES
#define GCMODES 2
#endif
#ifndef CHURN
#define CHURN 20
#endif
#ifndef GCLEAVE
#define GCLEAVE (HW + 3)
#endif
static M m, c;
static struct put { gs_w h, k, v; int inm, inc; } P[NPUT + POST + 1];
static int np;
static void newkey(Key *out)
{
    Key k = NULL; gs_w h, kk;
    GGC_PUSH_1(k);
    k = GGC_NEW(Key);
    h = P[np].h = gs_u64("hash"); kk = P[np].k = gs_range("key", 0, 7);
#ifdef HMASK   /* hashes restricted to these bits: collisions in small tables, splits in bigger ones */
    h = P[np].h = h & HMASK;
#endif
#ifdef DISTINCT
    if (np < DISTINCT) { kk = np; P[np].k = kk; }
#endif
    GGC_WD(k, h, h); GGC_WD(k, k, kk); GGC_WP(k, self, k);
    *out = k;
}
#ifndef GCMAX
#define GCMAX 99        /* collections per path */
#endif
#ifndef GCFROM
#define GCFROM 0        /* no collections before this many puts */
#endif
static int ngc;
static void gc(void)
{
    int before = ngc;
    if (ngc >= GCMAX || np < GCFROM) return;
    ngc++;
    switch (gs_choose("collection", GCMODES)) {
        case 1: fill_young(0); break;
#ifdef LEAVES       /* every fill level: the collection falls on any allocation of the operation */
        case 2: fill_young(gs_choose("leave", LEAVES)); break;
#else
        case 2: fill_young(GCLEAVE); break;
#endif
        case 3: ggggc_collect0(GGGGC_GENERATIONS - 1); break;
        default: ngc = before;
    }
}
static void put(int which)
{
    Key k = NULL; Val v = NULL; gs_w vv;
    GGC_PUSH_2(k, v);
    newkey(&k);
    vv = P[np].v = gs_u64("value");
    v = GGC_NEW(Val); GGC_WD(v, v, vv); GGC_WP(v, self, v);
    gc();
    if (which) { MPut(c, k, v); P[np].inc = 1; } else { MPut(m, k, v); P[np].inm = 1; }
    if (ngc) churn(CHURN);
    np++;
}
static void get(int which)
{
    Key k = NULL; Val v = NULL; int r, i, found = 0; gs_w want = 0;
    GGC_PUSH_2(k, v);
    newkey(&k);
    gc();
    r = which ? MGet(c, k, &v) : MGet(m, k, &v);
    if (ngc) churn(CHURN);
    for (i = 0; i < np; i++) {
        int eq;
        if (!(which ? P[i].inc : P[i].inm)) continue;
        eq = (P[i].h == P[np].h) & (P[i].k == P[np].k);
        found = found | eq;
        want = gs_ite(eq, P[i].v, want);
    }
    gs_assert(found == (r != 0), "a key is found exactly if it was put");
    if (r) {
        gs_assert(v != NULL && gs_mapped(v, sizeof(*v)) && GGC_RP(v, self) == v, "the value is a live object");
        gs_assert(GGC_RD(v, v) == want, "the value is the most recently put one");
        gs_cover("found");
    } else gs_cover("absent");
}
void harness_main(void)
{
    int i;
    GGC_PUSH_3(m, c, fchain);
    m = GGC_NEW(M);
    for (i = 0; i < NPUT; i++) put(0);
#ifdef CLONE
    gc();
    c = MClone(m);
    if (ngc) churn(CHURN);
    for (i = 0; i < np; i++) P[i].inc = P[i].inm;
    for (i = 0; i < POST; i++) put(gs_choose("map", 2));
    get(1);
#ifdef BOTH
    get(0);
#endif
#elif !defined(ONEGET)
    get(0);
#endif
    ggggc_collect0(GGGGC_GENERATIONS - 1);
    get(0);
    check_chain(fchain);
    gs_cover("end");
}
