/* Shadow-heap library shared by the harnesses: objects of any declared layout
 * with symbolic references and data, and a check that what the program reads
 * back through the public accessors is the same logical graph. */
#ifndef GCH_H
#define GCH_H 1
#include "ggggc/gc.h"
#include "ggggc-internals.h"

#define HW GGGGC_WORD_SIZEOF(struct GGGGC_Header)   /* header words */

#ifdef __cplusplus
extern "C" void harness_main(void);
#define GSREF(T) T
#endif

/* any object, seen as a word array behind its header */
typedef struct gobj {
    struct GGGGC_Header header;
    union { void *a__ptrs[1]; ggc_size_t a__data[1]; };
} *GObj;
typedef struct gobjx {
    struct GGGGC_Header header;
    union { void *w__ptr; ggc_size_t w__data; };
} *GObjX;

#ifndef MAXO
#define MAXO 32
#endif
#ifndef MAXW
#define MAXW 8
#endif
/* shadow object: word i (0-based, after the header) is a reference or data */
struct sh {
    ggc_size_t words;
    int probe;              /* words actually modelled: idx[] */
    int idx[MAXW];          /* word index of modelled word i */
    int isref[MAXW];
    gs_w val[MAXW];         /* data value, or shadow id of the target (0 = null) */
    int arraylen;           /* -1, or the array length in word 0 */
};
static struct sh SH[MAXO];
static int nsh = 1;             /* 0 is null */
static void *seen[MAXO];
static void *tbl[MAXO];         /* scratch: current addresses, only valid while no collection runs */

#define RDW(o, i) (((GObj) (o))->a__data[i])
#define RDP(o, i) (((GObj) (o))->a__ptrs[i])

/* write through the public array write barrier */
static void gwp(void *o_, ggc_size_t i, void *v) { GObj o = (GObj) o_; GGC_WAP(o, i, v); }
static void gwd(void *o_, ggc_size_t i, gs_w v) { GObj o = (GObj) o_; GGC_WAD(o, i, v); }

/* choose, without splitting the path, one of t[0..n-1] */
static void *pick(void **t, int n, gs_w sel)
{
    gs_w r = 0; int i;
    for (i = 0; i < n; i++) r = gs_ite(sel == (gs_w) i, (gs_w) t[i], r);
    return (void *) r;
}

static int sh_new(ggc_size_t words) { int id = nsh++; SH[id].words = words; SH[id].probe = 0; SH[id].arraylen = -1; return id; }
static void sh_word(int id, int idx, int isref, gs_w v)
{
    struct sh *s = &SH[id]; int i;
    for (i = 0; i < s->probe; i++) if (s->idx[i] == idx) break;
    if (i == s->probe) s->probe++;
    s->idx[i] = idx; s->isref[i] = isref; s->val[i] = v;
}

/* the size of an object as the collector sees it */
static ggc_size_t obj_words(void *p) { return ((struct GGGGC_Header *) p)->descriptor__ptr->size; }

static void check_obj(void *p, int id)
{
    int i;
    struct sh *s = &SH[id];
    if (!id) { gs_assert(p == NULL, "a null reference stays null"); return; }
    if (seen[id]) { gs_assert(p == seen[id], "every reference to an object designates the same object"); return; }
    gs_assert(p != NULL, "a reference to a live object is not null");
    p = (void *) gs_concrete((gs_w) p);
    gs_assert(gs_mapped(p, sizeof(struct GGGGC_Header)), "a live reference points into the heap");
    gs_assert((ggc_size_t) GGGGC_WORD_SIZEOF(struct GGGGC_Header) + s->words == obj_words(p)
              || (obj_words(p) == GGGGC_MINIMUM_OBJECT_SIZE && HW + s->words < GGGGC_MINIMUM_OBJECT_SIZE), "an object keeps its type");
    for (i = 1; i < nsh; i++) if (seen[i]) {
        gs_w a = (gs_w) seen[i], b = (gs_w) p;
        gs_assert(b >= a + (HW + SH[i].words) * sizeof(ggc_size_t) || a >= b + (HW + s->words) * sizeof(ggc_size_t), "distinct objects do not overlap");
    }
    seen[id] = p;
    for (i = 0; i < s->probe; i++) {
        if (!s->isref[i]) gs_assert(RDW(p, s->idx[i]) == s->val[i], "data words are unchanged");
        else { gs_w t = gs_concrete(s->val[i]); s->val[i] = t; check_obj(RDP(p, s->idx[i]), (int) t); }
    }
}
/* ---- fillers: live chains of small objects used to reach exact fill levels */
GGC_TYPE(Fill)
    GGC_MPTR(Fill, next);
    GGC_MDATA(ggc_size_t, d);
GGC_END_TYPE(Fill, GGC_PTR(Fill, next))
GGC_TYPE(Fill2)
    GGC_MPTR(Fill, next);
    GGC_MDATA(ggc_size_t, d);
    GGC_MDATA(ggc_size_t, e);
GGC_END_TYPE(Fill2, GGC_PTR(Fill2, next))
static Fill fchain;             /* most recent first; a root as long as the harness pushes it */
static int nfill;               /* d counts 1..nfill from the oldest */

/* words left in the region that holds the most recently allocated object */
static ggc_size_t words_after(void *p)
{
    gs_w e = (gs_w) p + obj_words(p) * sizeof(ggc_size_t);
    gs_w end = ((gs_w) p & ~(GGGGC_POOL_BYTES - 1)) + GGGGC_POOL_BYTES;
    return (end - e) / sizeof(ggc_size_t);
}
static Fill filler(int big)
{
    Fill f = NULL;
    GGC_PUSH_1(f);
    f = big ? (Fill) GGC_NEW(Fill2) : GGC_NEW(Fill);
    GGC_WP(f, next, fchain);
    nfill++;
    GGC_WD(f, d, nfill);
    if (big) { Fill2 g = (Fill2) f; gs_w v = ~(gs_w) nfill; GGC_WD(g, e, v); }
    fchain = f;
    return f;
}
/* fill the current young region with live objects until exactly `leave` words
 * are left; rolls over into the next region (possibly collecting) when the
 * remaining space cannot be filled exactly */
static int fill_young(ggc_size_t leave)
{
    ggc_size_t S = HW + 2, r, c; gs_w pool; int rolls = 0;
    Fill f = filler(0);
    GGC_PUSH_1(f);
    pool = (gs_w) f & ~(GGGGC_POOL_BYTES - 1);
    while (rolls < 4) {
        c = words_after(f);
        if (c == leave) return 1;
        r = c - leave;
        if (c < leave) r = 0;
        f = filler(r >= S + 1 && r % S);
        if (((gs_w) f & ~(GGGGC_POOL_BYTES - 1)) != pool) rolls++;
        pool = (gs_w) f & ~(GGGGC_POOL_BYTES - 1);
    }
    return 0;
}
static void check_chain(Fill f)
{
    int n = nfill;
    while (f) {
        gs_assert(gs_mapped(f, sizeof(struct Fill__ggggc_struct)), "a live reference points into the heap");
        gs_assert(GGC_RD(f, d) == (ggc_size_t) n, "the filler chain is unchanged");
        if (obj_words(f) == HW + 3) { Fill2 g = (Fill2) f; gs_assert(GGC_RD(g, e) == ~(gs_w) n, "the filler data is unchanged"); }
        n--;
        f = GGC_RP(f, next);
    }
    gs_assert(n == 0, "the filler chain is complete");
}
/* reuse freed memory: n dead objects full of junk */
static void churn(int n)
{
    Fill f = NULL; gs_w v = 0x0badbadbadbadbabul;
    GGC_PUSH_1(f);
    while (n--) { f = GGC_NEW(Fill); GGC_WD(f, d, v); GGC_WP(f, next, f); }
    f = NULL;
    return;
}
static void check_begin(void) { int i; for (i = 0; i < MAXO; i++) seen[i] = NULL; }

#endif
