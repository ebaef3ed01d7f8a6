/* C01/C03: full collections over fragmented regions. M objects of chosen sizes,
 * each alive or dead (symbolic), cross-linked; young, old or mixed age;
 * one or two full collections; then the space is reused and collected again. */
#include "gch.h"
#ifndef M
#define M 8
#endif
#ifndef NSYM        /* how many of them have a symbolic fate; the rest follow PATTERN */
#define NSYM M
#endif
#ifndef PATTERN
#define PATTERN 0x5555555555555555ul
#endif
#ifndef SYMAT       /* first object with a symbolic fate */
#define SYMAT 0
#endif
#ifndef BODY
#define BODY(i) (2 + ((i) * 7 % 4))
#endif
#ifndef AGE
#define AGE 1
#endif
GGC_TYPE(T2) GGC_MPTR(void *, p); GGC_MDATA(ggc_size_t, d); GGC_END_TYPE(T2, GGC_PTR(T2, p))
GGC_TYPE(T3) GGC_MPTR(void *, p); GGC_MDATA(ggc_size_t, d); GGC_MDATA(ggc_size_t, d2); GGC_END_TYPE(T3, GGC_PTR(T3, p))
GGC_TYPE(T4) GGC_MPTR(void *, p); GGC_MDATA(ggc_size_t, d); GGC_MDATA(ggc_size_t, d2); GGC_MDATA(ggc_size_t, d3); GGC_END_TYPE(T4, GGC_PTR(T4, p))
GGC_TYPE(T5) GGC_MPTR(void *, p); GGC_MDATA(ggc_size_t, d); GGC_MDATA(ggc_size_t, d2); GGC_MDATA(ggc_size_t, d3); GGC_MDATA(ggc_size_t, d4); GGC_END_TYPE(T5, GGC_PTR(T5, p))

static gs_w alive(int i)
{
    if (i >= SYMAT && i < SYMAT + NSYM) return gs_range("alive", 0, 1);
    return (PATTERN >> (i % 64)) & 1;
}
void harness_main(void)
{
    T2 prev = NULL, x = NULL, first = NULL;
    GGC_voidpArray arr = NULL;
    gs_w live[M]; int i, k, n;
    gs_w dv[M];
    GGC_PUSH_5(prev, x, first, arr, fchain);
    /* the table of all objects lives in the heap as well */
    arr = GGC_NEW_PA(GGC_voidp, M);
    for (i = 0; i < M; i++) {
        n = BODY(i);
        x = n == 2 ? (T2) GGC_NEW(T2) : n == 3 ? (T2) GGC_NEW(T3) : n == 4 ? (T2) GGC_NEW(T4) : (T2) GGC_NEW(T5);
        dv[i] = gs_u64("d");
        { gs_w v = dv[i]; GGC_WD(x, d, v); }
        for (k = 2; k < n; k++) { ((ggc_size_t *) x)[HW + k] = dv[i] + k; }
        GGC_WAP(arr, i, x);
#if AGE == 2
        if (i == M / 2) ggggc_collect0(0);
#endif
    }
#if AGE >= 1
    for (i = 0; i < GGGGC_GENERATIONS - 1; i++) ggggc_collect0(i);
#endif
    /* decide who stays; each live object refers to the previous live one */
    for (i = 0; i < M; i++) {
        gs_w al = alive(i);
        live[i] = al;
        x = (T2) GGC_RAP(arr, i);
        GGC_WP(x, p, prev);
        prev = (T2) gs_ite(al != 0, (gs_w) x, (gs_w) prev);
        x = (T2) gs_ite(al != 0, (gs_w) x, 0);
        GGC_WAP(arr, i, x);
    }
    x = prev = NULL;
    for (k = 0; k < 2; k++) {
        int j = 0, pl = -1;
        void *lo = NULL;
        ggggc_collect0(GGGGC_GENERATIONS - 1);
        for (i = 0, n = 0; i < M; i++) {
            x = (T2) GGC_RAP(arr, i);
            live[i] = gs_concrete(live[i]); n += live[i];
            if (!live[i]) { gs_assert(x == NULL, "null stays null"); continue; }
            gs_assert(x != NULL && gs_mapped(x, 8 * (HW + BODY(i))), "live object lost");
            gs_assert(GGC_RD(x, d) == dv[i], "data words are unchanged");
            for (j = 2; j < BODY(i); j++) gs_assert(((ggc_size_t *) x)[HW + j] == dv[i] + j, "data words are unchanged");
            gs_assert(obj_words(x) == HW + BODY(i), "an object keeps its type");
            prev = pl < 0 ? NULL : (T2) GGC_RAP(arr, pl);
            gs_assert(GGC_RP(x, p) == (void *) prev, "references designate the same object");
            pl = i;
        }
        prev = x = NULL;
        if (!k) { /* reuse the space in between */
            for (i = 0; i < 6; i++) filler(i & 1);
            if (gs_choose("young collection between", 2)) ggggc_collect0(0);
        }
    }
    check_chain(fchain);
    if (n && n < M) gs_cover("mixed");
    gs_cover("end");
}
