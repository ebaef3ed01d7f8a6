/* C06: every push arity, scoped and manual, nested in every other, left by
 * every kind of exit. Compiled as C with and without cleanup support and as
 * C++. Frames at depth 0 and 1 hold all references the program has. */
#include "gch.h"
#include <alloca.h>
#ifdef GGGGC_NO_GNUC_CLEANUP
#define NOGNU 1
#endif
#ifdef __cplusplus
#undef NOGNU
#endif
#ifndef EXITS
#define EXITS 4
#endif
GGC_TYPE(Vic) GGC_MDATA(ggc_size_t, d); GGC_MPTR(Vic, p); GGC_END_TYPE(Vic, GGC_PTR(Vic, p))
#define NA 16
#ifdef __cplusplus
#define VIC(e) ((Vic) (e))
#else
#define VIC(e) (e)
#endif
static int innerManual;

/* references of a frame: all designate fresh objects, two positions may be null or shared */
struct frame { int n, ns; int sym[2]; gs_w nul[2]; gs_w d[NA]; };
static void fresh(Vic *v, struct frame *f, int n)
{
    int i;
    f->n = n; f->ns = innerManual == 3 ? 1 : 2;
    f->sym[0] = 0; f->sym[1] = n - 1;
    for (i = 0; i < n; i++) v[i] = NULL;
}
/* called with the frame registered: allocation may collect */
static void fill(Vic *v, struct frame *f)
{
    int i, k;
    for (i = 0; i < f->n; i++) {
        gs_w dv = f->d[i] = gs_u64("d");
        Vic x;
        v[i] = GGC_NEW(Vic);
        x = v[i]; GGC_WD(x, d, dv);
    }
    for (k = 0; k < f->ns; k++) {
        f->nul[k] = gs_range("null", 0, 1);
        v[f->sym[k]] = (Vic) gs_ite(f->nul[k] != 0, 0, (gs_w) v[f->sym[k]]);
    }
}
static void check(Vic *v, struct frame *f)
{
    int i, k;
    for (i = 0; i < f->n; i++) {
        Vic x; int nul = 0;
        for (k = 0; k < f->ns; k++) if (f->sym[k] == i && gs_concrete(f->nul[k])) nul = 1;
        if (nul) { gs_assert(v[i] == NULL, "null stays null"); continue; }
        x = (Vic) gs_concrete((gs_w) v[i]);
        gs_assert(x != NULL && gs_mapped(x, sizeof(*x)), "a registered reference is kept alive and updated");
        gs_assert(GGC_RD(x, d) == f->d[i], "a registered reference designates its object");
        for (k = 0; k < i; k++) gs_assert(v[k] != x, "distinct objects stay distinct");
    }
}
static void reuse_mem(void)        /* reuse the memory of everything that died */
{
    Vic t = NULL; gs_w z = 0xdeadbeef; int i;
    GGC_PUSH_1(t);
    for (i = 0; i < 24; i++) { t = GGC_NEW(Vic); GGC_WD(t, d, z); GGC_WP(t, p, t); }
    GGC_POP();
}
static int frame_n(int n, int depth, int manual);
static int inner, innerKind;
static void deepest(void) { ggggc_collect0((unsigned char) gs_choose("gen", GGGGC_GENERATIONS)); reuse_mem(); }
static int body(Vic *v, struct frame *f, int depth)
{
    fill(v, f);
    if (depth == 0) frame_n(inner, 1, innerManual);
    else deepest();
    check(v, f);
    return 7;
}
#define V1 v[0]
#define V2 V1, v[1]
#define V3 V2, v[2]
#define V4 V3, v[3]
#define V5 V4, v[4]
#define V6 V5, v[5]
#define V7 V6, v[6]
#define V8 V7, v[7]
#define V9 V8, v[8]
#define V10 V9, v[9]
#define V11 V10, v[10]
#define V12 V11, v[11]
#define V13 V12, v[12]
#define V14 V13, v[13]
#define V15 V14, v[14]
#define V16 V15, v[15]
#define CALL(m, ...) m(__VA_ARGS__)
#if defined(NOGNU)
#define POPN GGC_POP();
#else
#define POPN
#endif
/* without cleanup support in C, the return macro ends the scope before the
 * returned expression is evaluated (documented as an approximation) */
#if defined(NOGNU)
#define RETURN_BODY int r = body(v, &f, depth); return r;
#else
#define RETURN_BODY return body(v, &f, depth);
#endif
/* scoped: leave by falling off the end, by returns at several places, or out of a loop */
#define SCOPED(n) \
static void void##n(int depth) { Vic v[n]; struct frame f; fresh(v, &f, n); \
    CALL(GGC_PUSH_##n, V##n); body(v, &f, depth); POPN } \
static int scoped##n(int depth, int kind) { int i; Vic v[n]; struct frame f; fresh(v, &f, n); \
    CALL(GGC_PUSH_##n, V##n); \
    if (kind == 1) { body(v, &f, depth); return 7; } \
    for (i = 0; i < 2; i++) { if (kind == 2 && i == 1) { RETURN_BODY }  } \
    if (kind == 3) goto out; \
    return 6; \
out: body(v, &f, depth); return 7; }
#define MANUAL(n) \
static int manual##n(int depth) { Vic v[n]; struct frame f; int r; fresh(v, &f, n); \
    CALL(GGC_PUSH_MANUAL_##n, V##n); r = body(v, &f, depth); GGC_POP_MANUAL(); return r; }
#define BOTH(n) SCOPED(n) MANUAL(n)
BOTH(1) BOTH(2) BOTH(3) BOTH(4) BOTH(5) BOTH(6) BOTH(7) BOTH(8)
BOTH(9) BOTH(10) BOTH(11) BOTH(12) BOTH(13) BOTH(14) BOTH(15) BOTH(16)
#if !defined(__cplusplus) && !defined(GGGGC_DEBUG_NOPUSH)
#define LIST1 {&v[0]}
#define LIST3 {&v[0], &v[1], &v[2]}
#define LIST9 {&v[0], &v[1], &v[2], &v[3], &v[4], &v[5], &v[6], &v[7], &v[8]}
static int pushn1(int depth) { Vic v[1]; struct frame f; int r; fresh(v, &f, 1); GGC_PUSH_N(1, LIST1); r = body(v, &f, depth); return r; }
static int pushn3(int depth) { Vic v[3]; struct frame f; int r; fresh(v, &f, 3); GGC_PUSH_N(3, LIST3); r = body(v, &f, depth); return r; }
static int pushn9(int depth) { Vic v[9]; struct frame f; int r; fresh(v, &f, 9); GGC_PUSH_N(9, LIST9); r = body(v, &f, depth); return r; }
#define HASN 1
#else
#define HASN 0
#endif
#if !defined(NOGNU)
/* a scope inside a function, left by break, continue or its end */
static int block(int depth, int kind)
{
    int i, rounds = 0; Vic w = NULL; gs_w wd = gs_u64("w");
    GGC_PUSH_1(w);
    w = GGC_NEW(Vic); GGC_WD(w, d, wd);
    for (i = 0; i < 2; i++) {
        Vic v[2]; struct frame f; fresh(v, &f, 2);
        GGC_PUSH_2(v[0], v[1]);
        body(v, &f, depth); rounds++;
        if (kind == 0) continue;
        if (kind == 1) break;
        if (kind == 2) goto out;
        if (kind == 3) return 7;
    }
out:
    reuse_mem();
    gs_assert(gs_mapped(w, sizeof(*w)) && GGC_RD(w, d) == wd, "the outer reference is still registered");
    return rounds ? 7 : 0;
}
#endif
static int frame_n(int n, int depth, int manual)
{
    struct GGGGC_PointerStack *was = ggggc_pointerStack; int r = 0;
    if (manual == 1) {
        switch (n) {
#define C(n) case n: r = manual##n(depth); break;
            C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) C(13) C(14) C(15) C(16)
#undef C
        }
#if HASN
    } else if (manual == 2) {
        r = n == 1 ? pushn1(depth) : n == 2 ? pushn3(depth) : pushn9(depth);
#endif
#if !defined(NOGNU)
    } else if (manual == 3) {
        r = block(depth, innerKind);
#endif
    } else if (innerKind == 0) {
        switch (n) {
#define C(n) case n: void##n(depth); break;
            C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) C(13) C(14) C(15) C(16)
#undef C
        }
        r = 7;
    } else {
        switch (n) {
#define C(n) case n: r = scoped##n(depth, innerKind); break;
            C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) C(13) C(14) C(15) C(16)
#undef C
        }
    }
    gs_assert(r == 7, "control reached the body and came back");
    gs_assert(ggggc_pointerStack == was, "the root set is what it was before the scope");
    return r;
}
static struct frame mf; static Vic mv[2];
#ifndef KINDS
#define KINDS 4
#endif
void harness_main(void)
{
    int n, m;
    fresh(mv, &mf, 2);
    GGC_PUSH_2(mv[0], mv[1]);
    fill(mv, &mf);
    m = (int) gs_choose("manual", KINDS);
#ifdef NOGNU
    if (m == 3) gs_exit();
#endif
    if (m == 2 && !HASN) gs_exit();
    innerManual = m; innerKind = 0;
    if (m == 0 || m == 3) innerKind = (int) gs_choose("exit", EXITS);
    n = 1 + (int) gs_choose("outer arity", m == 2 ? 3 : m == 3 ? 1 : NA);
#ifndef THOROUGH
    inner = m == 3 ? 1 : m == 2 ? 1 + (n & 1) : gs_choose("inner arity", 2) ? n : 17 - n;
#else
    inner = m == 3 ? 1 : 1 + (int) gs_choose("inner arity", m == 2 ? 3 : NA);
#endif
    frame_n(n, 0, m);
    check(mv, &mf);
    ggggc_collect0(0);
    check(mv, &mf);
    gs_cover("end");
#if defined(NOGNU)
    GGC_POP();
#endif
}
