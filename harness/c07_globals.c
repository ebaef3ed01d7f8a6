/* C07: a symbolic program of K steps over nested frames: register a group of
 * global variables (at whatever depth the program is), enter or leave a frame,
 * allocate, collect. At the end (and at every depth on the way out) every
 * registered variable and every local still in scope must designate its
 * object, and everything else must be gone from the root set. */
#include "gch.h"
#ifndef K
#define K 5
#endif
#ifndef DMAX
#define DMAX 3
#endif
#define NG 8
#ifndef NSYM
#define NSYM 2
#endif
GGC_TYPE(Glo) GGC_MDATA(ggc_size_t, d); GGC_MPTR(Glo, p); GGC_END_TYPE(Glo, GGC_PTR(Glo, p))
static Glo gv[NG];              /* the globals, in order of registration */
static gs_w gsel[NG];           /* what it designates: 0 nothing, 1 its own object, 2 what its predecessor designates */
static gs_w gd[NG];             /* the datum of its own object */
static int ng, steps, depth, ncol, nsym;

static Glo mk(gs_w *dv)
{
    Glo x = NULL; gs_w d = gs_u64("d");
    GGC_PUSH_1(x);
    x = GGC_NEW(Glo);
    GGC_WD(x, d, d);
    *dv = d;
    return x;
}
static void one(Glo *v, gs_w d)
{
    Glo x = (Glo) gs_concrete((gs_w) *v);
    gs_assert(x != NULL && gs_mapped(x, sizeof(*x)), "a root is kept alive and updated");
    gs_assert(GGC_RD(x, d) == d, "a root designates its object");
}
static void checkAll(void)
{
    int i, j; gs_w own[NG];
    for (i = 0; i < ng; i++) {
        gs_w sel = gs_concrete(gsel[i]);
        gsel[i] = sel;
        own[i] = sel == 0 ? 0 : sel == 1 ? (gs_w) i + 1 : own[i - 1];
        if (!own[i]) { gs_assert(gv[i] == NULL, "a globalized variable keeps a null value"); continue; }
        one(&gv[i], gd[own[i] - 1]);
        for (j = 0; j < i; j++) gs_assert((gv[i] == gv[j]) == (own[i] == own[j]), "roots designate the same object exactly if they did before");
    }
}
/* give variable i a value: nothing, a new object, or its predecessor's */
static void assign(int i)
{
    gs_w sel = 1; void *t[3];
    if (nsym < NSYM) { nsym++; sel = gs_range("designates", 0, i && !(i + 1 < ng) ? 2 : 1); }
    gv[i] = NULL;
    t[1] = mk(&gd[i]); t[0] = NULL; t[2] = i ? gv[i - 1] : NULL;
    gv[i] = (Glo) pick(t, 3, sel); gsel[i] = sel;
}
/* register the next m variables; some are filled before registration, some after */
static void reg(int m)
{
    int b = ng, i;
    if (ng + m > NG) gs_exit();
    if (m == 1) { GGC_PUSH_1(gv[b]); GGC_GLOBALIZE(); GGC_POP(); }
    else if (m == 2) { GGC_PUSH_2(gv[b], gv[b + 1]); GGC_GLOBALIZE(); GGC_POP(); }
    else { GGC_PUSH_3(gv[b], gv[b + 1], gv[b + 2]); GGC_GLOBALIZE(); GGC_POP(); }
    ng += m;
    for (i = b; i < ng; i++) assign(i);
}
/* the same, holding the object in a local first and registering in the same frame as a local */
static void regLate(void)
{
    int b = ng;
    if (ng + 1 > NG) gs_exit();
    assign(b);  /* no allocation between here and the registration */
    { GGC_PUSH_1(gv[b]); GGC_GLOBALIZE(); GGC_POP(); }
    ng++;
}
static void walk(void)
{
    while (steps < K) {
        gs_w op = gs_choose("op", 6);
        steps++;
        switch (op) {
            case 0: reg(1); break;
            case 1: reg(2); break;
            case 2: regLate(); break;
            case 3: /* nested call with locals of its own */
                if (depth + 1 < DMAX) {
                    Glo l = NULL, m = NULL; gs_w ld, md;
                    GGC_PUSH_2(l, m);
                    l = mk(&ld); m = mk(&md);
                    depth++; walk(); depth--;
                    one(&l, ld); one(&m, md);
                    GGC_POP();
                }
                break;
            case 4: if (depth) return; break;
            default: ggggc_collect0((unsigned char) gs_choose("gen", GGGGC_GENERATIONS)); ncol++; break;
        }
    }
}
void harness_main(void)
{
    struct GGGGC_PointerStack *base = ggggc_pointerStack;
#ifdef ROOTED
    Glo l = NULL; gs_w ld;
    GGC_PUSH_1(l);
    l = mk(&ld);
#endif
    walk();
    ggggc_collect0((unsigned char) gs_choose("gen", GGGGC_GENERATIONS));
#ifdef ROOTED
    one(&l, ld);
    GGC_POP();
#endif
    checkAll();
    { int i; for (i = 0; i < 2; i++) { Glo x; gs_w d; x = mk(&d); x = NULL; ggggc_collect0(i % GGGGC_GENERATIONS); } }
    checkAll();
    /* assigning after registration, then dropping */
    if (ng) {
        int i = ng - 1 - (int) gs_choose("reassign", ng > 1 ? 2 : 1);
        if (i + 1 < ng) gsel[i + 1] = gs_concrete(gsel[i + 1]);
        if (i + 1 < ng && gsel[i + 1] == 2) gs_exit();
        nsym = NSYM - 1; assign(i);
        ggggc_collect();
        checkAll();
        gv[i] = NULL; gsel[i] = 0;
        ggggc_collect();
        checkAll();
        gs_cover("globals");
    }
    (void) base;
    gs_cover("end");
}
