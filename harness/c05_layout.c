/* C05: symbolic layouts. MODE 0: every bitmap of a small object (symbolic
 * mask). MODE 1: wide object, every position of the references. MODE 6: wide
 * object, symbolic bits at the bitmap word boundaries. MODE 2:
 * reference array, MODE 3: data array, MODE 4: declared GGC_TYPE with a
 * reference far into the object, MODE 5: declared GGC_TYPE wider than one
 * bitmap word. Every word holds the address of an object; only declared
 * references may keep it alive or be updated. */
#include "gch.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef BODY
#define BODY 5
#endif
#ifndef NREF
#define NREF 1
#endif
GGC_TYPE(Vic) GGC_MDATA(ggc_size_t, d); GGC_MPTR(Vic, p); GGC_END_TYPE(Vic, GGC_PTR(Vic, p))
#if MODE == 4
typedef struct { ggc_size_t w[36]; } blob;
GGC_TYPE(Far) GGC_MPTR(Vic, a); GGC_MDATA(blob, b); GGC_MPTR(Vic, z); GGC_MDATA(ggc_size_t, t); GGC_END_TYPE(Far, GGC_PTR(Far, a) GGC_PTR(Far, z))
#define FBODY (36 + 3)
#elif MODE == 5
typedef struct { ggc_size_t w[100]; } blob;
GGC_TYPE(Far) GGC_MPTR(Vic, a); GGC_MDATA(blob, b); GGC_END_TYPE(Far, GGC_PTR(Far, a))
#define FBODY (101)
#endif

#ifndef LEN0
#define LEN0 0
#endif
static gs_w before[BODY + LEN0 + 140];
static GObj obj;
static Vic vic[2], usr;
static struct GGGGC_Descriptor *desc;

static void check(gs_w *ref, int n, gs_w *vd)
{
    int i; Vic first[2]; first[0] = first[1] = NULL;
    for (i = 0; i < n; i++) {
        gs_w r = gs_concrete(ref[i]);
        if (r) {
            Vic v = (Vic) RDP(obj, i);
            v = (Vic) gs_concrete((gs_w) v);
            gs_assert(v != NULL && gs_mapped(v, sizeof(struct Vic__ggggc_struct)), "a declared reference is followed and updated");
            gs_assert(GGC_RD(v, d) == vd[i & 1], "a declared reference is kept alive");
            if (first[i & 1]) gs_assert(first[i & 1] == v, "shared target stays shared");
            first[i & 1] = v;
        } else gs_assert(RDW(obj, i) == before[i], "a data word is not changed");
    }
}
void harness_main(void)
{
    gs_w ref[BODY + LEN0 + 140], vd[2], ud; int i, n, k, pre;
    ggc_size_t pm[4];
    Vic x = NULL, old = NULL;
    GGC_PUSH_7(obj, vic[0], vic[1], desc, usr, x, old);
    vd[0] = gs_u64("v0"); vd[1] = gs_u64("v1"); ud = gs_u64("u");
#if MODE == 0
    n = BODY;
    pm[0] = gs_u64("mask");
    for (i = 0; i < BODY; i++) ref[i] = (pm[0] >> (HW + i)) & 1;
    gs_assume((pm[0] & (((gs_w) 1 << HW) - 2)) == 0);
    desc = gs_choose("allocator", 2) ? GGC_NEW_DESCRIPTOR(HW + BODY, pm) : ggggc_allocateDescriptor(HW + BODY, pm[0]);
    obj = (GObj) GGC_NEW_FROM_DESCRIPTOR(desc);
#elif MODE == 1
    {
        gs_w at[NREF];
        n = BODY;
        for (i = 0; i < NREF; i++) { at[i] = gs_concrete(gs_range("ref at", HW, HW + BODY - 1)); if (i) gs_assume(at[i] > at[i - 1]); }
        for (i = 0; i < 4; i++) { pm[i] = 0; for (k = 0; k < NREF; k++) pm[i] |= gs_ite(at[k] / 64 == (gs_w) i, (gs_w) 1 << (at[k] % 64), 0); }
        for (i = 0; i < BODY; i++) { ref[i] = 0; for (k = 0; k < NREF; k++) ref[i] |= gs_ite(at[k] == (gs_w) (HW + i), 1, 0); }
    }
    desc = GGC_NEW_DESCRIPTOR(HW + BODY, pm);
    obj = (GObj) GGC_NEW_FROM_DESCRIPTOR(desc);
#elif MODE == 6
    n = BODY;
    {   /* symbolic bits around the boundaries of the bitmap words */
        static const gs_w win[4] = WINDOW;
        for (i = 0; i < 4; i++) pm[i] = gs_u64("mask") & win[i];
        for (i = 0; i < BODY; i++) ref[i] = (win[(HW + i) / 64] >> ((HW + i) % 64)) & 1 ? (pm[(HW + i) / 64] >> ((HW + i) % 64)) & 1 : 0;
    }
    desc = GGC_NEW_DESCRIPTOR(HW + BODY, pm);
    obj = (GObj) GGC_NEW_FROM_DESCRIPTOR(desc);
#elif MODE == 2
    n = gs_choose("length", BODY) + LEN0;
    obj = (GObj) GGC_NEW_PA(Vic, n);
    gs_assert(((VicArray) obj)->length == (ggc_size_t) n, "array length");
    for (i = 0; i <= n; i++) ref[i] = i > 0;
    n++;
#elif MODE == 3
    n = gs_choose("length", BODY) + LEN0;
    obj = (GObj) GGC_NEW_DA(size_t, n);
    gs_assert(((GGC_size_t_Array) obj)->length == (ggc_size_t) n, "array length");
    for (i = 0; i <= n; i++) ref[i] = 0;
    n++;
#else
    n = FBODY;
    obj = (GObj) GGC_NEW(Far);
    for (i = 0; i < n; i++) ref[i] = i == 0;
#if MODE == 4
    ref[n - 2] = 1;
#endif
#endif
    desc = NULL;
    for (i = 0; i < n; i++) if (!((MODE == 2 || MODE == 3) && i == 0)) gs_assert(RDW(obj, i) == 0, "a fresh object is zero");
    /* the layout holder may be old already */
    pre = gs_choose("age", GGGGC_GENERATIONS);
    for (i = 0; i < pre; i++) ggggc_collect0(i);
    for (k = 0; k < 2; k++) { vic[k] = GGC_NEW(Vic); x = vic[k]; { gs_w v = vd[k]; GGC_WD(x, d, v); } }
    usr = GGC_NEW(Vic); GGC_WD(usr, d, ud);
    old = usr;
    for (i = 0; i < n; i++) {
        if ((MODE == 2 || MODE == 3) && i == 0) { before[0] = RDW(obj, 0); continue; }
        x = vic[i & 1];
        GGC_WAP(obj, i, x);      /* a barrier write of a data word only dirties the card */
        before[i] = (gs_w) x;
    }
    GGC_WUP(obj, old);
    x = old = usr = vic[0] = vic[1] = NULL;
    ggggc_collect0((unsigned char) gs_choose("gen", GGGGC_GENERATIONS));
    churn(4);
    check(ref, n, vd);
    /* again, after a data word changed meanwhile */
    ggggc_collect0((unsigned char) gs_choose("gen", GGGGC_GENERATIONS));
    churn(4);
    check(ref, n, vd);
    usr = (Vic) GGC_RUP(obj);
    gs_assert(usr != NULL && gs_mapped(usr, sizeof(struct Vic__ggggc_struct)) && GGC_RD(usr, d) == ud, "the per-type user value is a reference");
    gs_cover("end");
}
