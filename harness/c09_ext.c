/* C09: external tags. An object of BODY words with arbitrary (symbolic) tags;
 * even tags declare references, odd ones data. */
#include "gch.h"
#ifndef BODY
#define BODY 3
#endif
#ifndef NCOL
#define NCOL 2
#endif
GGC_TYPE(Vic) GGC_MDATA(ggc_size_t, d); GGC_MPTR(Vic, p); GGC_END_TYPE(Vic, GGC_PTR(Vic, p))
static GObj obj; static Vic vic[2]; static struct GGGGC_Descriptor *desc;
void harness_main(void)
{
    unsigned char tags[HW + BODY]; gs_w t[BODY], before[BODY], nul[BODY], vd[2]; int i, k;
    Vic x = NULL, first[2];
    GGC_PUSH_5(obj, vic[0], vic[1], desc, x);
    for (i = 0; i < 2; i++) { gs_w v = vd[i] = gs_u64("v"); vic[i] = GGC_NEW(Vic); x = vic[i]; GGC_WD(x, d, v); }
    tags[0] = (unsigned char) gs_u64("header tag");
    for (i = 1; i < HW; i++) tags[i] = 1;
    for (i = 0; i < BODY; i++) {
        t[i] = gs_range("tag", 0, 251);
        tags[HW + i] = (unsigned char) t[i];
    }
    desc = GGC_NEW_DESCRIPTOR_WITH_TAGS(HW + BODY, tags);
    if (gs_choose("old descriptor", 2)) ggggc_collect0(0);
    obj = (GObj) GGC_NEW_FROM_DESCRIPTOR(desc);
    if (gs_choose("described once", 2)) desc = NULL;
    if (gs_choose("old object", 2)) ggggc_collect0(0);
    for (i = 0; i < BODY; i++) {
        gs_w any = gs_u64("data");
        nul[i] = gs_range("null", 0, 1);
        /* references are null or an object; data words are anything, or look like one */
        x = (Vic) gs_ite((t[i] & 1) != 0, gs_ite(nul[i] != 0, any, (gs_w) vic[i & 1]), gs_ite(nul[i] != 0, 0, (gs_w) vic[i & 1]));
        before[i] = (gs_w) x;
        gwp(obj, i, x);
    }
    x = vic[0] = vic[1] = NULL;
    for (k = 0; k < NCOL; k++) ggggc_collect0((unsigned char) gs_choose("gen", GGGGC_GENERATIONS));
    gs_assert(obj != NULL && gs_mapped(obj, 8 * (HW + BODY)) && obj_words(obj) == HW + BODY, "the object is live");
    first[0] = first[1] = NULL;
    for (i = 0; i < BODY; i++) {
        if (gs_concrete(t[i] & 1)) { gs_assert(RDW(obj, i) == before[i], "an odd-tagged word is left unchanged"); gs_cover("data"); continue; }
        if (gs_concrete(nul[i])) { gs_assert(RDW(obj, i) == 0, "null stays null"); continue; }
        x = (Vic) gs_concrete(RDW(obj, i));
        gs_assert(x != NULL && gs_mapped(x, sizeof(*x)), "an even-tagged reference is followed and updated");
        gs_assert(GGC_RD(x, d) == vd[i & 1], "an even-tagged reference is kept alive");
        gs_assert(!first[i & 1] || first[i & 1] == x, "shared target stays shared");
        first[i & 1] = x; gs_cover("ref");
    }
    gs_cover("end");
}
