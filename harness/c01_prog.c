/* C01/C02: every short mutator program over S root slots: allocate, write,
 * read, each step followed by no collection or one of any generation. */
#include "gch.h"
#ifndef K
#define K 3
#endif
#ifndef S
#define S 2
#endif
GGC_TYPE(Node)
    GGC_MPTR(Node, a);
    GGC_MDATA(ggc_size_t, d);
    GGC_MPTR(Node, b);
GGC_END_TYPE(Node, GGC_PTR(Node, a) GGC_PTR(Node, b))
static Node slot[3];
static int sid[3];
static void fresh(int i)
{
    Node n = NULL; gs_w d = gs_u64("d"); int id;
    GGC_PUSH_1(n);
    n = GGC_NEW(Node);
    gs_assert(GGC_RP(n, a) == NULL && GGC_RP(n, b) == NULL && GGC_RD(n, d) == 0, "a fresh object is zero");
    GGC_WD(n, d, d);
    slot[i] = n; n = NULL;
    id = sh_new(3); sh_word(id, 0, 1, 0); sh_word(id, 1, 0, d); sh_word(id, 2, 1, 0);
    sid[i] = id;
}
void harness_main(void)
{
    Node v = NULL, o = NULL; int k, i, j, f; gs_w op;
    GGC_PUSH_5(slot[0], slot[1], slot[2], v, o);
    for (i = 0; i < S; i++) fresh(i);
    for (k = 0; k < K; k++) {
        op = gs_choose("op", S * 2 + S + S * S);
        if (op < S * 2) { /* slot i . f = any slot or null, left symbolic */
            gs_w w = gs_range("value", 0, S); gs_w id = 0;
            i = op % S; f = op / S;
            for (j = 0; j < S; j++) id = gs_ite(w == (gs_w) j, sid[j], id);
            v = (Node) pick((void **) slot, S, w); o = slot[i];
            if (o) {
                if (f) GGC_WP(o, b, v); else GGC_WP(o, a, v);
                sh_word(sid[i], f ? 2 : 0, 1, id);
            }
        } else if ((op -= S * 2) < S) fresh((int) op);
        else { /* slot i = slot j . a */
            op -= S; i = op % S; j = op / S;
            if (slot[j]) { slot[i] = GGC_RP(slot[j], a); sid[i] = (int) (SH[sid[j]].val[0] = gs_concrete(SH[sid[j]].val[0])); }
        }
        v = o = NULL;
        op = gs_choose("collect", GGGGC_GENERATIONS + 1);
        if (op) ggggc_collect0((unsigned char) (op - 1));
    }
    check_begin();
    for (i = 0; i < S; i++) check_obj(slot[i], sid[i]);
    gs_cover("end");
}
