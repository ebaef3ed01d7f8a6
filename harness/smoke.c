#include "ggggc/gc.h"
#include "ggggc-internals.h"
GGC_TYPE(Node) GGC_MPTR(Node, a); GGC_MPTR(Node, b); GGC_MDATA(ggc_size_t, d); GGC_END_TYPE(Node, GGC_PTR(Node, a) GGC_PTR(Node, b))
#ifdef __cplusplus
extern "C"
#endif
void harness_main(void)
{
    Node n = NULL, m = NULL; ggc_size_t v = gs_u64("v");
    GGC_PUSH_2(n, m);
    n = GGC_NEW(Node); m = GGC_NEW(Node);
    GGC_WP(n, a, m); GGC_WD(m, d, v);
    m = NULL;
    ggggc_collect0((unsigned char) gs_choose("gen", 2));
    m = GGC_RP(n, a);
    gs_assert(m != NULL && GGC_RD(m, d) == v, "data kept");
    gs_cover("end");
}
