/* C06 (and the C++ accessors of C02): programs of K steps over the C++ wrapper
 * GGC<>, GGCPA<>, GGCDA<> and member operators. */
#include "gch.h"
#ifndef K
#define K 3
#endif
GGC_TYPE(Node)
    GGC_MPTR(Node, next);
    GGC_MDATA(ggc_size_t, d);
    GGC_MPTR(Node, other);
GGC_END_TYPE(Node, GGC_PTR(Node, next) GGC_PTR(Node, other))
typedef GGC<Node> N;
typedef GGCPA<Node, NodeArray> A;
typedef GGCDA<int, GGC_int_Array> I;
#define MX 12
static int nn = 1;             /* shadow: node id -> fields */
static int nx[MX]; static gs_w ot[MX];
static gs_w dd[MX];
struct S { int v[3]; int a[2]; };   /* shadow ids of the variables in scope */
static int ai[2];

static Node mk(int *id)
{
    gs_w v = gs_u64("d");
    N n(GGC_NEW(Node));
    n->d = v;
    *id = nn++; dd[*id] = v; nx[*id] = ot[*id] = 0;
    if (gs_choose("collect in callee", 2)) ggggc_collect0(0);
    return n;                   /* the wrapper ends here, on a return */
}
static void chk(Node n, int id)
{
    n = (Node) gs_concrete((gs_w) n);
    if (!id) { gs_assert(!n, "null stays null"); return; }
    if (seen[id]) { gs_assert(n == seen[id], "every reference designates the same object"); return; }
    gs_assert(n && gs_mapped(n, sizeof(*n)), "a reference held by a wrapper is kept alive");
    seen[id] = n;
    gs_assert((ggc_size_t) n->d == dd[id], "data is unchanged");
    chk(n->next, nx[id]); ot[id] = gs_concrete(ot[id]); chk(n->other, (int) ot[id]);
}
static void check(N &a, N &b, A &arr, I &ints, S &s)
{
    check_begin();
    chk(a, s.v[0]); chk(b.get(), s.v[1]);
    gs_assert(arr->length == 2 && ints->length == 2, "array length");
    chk(arr[0], s.a[0]); chk(arr.get(1), s.a[1]);
    gs_assert(ints[0] == ai[0] && ints.get(1) == ai[1], "array data");
    gs_assert((a == b) == (s.v[0] == s.v[1]) && (bool) a == (s.v[0] != 0) && !b == (s.v[1] == 0) && (a == b.get()) == (s.v[0] == s.v[1]), "wrapper comparisons");
}
static int steps(int k, N &a, N &b, A &arr, I &ints, S &s);
/* by value: the copies are registered for the duration of the call */
static int callee(int k, N a, N b, A arr, I ints, S s)
{
    struct GGGGC_PointerStack *was = ggggc_pointerStack;
    {
        N local(a), other;
        other = b;
        int l0 = s.v[0], l1 = s.v[1];
        if (steps(k, a, b, arr, ints, s)) return 1;
        check_begin();
        chk(local, l0); chk(other, l1);
    }
    gs_assert(ggggc_pointerStack == was, "the scope's wrappers are unregistered");
    check(a, b, arr, ints, s);
    return 0;
}
static int steps(int k, N &a, N &b, A &arr, I &ints, S &s)
{
    for (; k < K; k++) {
        int i, id;
        switch (gs_choose("op", 13)) {
            case 0: a = mk(&id); s.v[0] = id; break;
            case 1: b = a; s.v[1] = s.v[0]; break;
            case 2: { N t = a; a = b; b = t; i = s.v[0]; s.v[0] = s.v[1]; s.v[1] = i; break; }
            case 3: if (!s.v[0]) gs_exit(); a->next = b; nx[s.v[0]] = s.v[1]; break;
            case 4: if (!s.v[0]) gs_exit(); b = a->next; s.v[1] = nx[s.v[0]]; break;
            case 5: i = (int) gs_choose("index", 2); arr.put(i, a); s.a[i] = s.v[0]; break;
            case 6: i = (int) gs_choose("index", 2); b = arr[i]; s.v[1] = s.a[i]; break;
            case 7: ggggc_collect0((unsigned char) gs_choose("gen", GGGGC_GENERATIONS)); break;
            case 8: { int z = (int) gs_u64("int"); i = (int) gs_choose("index", 2); ints.put(i, z); ai[i] = z; break; }
            case 9: { S in = s; struct GGGGC_PointerStack *was = ggggc_pointerStack;
                      if (callee(k + 1, a, b, arr, ints, in)) return 1;
                      gs_assert(ggggc_pointerStack == was, "arguments are unregistered after the call");
                      s.a[0] = in.a[0]; s.a[1] = in.a[1];
                      /* the array is shared with the callee */
                      { int j; for (j = 0; j < 2; j++) { Node e = arr[j]; for (i = 0; i < MX; i++) if (i && e && seen[i] == e) break; s.a[j] = e ? i : 0; } }
                      k = K; break; }
            case 10: if (!s.v[0]) gs_exit(); { N t; t = mk(&id); t->other = a; a->other = t; ot[id] = s.v[0]; ot[s.v[0]] = id; } break;
            case 12: { if (!s.v[0]) gs_exit();      /* any of null, a, b */
                       gs_w w = gs_range("which", 0, 2); void *tb[3]; tb[0] = NULL; tb[1] = a.get(); tb[2] = b.get();
                       Node t = (Node) pick(tb, 3, w); a->other = t;
                       ot[s.v[0]] = gs_ite(w == 0, 0, gs_ite(w == 1, s.v[0], s.v[1])); break; }
            case 11: if (k == 0) gs_exit(); a = nullptr; s.v[0] = 0; if (gs_choose("leave", 2)) return 1; break;
        }
    }
    check(a, b, arr, ints, s);
    return 0;
}
static void run(void)
{
    S s = {{0,0,0},{0,0}}; int id;
    N a, b(nullptr);
    A arr(GGC_NEW_PA(Node, 2)); I ints(GGC_NEW_DA(int, 2));
    gs_assert(!a && !b, "a fresh wrapper is null");
    a = mk(&id); s.v[0] = id;
    b = mk(&id); s.v[1] = id; b->next = a; nx[id] = s.v[0];
    if (gs_choose("old", 2)) ggggc_collect0(0);
    { gs_w w = gs_range("which", 0, 2); void *tb[3]; tb[0] = NULL; tb[1] = a.get(); tb[2] = b.get();
      Node t = (Node) pick(tb, 3, w); a->other = t; ot[s.v[0]] = gs_ite(w == 0, 0, gs_ite(w == 1, s.v[0], s.v[1])); }
    if (steps(0, a, b, arr, ints, s) == 0) { ggggc_collect0(0); }
}
void harness_main(void)
{
    struct GGGGC_PointerStack *was = ggggc_pointerStack;
    Node keep = NULL; gs_w kd = gs_u64("keep");
    {
        N k(GGC_NEW(Node)); k->d = kd;
        struct GGGGC_PointerStack *w2 = ggggc_pointerStack;
        run();
        gs_assert(ggggc_pointerStack == w2, "the root set is what it was before the scope");
        gs_assert(gs_mapped(k.get(), sizeof(*keep)) && (ggc_size_t) k->d == kd, "the caller's wrapper is still registered");
    }
    gs_assert(ggggc_pointerStack == was, "the root set is what it was before the scope");
    gs_cover("end");
}
