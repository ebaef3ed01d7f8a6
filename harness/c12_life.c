/* C12: thread lifecycle. The main thread creates workers (creation may be
 * refused), collects or allocates before, during and after their lives, and
 * checks what they were given and what they leave behind: shared objects,
 * globalized variables and types first used by a thread which has exited. */
#include "gch.h"
#ifndef W
#define W 1                     /* workers, one after the other or together */
#endif
#ifndef P
#define P 1                     /* involuntary switches */
#endif
#ifndef WOPS                    /* worker operations before exit */
#define WOPS {0,1,2,3}
#define NWOPS 4
#endif
#ifndef MOPS                    /* main thread operations, before and after the worker's exit */
#define MOPS {0,1,2,3}
#define NMOPS 4
#endif
#ifndef PRE
#define PRE 1
#endif
#ifndef POST
#define POST 2
#endif
#ifndef FAILS
#define FAILS 0
#endif
#ifdef GGGGC_COLLECTOR_PORTABLEMS
#define COLLECT(g) ggggc_collect0(0)
#else
#define COLLECT(g) ggggc_collect0((unsigned char) (g))
#endif
GGC_TYPE(Node)
    GGC_MPTR(Node, a);
    GGC_MDATA(ggc_size_t, d);
    GGC_MPTR(Node, b);
GGC_END_TYPE(Node, GGC_PTR(Node, a) GGC_PTR(Node, b))
static gs_w swp;        /* symbolic: which of its two words refers to what */
static struct GGGGC_DescriptorSlot lazy = {GGC_MUTEX_INITIALIZER, NULL, HW + 3, (1 << HW)};
static NodeArray shared; static Node glob[W]; static gs_w argv_[W], outv[W], globv[W]; static int ran[W], nran;
static const char *wopn[] = {"wop0", "wop1"}, *mopn[] = {"mop0", "mop1", "mop2", "mop3"};

static void junk(int n)
{
    Node x = NULL; int i;
    GGC_PUSH_1(x);
    for (i = 0; i < n; i++) { gs_w v = 0x1111111111111111ul * (i + 1); x = GGC_NEW(Node); GGC_WD(x, d, v); GGC_WP(x, a, x); }
    x = NULL;
    return;
}
static void op(int o)
{
    switch (o) {
        case 0: break;
        case 1: COLLECT(0); break;
        case 2: COLLECT(GGGGC_GENERATIONS - 1); break;
        case 3: junk(60); break;
        case 4: junk(3); break;
        case 5: GGC_YIELD(); break;
    }
}
static void look(Node x, gs_w v)
{
    Node y;
    x = (Node) gs_concrete((gs_w) x);
    gs_assert(x != NULL && gs_mapped(x, sizeof(struct Node__ggggc_struct)), "a shared object stays valid");
    gs_assert(GGC_RD(x, d) == v, "a shared object is intact");
    y = swp ? GGC_RP(x, b) : GGC_RP(x, a);
    gs_assert((swp ? GGC_RP(x, a) : GGC_RP(x, b)) == x, "a self reference stays one");
    gs_assert(y != NULL && gs_mapped(y, sizeof(struct Node__ggggc_struct)), "what a shared object refers to stays valid");
    gs_assert(GGC_RD(y, d) == ~v, "what a shared object refers to is intact");
}
static Node make(gs_w v)
{
    Node x = NULL, y = NULL; gs_w v2;
    GGC_PUSH_2(x, y);
    x = GGC_NEW(Node); GGC_WD(x, d, v);
    y = GGC_NEW(Node); v2 = ~v; GGC_WD(y, d, v2);
    { Node p = (Node) gs_ite(swp != 0, (gs_w) x, (gs_w) y), q = (Node) gs_ite(swp != 0, (gs_w) y, (gs_w) x); GGC_WP(x, a, p); GGC_WP(x, b, q); }
    return x;
}
static void useLazy(int me, gs_w v)
{
    Node z = NULL, x = NULL;
    GGC_PUSH_2(z, x);
    z = (Node) GGC_NEW_FROM_DESCRIPTOR_SLOT(&lazy);
    gs_assert(((struct GGGGC_Header *) z)->descriptor__ptr == lazy.descriptor, "the type of an object is the type's descriptor");
    gs_assert(lazy.descriptor->size == HW + 3, "a type first used by an exited thread stays usable");
    gs_assert((lazy.descriptor->header.descriptor__ptr->size) >= GGGGC_WORD_SIZEOF(struct GGGGC_Descriptor), "a type first used by an exited thread stays usable");
    x = GGC_NEW(Node); GGC_WD(x, d, v); GGC_WP(z, a, x); v = ~v; GGC_WD(z, d, v);
    x = GGC_NEW_PA(Node, 7);
    x = (Node) z;
    (void) me;
    return;
}
static void worker(GGC_ThreadArg a)
{
    static const int ops[] = WOPS;
    Node x = NULL; int me; gs_w v;
    GGC_PUSH_2(a, x);
    me = (int) (gs_w) gs_concrete((gs_w) GGC_RD(a, darg));
    gs_assert(me >= 0 && me < W && !ran[me], "a thread gets its own argument");
    ran[me] = 1;
    x = (Node) GGC_RP(a, parg);
    look(x, argv_[me]);
    op(ops[gs_choose(wopn[me], NWOPS)]);
    x = (Node) GGC_RP(a, parg);
    look(x, argv_[me]);
    v = gs_u64("out"); outv[me] = v;
    x = make(v);
    GGC_WAP(shared, me, x);
#ifdef GLOBALS
    {
        GGC_PUSH_1(glob[me]);
        GGC_GLOBALIZE();
    }
    globv[me] = v + 1;
    glob[me] = make(v + 1);
    useLazy(me, v);
#endif
    x = NULL;
    nran++;
    return;
}
static void checkAll(int n)
{
    int i;
    for (i = 0; i < n; i++) {
        look((Node) GGC_RAP(shared, i), outv[i]);
#ifdef GLOBALS
        look(glob[i], globv[i]);
        useLazy(i, outv[i]);
#endif
    }
}
void harness_main(void)
{
    static const int ops[] = MOPS;
    ggc_thread_t th[W]; GGC_ThreadArg ta = NULL; Node x = NULL; int i, k, tries; gs_w v;
    GGC_PUSH_4(shared, ta, x, fchain);
    swp = gs_range("swapped", 0, 1);
    shared = GGC_NEW_PA(Node, W);
    env_create_fail = FAILS;
    env_preempt = P;
    for (i = 0; i < W; i++) {
        void *q;
        v = gs_u64("arg"); argv_[i] = v;
        x = make(v);
        ta = GGC_NEW(GGC_ThreadArg); GGC_WP(ta, parg, x);
        q = (void *) (gs_w) i; GGC_WD(ta, darg, q);
        x = NULL;
        if (gs_choose("region full at creation", 2)) fill_young(0);
        for (tries = 0; tries <= FAILS; tries++) {
            int before = env_create_fail;
            if (ggc_thread_create(&th[i], worker, ta) == 0) { gs_assert(env_create_fail == before, "a refused thread creation is reported"); break; }
            gs_assert(env_create_fail < before, "only a refused thread creation is reported");
            gs_assert(errno == EAGAIN, "the reason for the refusal is reported");
            gs_cover("refused");
            op(ops[gs_choose("failop", NMOPS)]);
        }
        ta = NULL;
        for (k = 0; k < PRE; k++) op(ops[gs_choose("preop", NMOPS)]);
#ifdef SERIAL
        gs_assert(ggc_thread_join(th[i]) == 0, "join");
        gs_assert(ran[i], "a created thread runs");
        op(ops[gs_choose("between", NMOPS)]);
        checkAll(i + 1);
#endif
    }
#ifndef SERIAL
    for (i = 0; i < W; i++) gs_assert(ggc_thread_join(th[i]) == 0, "join");
#endif
    gs_assert(nran == W, "every created thread runs");
    env_preempt = 0;
    for (k = 0; k < POST; k++) op(ops[gs_choose(mopn[k], NMOPS)]);
    checkAll(W);
    x = make(5);
    COLLECT(0);
    look(x, 5);
    checkAll(W);
    COLLECT(GGGGC_GENERATIONS - 1);
    look(x, 5);
    checkAll(W);
    check_chain(fchain);
    gs_cover("end");
}
