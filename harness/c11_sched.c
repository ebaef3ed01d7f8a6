/* C11: W worker threads and the main thread each run K operations chosen
 * freely, under every schedule with at most P involuntary switches (at
 * synchronisation operations). Afterwards every thread's objects are intact. */
#include "gch.h"
#ifndef K
#define K 1
#endif
#ifndef KM
#define KM K
#endif
#ifndef PICKS                   /* free choices of who goes on when a thread blocks (-1: all) */
#define PICKS -1
#endif
#ifndef W
#define W 1
#endif
#ifndef P
#define P 2
#endif
#ifndef OPS                     /* operations of the workers and the main thread */
#define OPS {0,1,2,3,4,5,6}
#define NOPS 7
#endif
#ifndef MOPS
#define MOPS OPS
#define NMOPS NOPS
#endif
#ifdef GGGGC_COLLECTOR_PORTABLEMS
#define COLLECT(g) ggggc_collect0(0)
#else
#define COLLECT(g) ggggc_collect0((unsigned char) (g))
#endif
GGC_TYPE(Node)
    GGC_MPTR(Node, a);
    GGC_MDATA(ggc_size_t, d);
    GGC_MPTR(Node, b);
GGC_END_TYPE(Node, GGC_PTR(Node, a) GGC_PTR(Node, b))
static struct GGGGC_DescriptorSlot lazy = {GGC_MUTEX_INITIALIZER, NULL, HW + 5, 4};
static ggc_mutex_t mx = GGC_MUTEX_INITIALIZER;
static ggc_sem_t sem;           /* one permit */
static NodeArray shared; static int inside, over; static volatile int ready, go_;
static gs_w slotv[W + 1];
static const char *opname[] = {"op0", "op1", "op2", "op3"};

static gs_w sw[W + 1];        /* the words of thread i's object are swapped */
#define LINK() do { if (sw[me]) GGC_WP(x, b, y); else GGC_WP(x, a, y); } while (0)
static void look(int me, Node x, gs_w v, int k)
{
    Node y;
    x = (Node) gs_concrete((gs_w) x);
    gs_assert(x != NULL && gs_mapped(x, sizeof(struct Node__ggggc_struct)), "a thread's object is kept alive");
    gs_assert(GGC_RD(x, d) == v, "a thread's object is intact");
    y = sw[me] ? GGC_RP(x, b) : GGC_RP(x, a);
    gs_assert((sw[me] ? GGC_RP(x, a) : GGC_RP(x, b)) == x, "a self reference stays one");
    if (!k) { gs_assert(y == NULL, "null stays null"); return; }
    gs_assert(y != NULL && gs_mapped(y, sizeof(struct Node__ggggc_struct)), "an object referred to by a thread's object is kept alive");
    gs_assert(GGC_RD(y, d) == ~v, "an object referred to by a thread's object is intact");
}
static void run(int me, int n, const int *ops, int nops)
{
    Node x = NULL, y = NULL; void *z = NULL; int i, op; gs_w v = gs_u64("v"), v2;
    GGC_PUSH_3(x, y, z);
    x = GGC_NEW(Node); GGC_WD(x, d, v);
    y = GGC_NEW(Node); v2 = ~v; GGC_WD(y, d, v2);
#ifdef SYMREF   /* which word refers to which object is up to the solver */
    sw[me] = gs_range("swap", 0, 1);
    { Node p = (Node) gs_ite(sw[me] != 0, (gs_w) x, (gs_w) y), q = (Node) gs_ite(sw[me] != 0, (gs_w) y, (gs_w) x); GGC_WP(x, a, p); GGC_WP(x, b, q); }
#else
    GGC_WP(x, a, y); GGC_WP(x, b, x);
#endif
    y = NULL;
    GGC_WAP(shared, me, x); slotv[me] = v;
#ifdef RENDEZ   /* every thread has its objects before any goes on */
    if (me) {
        ready++; env_progress();
        while (!go_) { GGC_YIELD(); env_spin(); }
    } else {
        while (ready < W) { GGC_YIELD(); env_spin(); }
        env_preempt = P; env_picks = PICKS; go_ = 1; env_progress();
    }
#endif
    for (i = 0; i < n; i++) {
        op = ops[gs_choose(opname[i], nops)];
        switch (op) {
            case 0: y = GGC_NEW(Node); GGC_WD(y, d, v2); LINK(); y = NULL; break;
            case 1: COLLECT(0); break;
            case 2: COLLECT(GGGGC_GENERATIONS - 1); break;
            case 3: GGC_YIELD(); break;
            case 4:
                ggc_mutex_lock(&mx);
                gs_assert(!inside, "a mutex excludes others"); inside = 1;
                y = GGC_NEW(Node); GGC_WD(y, d, v2); LINK(); y = NULL;
                inside = 0; ggc_mutex_unlock(&mx); break;
            case 5: {
                void *q; ggc_size_t *w;
                z = GGC_NEW_FROM_DESCRIPTOR_SLOT(&lazy);
                gs_assert(((struct GGGGC_Header *) z)->descriptor__ptr == lazy.descriptor, "racing first uses agree on the type");
                w = (ggc_size_t *) z; w[HW + 4] = v; q = x; w[2] = w[2];
                gs_assert(lazy.descriptor->size == HW + 5, "the type is set up");
                break; }
            case 6: z = GGC_NEW_PA(Node, 130); gs_assert(GGC_LENGTH((NodeArray) z) == 130, "racing first uses agree on the type"); break;
            case 7: ggc_pre_blocking(); env_sched_point(); ggc_post_blocking(); break;
            case 8: ggc_mutex_lock(&mx); inside = 1; COLLECT(0); inside = 0; ggc_mutex_unlock(&mx); break;
            case 9: fill_young(0); y = GGC_NEW(Node); GGC_WD(y, d, v2); LINK(); y = NULL; break;
            case 10: y = GGC_NEW(Node); GGC_WD(y, d, v2); LINK(); y = NULL; COLLECT(0); break;
            case 11: ggc_sem_wait(&sem); y = GGC_NEW(Node); GGC_WD(y, d, v2); LINK(); y = NULL; ggc_sem_post(&sem); break;
        }
        look(me, x, v, 1);
        gs_assert(GGC_RAP(shared, me) == x, "shared references agree");
    }
    x = y = NULL; z = NULL;
    return;
}
static void worker(GGC_ThreadArg a)
{
    static const int ops[] = OPS;
    GGC_PUSH_1(a);
    run(1 + over++, K, ops, NOPS);
    return;
}
#ifdef EXTRA
static void extra(GGC_ThreadArg a)
{
    GGC_PUSH_1(a);
    COLLECT(0);
    return;
}
#endif
void harness_main(void)
{
    static const int ops[] = MOPS;
    ggc_thread_t th[W]; GGC_ThreadArg ta = NULL; int i;
    GGC_PUSH_3(shared, ta, fchain);
    shared = GGC_NEW_PA(Node, W + 1);
    ggc_sem_init(&sem, 1);
#ifdef AGED
    for (i = 0; i < GGGGC_GENERATIONS; i++) COLLECT(i);
#endif
    ta = GGC_NEW(GGC_ThreadArg);
    for (i = 0; i < W; i++) gs_assert(ggc_thread_create(&th[i], worker, ta) == 0, "thread creation");
#ifdef RENDEZ
    env_picks = 0;
#else
    env_preempt = P;
#endif
    run(0, KM, ops, NMOPS);
    for (i = 0; i < W; i++) ggc_thread_join(th[i]);
    env_preempt = 0;
    COLLECT(0);
#ifndef NOFULL
    COLLECT(GGGGC_GENERATIONS - 1);
#endif
    for (i = 0; i <= W; i++) look(i, GGC_RAP(shared, i), slotv[i], 1);
    check_chain(fchain);
    gs_cover("end");
}
