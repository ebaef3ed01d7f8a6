/* C16: K pool requests, optional or mandatory, with refusals, placements and
 * handed-back generations chosen freely; every region is aligned, disjoint
 * from all others and from memory owned by others, and usable throughout. */
#include "gch.h"
#ifndef K
#define K 3
#endif
#ifndef FAILS
#define FAILS 0
#endif
#ifndef T
#define T 0                     /* also a second thread making as many requests */
#endif
#ifndef KT
#define KT 2
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef PRE
#define PRE 0                   /* requests before anything is refused */
#endif
#ifdef ENV_SKEW
#define SKEW() do { ENV_SKEW; } while (0)
#else
#define SKEW() do { } while (0)
#endif
#ifdef GGGGC_USE_PORTABLE_ALLOCATOR
#define ALIGNED 0
#else
#define ALIGNED 1
#endif
#define ALL (*budgets[0] + *budgets[1] + *budgets[2] + *budgets[3])
static int *budgets[] = {&env_malloc_fail, &env_memalign_fail, &env_mmap_fail, &env_sbrk_fail};
static struct GGGGC_Pool *pools[32]; static int np, live[32], before;
static char *others[24]; static int nothers;
static void onAbort(void)
{
    gs_assert(ALL < before, "only a refused mandatory request aborts");
    gs_cover("aborted");
    gs_exit();
}
/* every word of a region gets a value of its own */
static void mark(struct GGGGC_Pool *p, int id)
{
    ggc_size_t *w;
    for (w = p->start; w < p->end; w++) *w = (gs_w) w * 31 + id;
}
static void checkAll(void)
{
    int i, j; ggc_size_t *w;
    for (i = 0; i < np; i++) if (live[i]) {
        struct GGGGC_Pool *p = pools[i];
        for (w = p->start; w < p->end; w++) gs_assert(*w == (gs_w) w * 31 + i, "a region belongs to its owner alone");
        for (j = 0; j < i; j++) if (live[j]) gs_assert((char *) p + GGGGC_POOL_BYTES <= (char *) pools[j] || (char *) pools[j] + GGGGC_POOL_BYTES <= (char *) p, "regions are disjoint");
        for (j = 0; j < env_nforeign; j++) gs_assert(!env_foreign[j].n || (char *) p + GGGGC_POOL_BYTES <= env_foreign[j].p || env_foreign[j].p + env_foreign[j].n <= (char *) p, "a region is disjoint from memory owned by others");
    }
    for (i = 0; i < nothers; i++) for (j = 0; j < 64; j++) gs_assert(others[i][j] == (char) (i + 1), "memory owned by others is left alone");
}
static void request(int must)
{
    struct GGGGC_Pool *p;
    int b = ALL, i;
    before = b;
    p = ggggc_newPool(must);
    if (!p) {
        gs_assert(!must, "a mandatory request never reports failure");
        gs_assert(T || ALL < b, "only a refused optional request fails");
        gs_cover("refused");
        return;
    }
    if (ALIGNED) gs_assert(((gs_w) p & (GGGGC_POOL_BYTES - 1)) == 0, "a region is aligned");
    for (i = 0; i < env_nforeign; i++) gs_assert(!env_foreign[i].n || (char *) p + GGGGC_POOL_BYTES <= env_foreign[i].p || env_foreign[i].p + env_foreign[i].n <= (char *) p, "a region is disjoint from memory owned by others");
    p = (struct GGGGC_Pool *) gs_concrete((gs_w) p);
#ifdef GGGGC_USE_SBRK
    env_brk_fix();
#endif
    gs_assert(gs_mapped(p, GGGGC_POOL_BYTES), "a region is usable in full");
    gs_assert(p->end == (ggc_size_t *) ((char *) p + GGGGC_POOL_BYTES) && p->start > (ggc_size_t *) p && p->start < p->end && p->free == p->start && !p->next && p->survivors == 0, "a region is set up");
    if (ALIGNED) gs_assert(GGGGC_POOL_OF(p->end - 1) == p && GGGGC_POOL_OF(p->start) == p, "a region is found from its objects");
    for (i = 0; i < np; i++) gs_assert(!live[i] || pools[i] != p, "a region has one owner");
    i = np++;
    pools[i] = p; live[i] = 1;
    mark(p, i);
}
static void giveBack(void)
{
    int i, n = 0, last = -1, k;
    struct GGGGC_Pool *head = NULL;
    k = 1 + (int) gs_choose("pools given back", 2);
    for (i = np - 1; i >= 0 && n < k; i--) if (live[i]) { live[i] = 0; pools[i]->next = head; head = pools[i]; n++; last = i; }
    (void) last;
    ggggc_freeGeneration(head);
}
static void other(void)
{
    int b = env_malloc_fail, r = env_malloc_brk, s = (int) env_malloc_skew_max, j; char *p;
    env_malloc_fail = 0; env_malloc_skew_max = 0;
    p = (char *) malloc(64);
    env_malloc_fail = b; env_malloc_skew_max = s; (void) r;
    if (p && nothers < 24) { for (j = 0; j < 64; j++) p[j] = nothers + 1; others[nothers++] = p; }
}
#if T
static void *second(void *x)
{
    int i;
    for (i = 0; i < KT; i++) request(0);
    return NULL;
}
#endif
/* placement is free from the very first request, which the library's own
 * constructors make */
__attribute__((constructor(101))) static void early(void) { SKEW(); }
void harness_main(void)
{
    int i;
    env_on_abort = onAbort;
    for (i = 0; i < PRE; i++) request(0);
    *budgets[WHICH] = FAILS;
    other();
#if T
    {
        pthread_t t;
        env_preempt = T;
        pthread_create(&t, NULL, second, NULL);
        for (i = 0; i < K; i++) { request(i & 1); if (i == 0) giveBack(); }
        pthread_join(t, NULL);
        env_preempt = 0;
        checkAll();
    }
#else
    for (i = 0; i < K; i++) {
        gs_w o = gs_choose("request", OPS);
        if (o < 2) request((int) o); else giveBack();
        other();
        checkAll();
    }
#endif
#ifndef NOTAIL
    request(0); request(1);
    checkAll();
#endif
    gs_cover("end");
}
