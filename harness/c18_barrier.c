/* C18: N participants pass the substitute barrier R times, under every
 * schedule with at most P involuntary switches; none passes early, all pass,
 * and the barrier is reusable at once, also with another participant count. */
#include "gch.h"
#if _POSIX_BARRIERS
#error the substitute barrier is not in use
#endif
#ifndef N
#define N 3
#endif
#ifndef R
#define R 2
#endif
#ifndef P
#define P 2
#endif
static ggc_barrier_t b; static int arrived[2][R], left_[2][R];
static void rounds(int phase, int n)
{
    int r;
    for (r = 0; r < R; r++) {
        arrived[phase][r]++;
        gs_assert(arrived[phase][r] <= n, "model: participants");
        gs_assert(!r || arrived[phase][r - 1] == n, "the previous round is complete");
#ifdef BLOCKINGW
        ggc_barrier_wait(&b);
#else
        ggc_barrier_wait_raw(&b);
#endif
        gs_assert(arrived[phase][r] == n, "no participant is released before all have arrived");
        left_[phase][r]++;
        if (r) gs_assert(left_[phase][r - 1] >= 1, "rounds are left in order");
    }
}
/* whoever is released first from the last round may destroy the barrier and
 * set it up anew at once (the collector does exactly that) */
static int once; static ggc_barrier_t b3; static int n3in, n3out;
static void *part3(void *x)
{
    n3in++;
    ggc_barrier_wait_raw(&b3);
    gs_assert(n3in == N, "no participant is released before all have arrived");
    if (!once) {
        once = 1;
        gs_assert(ggc_barrier_destroy(&b3) == 0, "barrier destruction");
        gs_assert(ggc_barrier_init(&b3, 1) == 0, "barrier initialisation");
        ggc_barrier_wait_raw(&b3);
    }
    n3out++;
    return NULL;
}
static int n1 = N, n2;
static void *part(void *x)
{
    rounds(0, n1);
    return NULL;
}
static void *part2(void *x)
{
    rounds(1, n2);
    return NULL;
}
void harness_main(void)
{
    pthread_t t[N]; int i, r, k;
#ifdef SYMN
    n1 = (int) gs_range("participants", 1, N);
#endif
    gs_assert(ggc_barrier_init(&b, n1) == 0, "barrier initialisation");
#ifdef PICKS
    env_picks = PICKS;
#endif
    env_preempt = P;
    for (i = 1; i < n1; i++) pthread_create(&t[i], NULL, part, NULL);
    rounds(0, n1);
    for (i = 1; i < n1; i++) pthread_join(t[i], NULL);
    for (r = 0; r < R; r++) gs_assert(left_[0][r] == n1, "every participant is released exactly once a round");
#ifndef ONLY3
    /* reuse without and with re-initialisation */
    n2 = n1;
    if (gs_choose("reinitialise", 2)) {
        n2 = (int) gs_range("participants again", 1, N);
        gs_assert(ggc_barrier_destroy(&b) == 0, "barrier destruction");
        gs_assert(ggc_barrier_init(&b, n2) == 0, "barrier initialisation");
    }
    for (i = 1; i < n2; i++) pthread_create(&t[i], NULL, part2, NULL);
    rounds(1, n2);
    for (i = 1; i < n2; i++) pthread_join(t[i], NULL);
    for (r = 0; r < R; r++) gs_assert(left_[1][r] == n2, "every participant is released exactly once a round");
#else
    gs_assert(ggc_barrier_init(&b3, N) == 0, "barrier initialisation");
    env_preempt = P;
    for (i = 1; i < N; i++) pthread_create(&t[i], NULL, part3, NULL);
    part3(NULL);
    for (i = 1; i < N; i++) pthread_join(t[i], NULL);
    gs_assert(n3out == N, "every participant is released exactly once a round");
#endif
    env_preempt = 0;
    gs_assert(ggc_barrier_destroy(&b) == 0, "barrier destruction");
    gs_cover("end");
}
