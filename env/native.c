/* Native implementation of the gs_* interface for replaying counterexamples:
 * values come from the file named by GS_REPLAY. Exit status 42 = the recorded
 * violation happened. */
#define ENV_IMPL 1
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <sys/mman.h>
#include "gs.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define ASAN 1
#endif
#ifdef ASAN
void __asan_poison_memory_region(void const volatile *a, size_t n);
void __asan_unpoison_memory_region(void const volatile *a, size_t n);
int __asan_address_is_poisoned(void const volatile *a);
#else
#define __asan_poison_memory_region(a, n)
#define __asan_unpoison_memory_region(a, n)
#define __asan_address_is_poisoned(a) 0
#endif
#define HEAP_BASE 0x200000000000ull
#define HEAP_MAX (64ull << 20)
static gs_w *vals, nvals, pos; static struct { gs_w a, v; } *un; static gs_w nun;
static gs_w top = HEAP_BASE + 4096;
static pthread_mutex_t lk = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int turn, ntid = 1; static __thread int self;
static int verbose;

static void init(void)
{
    static int done; FILE *f; char k; gs_w a, b; const char *fn;
    if (done) return; done = 1;
    verbose = getenv("GS_VERBOSE") != NULL;
    vals = malloc(sizeof(gs_w) * 1000000); un = malloc(sizeof(*un) * 1000000);
    fn = getenv("GS_REPLAY");
    if (fn) { f = fopen(fn, "r"); if (!f) { perror(fn); _exit(3); }
        while (fscanf(f, " %c", &k) == 1) {
            if (k == 'v') { if (fscanf(f, "%lu", &a) == 1) vals[nvals++] = a; }
            else if (k == 'u') { if (fscanf(f, "%lu %lu", &a, &b) == 2) { un[nun].a = a; un[nun].v = b; nun++; } }
            else { int c; while ((c = fgetc(f)) != EOF && c != '\n'); }
        }
        fclose(f); }
    if (mmap((void *) HEAP_BASE, HEAP_MAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) != (void *) HEAP_BASE) { perror("mmap"); _exit(3); }
    __asan_poison_memory_region((void *) HEAP_BASE, HEAP_MAX);
}
static gs_w next(const char *n, gs_w dflt)
{
    init();
    if (pos < nvals) { if (verbose) fprintf(stderr, "[in] %s = %lu\n", n, vals[pos]); return vals[pos++]; }
    pos++;
    return dflt;
}
gs_w gs_u64(const char *n) { return next(n, 0); }
gs_w gs_range(const char *n, gs_w lo, gs_w hi) { gs_w v = next(n, lo); if (v < lo || v > hi) { fprintf(stderr, "REPLAY-DIVERGED %s\n", n); _exit(5); } return v; }
gs_w gs_choose(const char *n, gs_w k) { return gs_range(n, 0, k - 1); }
void gs_assume(int c) { if (!c) { fprintf(stderr, "REPLAY-ASSUMPTION-FAILED\n"); _exit(5); } }
void gs_fail(const char *m) { fprintf(stderr, "REPLAY-VIOLATION: %s\n", m); _exit(42); }
void gs_assert(int c, const char *m) { if (!c) gs_fail(m); }
void gs_cover(const char *l) { if (verbose) fprintf(stderr, "[cover] %s\n", l); }
void gs_exit(void) { _exit(0); }
int gs_is_engine(void) { return 0; }
gs_w gs_ite(int c, gs_w a, gs_w b) { return c ? a : b; }
gs_w gs_concrete(gs_w v) { return v; }
void gs_log(const char *s, gs_w v) { if (verbose) fprintf(stderr, "[log] %s %#lx\n", s, v); }
void *gs_alloc_raw(gs_w sz, gs_w al)
{
    gs_w w = (sz + 7) / 8, a, i;
    init();
    if (al < 16) al = 16; if (!w) w = 1;
    a = (top + al - 1) & ~(al - 1);
    if (a + w * 8 + 64 > HEAP_BASE + HEAP_MAX) return 0;
    top = a + w * 8 + 64;
    __asan_unpoison_memory_region((void *) a, w * 8);
    memset((void *) a, 0xbe, w * 8);
    for (i = 0; i < nun; i++) if (un[i].a >= a && un[i].a < a + w * 8) *(gs_w *) un[i].a = un[i].v;
    return (void *) a;
}
void gs_free_raw(void *p, gs_w sz) { gs_w w = (sz + 7) / 8; if (!w) w = 1; (void) p; __asan_poison_memory_region(p, w * 8); }
int gs_mapped(void *p, gs_w n) { gs_w i; if ((gs_w) p < HEAP_BASE || (gs_w) p + n > HEAP_BASE + HEAP_MAX) return 0; for (i = 0; i < n; i++) if (__asan_address_is_poisoned((char *) p + i)) return 0; return 1; }
struct tn { void *(*fn)(void *); void *arg; int id; };
static void waitTurn(int id) { pthread_mutex_lock(&lk); while (turn != id) pthread_cond_wait(&cv, &lk); pthread_mutex_unlock(&lk); }
static void give(int id) { pthread_mutex_lock(&lk); turn = id; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&lk); }
static void *tstart(void *v) { struct tn t = *(struct tn *) v; free(v); self = t.id; waitTurn(t.id); t.fn(t.arg); return 0; }
int gs_thread_new(void *(*fn)(void *), void *arg) { struct tn *t = malloc(sizeof *t); pthread_t p; t->fn = fn; t->arg = arg; t->id = ntid++; { int id = t->id; if (pthread_create(&p, 0, tstart, t)) _exit(3); return id; } }
void gs_switch(int t) { int me = self; give(t); waitTurn(me); }
int gs_self(void) { return self; }
void gs_thread_die(int t) { give(t); pthread_exit(0); }
void harness_main(void);
static void onsig(int s) { (void) s; { static const char m[] = "REPLAY-VIOLATION: signal (timeout or crash)\n"; if (write(2, m, sizeof m - 1)) {} } _exit(42); }
int main(void)
{
    init();
    signal(SIGALRM, onsig);
    alarm(20);
    harness_main();
    return 0;
}
