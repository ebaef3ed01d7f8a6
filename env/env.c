/* Environment model: memory, OS allocation, threads. Shared between the
 * symbolic engine and native replay. */
#define ENV_IMPL 1
#include "env.h"
#undef errno

__thread int env_errno;
int env_preempt, env_malloc_fail, env_memalign_fail, env_mmap_fail, env_sbrk_fail, env_create_fail;
void (*env_on_abort)(void);
size_t env_memalign_live, env_malloc_live;
size_t env_pool_bytes, env_pool_limit, env_pool_live;
static int poolRefused(size_t n)
{
    if (!env_pool_bytes || n != env_pool_bytes) return 0;
    if (env_pool_limit && env_pool_live >= env_pool_limit) return 1;
    env_pool_live++;
    return 0;
}

/* ------------------------------------------------------------ memory */
#define MAXBLK 8192
static struct blk { char *p; size_t n; } blks[MAXBLK];
static int nblks;
static void *blkNew(size_t n, size_t align)
{
    char *p;
    if (n > (1ul << 30)) return NULL;
    p = (char *) gs_alloc_raw(n, align);
    if (!p) return NULL;
    if (nblks >= MAXBLK) gs_fail("environment model: too many blocks");
    blks[nblks].p = p; blks[nblks].n = n; nblks++;
    return p;
}
static int inject(int *budget, const char *what)
{
    if (*budget > 0 && gs_choose(what, 2)) { (*budget)--; return 1; }
    return 0;
}
gs_w env_malloc_sizemax, env_malloc_skew_max = 0, env_malloc_skew_min, env_malloc_skew_align = 16; int env_malloc_brk, env_brk_race; gs_w env_brk_racemax;
struct env_range env_foreign[32]; int env_nforeign;
static void env_brk_foreign(size_t n);
void *env_malloc(size_t n)
{
    void *r;
    if (inject(&env_malloc_fail, "malloc fails") || poolRefused(n)) { env_errno = ENOMEM; return NULL; }
    if (env_malloc_brk > 0 && gs_choose("malloc grows the heap", 2)) { env_malloc_brk--; env_brk_foreign((n + 31) & ~15ul); }
    if (env_malloc_skew_max && n >= env_malloc_skew_min) {
        /* the placement stays symbolic; the slack around the block is mapped,
         * so harnesses using this check bounds themselves (env_foreign) */
        gs_w skew = (env_malloc_skew_max < 8 ? gs_choose("malloc placement", env_malloc_skew_max + 1) : gs_range("malloc placement", 0, env_malloc_skew_max)) * 16;
        char *b = (char *) gs_alloc_raw(n + env_malloc_skew_max * 16, env_malloc_skew_align);
        if (!b || env_nforeign + 2 > 32) { env_errno = ENOMEM; return NULL; }
        env_foreign[env_nforeign].p = b; env_foreign[env_nforeign].n = skew; env_nforeign++;
        env_foreign[env_nforeign].p = b + skew + n; env_foreign[env_nforeign].n = env_malloc_skew_max * 16 - skew; env_nforeign++;
        blks[nblks].p = b + skew; blks[nblks].n = n; nblks++;
        env_malloc_live++;
        return b + skew;
    }
    if (env_malloc_sizemax) {
        /* sizes may be symbolic: give every block the largest size allowed */
        if (n > env_malloc_sizemax) { env_errno = ENOMEM; return NULL; }
        n = env_malloc_sizemax;
    }
    r = blkNew(n, 16);
    if (!r) { env_errno = ENOMEM; return NULL; }
    env_malloc_live++;
    return r;
}
void *env_calloc(size_t n, size_t m)
{
    void *p = env_malloc(n * m);
    if (p) memset(p, 0, n * m);
    return p;
}
static int blkFind(void *p)
{
    int i;
    for (i = nblks - 1; i >= 0; i--) if (blks[i].p == (char *) p) return i;
    return -1;
}
void env_free(void *p)
{
    int i;
    if (!p) return;
    i = blkFind(p);
    if (i < 0) { gs_fail("free() of a pointer that is not a live allocation"); return; }
    gs_free_raw(p, blks[i].n);
    blks[i] = blks[--nblks];
    env_malloc_live--;
}
void *env_realloc(void *p, size_t n)
{
    int i; void *q;
    if (!p) return env_malloc(n);
    i = blkFind(p);
    if (i < 0) { gs_fail("realloc() of a pointer that is not a live allocation"); return NULL; }
    q = env_malloc(n);
    if (!q) return NULL;
    memcpy(q, p, blks[i].n < n ? blks[i].n : n);
    env_free(p);
    return q;
}
int env_posix_memalign(void **out, size_t align, size_t n)
{
    void *r;
    if (inject(&env_memalign_fail, "posix_memalign fails") || poolRefused(n)) return ENOMEM;
    r = blkNew(n, align);
    if (!r) return ENOMEM;
    env_memalign_live++;
    *out = r;
    return 0;
}
#define PAGE 4096ul
/* mmap: page-aligned, otherwise anywhere the harness-supplied offset says */
gs_w env_mmap_skew_max = 0; /* maximum extra pages skipped before a mapping */
static struct mp { char *p; size_t n; } mps[64];
static int nmps;
void *env_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
    size_t len = (n + PAGE - 1) & ~(PAGE - 1);
    char *p; gs_w skew = 0;
    (void) a; (void) prot; (void) flags; (void) fd; (void) off;
    if (inject(&env_mmap_fail, "mmap fails")) { env_errno = ENOMEM; return MAP_FAILED; }
    if (env_mmap_skew_max) skew = gs_choose("mmap placement", env_mmap_skew_max + 1);
    p = (char *) gs_alloc_raw(len + skew * PAGE, PAGE);
    if (!p) { env_errno = ENOMEM; return MAP_FAILED; }
    if (skew) { gs_free_raw(p, skew * PAGE); p += skew * PAGE; }
    memset(p, 0, len);
    if (nmps >= 64) gs_fail("environment model: too many mappings");
    mps[nmps].p = p; mps[nmps].n = len; nmps++;
    return p;
}
int env_munmap(void *a, size_t n)
{
    size_t len = (n + PAGE - 1) & ~(PAGE - 1);
    char *p = (char *) a;
    size_t done = 0;
    int i;
    if (((size_t) a & (PAGE - 1)) || !n) { env_errno = EINVAL; return -1; }
    for (i = 0; i < nmps; i++) {
        char *s = mps[i].p, *e = mps[i].p + mps[i].n;
        char *us = p > s ? p : s, *ue = p + len < e ? p + len : e;
        if (us >= ue) continue;
        gs_free_raw(us, ue - us);
        done += ue - us;
        if (us == s) { mps[i].p = ue; mps[i].n = e - ue; }
        else {
            mps[i].n = us - s;
            if (ue < e) { if (nmps >= 64) gs_fail("environment model: too many mappings"); mps[nmps].p = ue; mps[nmps].n = e - ue; nmps++; }
        }
    }
    if (done != len) gs_fail("munmap() of memory that is not mapped");
    return 0;
}
/* sbrk: one growing segment; other users may move the break between calls */
gs_w env_sbrk_skew_max = 0; gs_w env_sbrk_skew_unit = 16;
static char *brkBase, *brkCur, *brkEnd;
void *env_sbrk(intptr_t n)
{
    char *r;
    if (!brkBase) {
        brkBase = (char *) gs_alloc_raw(1ul << 20, 1ul << 16);
        brkEnd = brkBase + (1ul << 20);
        brkCur = brkBase;
        if (env_sbrk_skew_max) brkCur += (env_sbrk_skew_max < 8 ? gs_choose("initial break", env_sbrk_skew_max + 1) : gs_range("initial break", 0, env_sbrk_skew_max)) * env_sbrk_skew_unit;
    }
    if (env_brk_race > 0 && gs_choose("break moved by others", 2)) { env_brk_race--; env_brk_foreign(env_brk_racemax ? gs_range("others take", 1, env_brk_racemax) : 24); }
    if (n > 0 && inject(&env_sbrk_fail, "sbrk fails")) { env_errno = ENOMEM; return (void *) -1; }
    if (n > 0 && n > brkEnd - brkCur) { env_errno = ENOMEM; return (void *) -1; }
    if (n < 0 && -n > brkCur - brkBase) { env_errno = ENOMEM; return (void *) -1; }
    r = brkCur;
    brkCur += n;
    return r;
}
/* somebody else takes memory from the break */
static void env_brk_foreign(size_t n)
{
    int r = env_brk_race; char *p;
    env_brk_race = 0;
    p = (char *) env_sbrk(0);
    env_brk_race = r;
    if (n > (size_t) (brkEnd - brkCur) || env_nforeign >= 32) return;
    brkCur += n;
    env_foreign[env_nforeign].p = p; env_foreign[env_nforeign].n = n; env_nforeign++;
}
int env_brk(void *p)
{
    if (!brkBase) env_sbrk(0);
    if ((char *) p < brkBase || (char *) p > brkEnd) { env_errno = ENOMEM; return -1; }
    brkCur = (char *) p;
    return 0;
}
char *env_brk_cur(void) { return brkCur; }
/* where only one break is possible, say so (keeps expressions small) */
void env_brk_fix(void) { brkCur = (char *) gs_concrete((gs_w) brkCur); }

void env_abort(void)
{
    if (env_on_abort) env_on_abort();
    gs_fail("abort() reached");
}
void env_exit(int c) { (void) c; gs_fail("exit() reached"); }
int env_fprintf(void *f, const char *fmt, ...) { (void) f; (void) fmt; return 0; }
int env_printf(const char *fmt, ...) { (void) fmt; return 0; }
void env_perror(const char *s) { (void) s; }
void env_qsort(void *vb, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    /* binary insertion sort on up to 64-byte elements */
    char *b = (char *) vb; char tmp[64]; size_t i, j;
    if (sz > sizeof tmp) gs_fail("environment model: qsort element too large");
    for (i = 1; i < n; i++) {
        if (cmp(b + (i - 1) * sz, b + i * sz) <= 0) continue;
        memcpy(tmp, b + i * sz, sz);
        for (j = i; j > 0 && cmp(b + (j - 1) * sz, tmp) > 0; j--) memcpy(b + j * sz, b + (j - 1) * sz, sz);
        memcpy(b + j * sz, tmp, sz);
    }
}

/* ------------------------------------------------------------ threads */
#define MAXT 64
enum { T_RUN, T_MUTEX, T_BARRIER, T_SEM, T_JOIN, T_DONE };
static struct thr {
    int state, spinning, released, joined;
    unsigned long spinProg, failProg;
    void *obj;
    void *(*fn)(void *);
    void *arg, *ret;
} thr[MAXT];
static int nthr = 1, cur;
static unsigned long progress = 1;

struct emutex { int owner; int pad; };            /* owner = tid+1; 0 = free (PTHREAD_MUTEX_INITIALIZER) */
struct ebarrier { unsigned magic, count, arrived, pad; };
struct esem { unsigned magic, count; };
#define BMAGIC 0x42415252u
#define SMAGIC 0x53454d41u

static int runnable(int t)
{
    struct thr *h = &thr[t];
    switch (h->state) {
        case T_RUN: return !h->spinning || h->spinProg != progress;
        case T_MUTEX: return ((struct emutex *) h->obj)->owner == 0;
        case T_BARRIER: return h->released;
        case T_SEM: return ((struct esem *) h->obj)->count > 0;
        case T_JOIN: return thr[(int) (long) h->obj].state == T_DONE;
        default: return 0;
    }
}
int env_threads_alive(void)
{
    int i, n = 0;
    for (i = 0; i < nthr; i++) if (thr[i].state != T_DONE) n++;
    return n;
}
static void go(int t)
{
    int me = cur;
    if (t == me) return;
    cur = t;
    gs_switch(t);
}
int env_picks = -1;
/* pick a runnable thread other than (or including) us; never returns a blocked one */
static int pick(int includeSelf)
{
    int c[MAXT], n = 0, i;
    for (i = 0; i < nthr; i++) {
        if (i == cur && !includeSelf) continue;
        if (runnable(i)) c[n++] = i;
    }
    if (!n) {
        int sp = 0;
        for (i = 0; i < nthr; i++) if (thr[i].state == T_RUN && thr[i].spinning) sp = 1;
        gs_fail(sp ? "deadlock: every thread is blocked or busy-waiting for another" : "deadlock: every thread is blocked");
        gs_exit();
    }
    if (n == 1) return c[0];
    if (env_picks == 0) {
        for (i = 0; i < n; i++) if (c[i] > cur) return c[i];
        return c[0];
    }
    if (env_picks > 0) env_picks--;
    return c[gs_choose("schedule", n)];
}
/* a point where another thread may be scheduled involuntarily */
void env_sched_point(void)
{
    int c[MAXT], n = 0, i; gs_w k;
    if (nthr == 1 || env_preempt <= 0) return;
    for (i = 0; i < nthr; i++) if (i != cur && runnable(i)) c[n++] = i;
    if (!n) return;
    k = gs_choose("preempt", n + 1);
    if (k) { env_preempt--; go(c[k - 1]); }
}
void env_progress(void) { progress++; }
/* busy wait: hand over to others; runnable again after any progress */
void env_spin(void)
{
    thr[cur].spinning = 1; thr[cur].spinProg = progress;
    { int me = cur; go(pick(0)); thr[me].spinning = 0; }
}
static void block(int kind, void *obj)
{
    int me = cur;
    thr[me].state = kind; thr[me].obj = obj;
    go(pick(1));
    thr[me].state = T_RUN;
}
int env_sched_yield(void) { env_sched_point(); return 0; }

int env_mutex_init(pthread_mutex_t *vm) { struct emutex *m = (struct emutex *) vm; m->owner = 0; return 0; }
int env_mutex_destroy(pthread_mutex_t *vm) { struct emutex *m = (struct emutex *) vm; if (m->owner) gs_fail("destroying a locked mutex"); return 0; }
int env_mutex_lock(pthread_mutex_t *vm)
{
    struct emutex *m = (struct emutex *) vm;
    env_sched_point();
    while (m->owner) block(T_MUTEX, m);
    m->owner = cur + 1; progress++;
    return 0;
}
int env_mutex_trylock(pthread_mutex_t *vm)
{
    struct emutex *m = (struct emutex *) vm;
    env_sched_point();
    if (m->owner) {
        /* a second failure with nothing done by anybody in between is a busy wait */
        if (thr[cur].failProg == progress) env_spin();
        thr[cur].failProg = progress;
        return EBUSY;
    }
    m->owner = cur + 1; progress++;
    return 0;
}
int env_mutex_unlock(pthread_mutex_t *vm)
{
    struct emutex *m = (struct emutex *) vm;
    if (m->owner != cur + 1) gs_fail("unlocking a mutex that this thread does not hold");
    m->owner = 0; progress++;
    env_sched_point();
    return 0;
}
static int barrierWaiters(struct ebarrier *b)
{
    int i, n = 0;
    for (i = 0; i < nthr; i++) if (thr[i].state == T_BARRIER && thr[i].obj == (void *) b && !thr[i].released) n++;
    return n;
}
int env_barrier_init(pthread_barrier_t *vb, unsigned n)
{
    struct ebarrier *b = (struct ebarrier *) vb;
    if (n == 0) return EINVAL;
    if (barrierWaiters(b)) gs_fail("barrier re-initialised while a thread waits in it");
    b->magic = BMAGIC; b->count = n; b->arrived = 0;
    progress++;
    return 0;
}
int env_barrier_destroy(pthread_barrier_t *vb)
{
    struct ebarrier *b = (struct ebarrier *) vb;
    if (barrierWaiters(b)) gs_fail("barrier destroyed while a thread waits in it");
    b->magic = 0;
    return 0;
}
int env_barrier_wait(pthread_barrier_t *vb)
{
    struct ebarrier *b = (struct ebarrier *) vb;
    env_sched_point();
    if (b->magic != BMAGIC) gs_fail("waiting on a barrier that is not initialised");
    progress++;
    if (++b->arrived >= b->count) {
        int i;
        for (i = 0; i < nthr; i++) if (thr[i].state == T_BARRIER && thr[i].obj == (void *) b) thr[i].released = 1;
        b->arrived = 0;
        env_sched_point();
        return PTHREAD_BARRIER_SERIAL_THREAD;
    }
    thr[cur].released = 0;
    block(T_BARRIER, b);
    return 0;
}
int env_sem_init(sem_t *vs, unsigned n) { struct esem *s = (struct esem *) vs; s->magic = SMAGIC; s->count = n; return 0; }
int env_sem_destroy(sem_t *vs) { struct esem *s = (struct esem *) vs; s->magic = 0; return 0; }
int env_sem_post(sem_t *vs)
{
    struct esem *s = (struct esem *) vs;
    if (s->magic != SMAGIC) gs_fail("posting a semaphore that is not initialised");
    s->count++; progress++;
    env_sched_point();
    return 0;
}
int env_sem_wait(sem_t *vs)
{
    struct esem *s = (struct esem *) vs;
    env_sched_point();
    if (s->magic != SMAGIC) gs_fail("waiting on a semaphore that is not initialised");
    while (!s->count) block(T_SEM, s);
    s->count--; progress++;
    return 0;
}
static void *tramp(void *v)
{
    int me = (int) (long) v;
    thr[me].ret = thr[me].fn(thr[me].arg);
    thr[me].state = T_DONE; progress++;
    { int t = pick(0); cur = t; gs_thread_die(t); }
    return 0;
}
int env_thread_create(pthread_t *t, void *(*fn)(void *), void *arg)
{
    int id;
    env_sched_point();
    if (inject(&env_create_fail, "pthread_create fails")) return EAGAIN;
    if (nthr >= MAXT) return EAGAIN;
    id = nthr;
    thr[id].state = T_RUN; thr[id].fn = fn; thr[id].arg = arg;
    if (gs_thread_new(tramp, (void *) (long) id) != id) gs_fail("environment model: thread ids out of step");
    nthr++;
    *t = (pthread_t) id; progress++;
    env_sched_point();
    return 0;
}
int env_thread_join(pthread_t t, void **ret)
{
    int id = (int) (long) t;
    env_sched_point();
    if (id <= 0 || id >= nthr || thr[id].joined) { gs_fail("joining an invalid thread"); return ESRCH; }
    while (thr[id].state != T_DONE) block(T_JOIN, (void *) (long) id);
    thr[id].joined = 1;
    if (ret) *ret = thr[id].ret;
    return 0;
}

pthread_t env_thread_self(void) { return (pthread_t) cur; }
int env_sem_trywait(sem_t *vs)
{
    struct esem *s = (struct esem *) vs;
    env_sched_point();
    if (s->magic != SMAGIC) gs_fail("waiting on a semaphore that is not initialised");
    if (!s->count) {
        if (thr[cur].failProg == progress) env_spin();
        thr[cur].failProg = progress;
        env_errno = EAGAIN;
        return -1;
    }
    s->count--; progress++;
    return 0;
}
void *env_aligned_alloc(size_t a, size_t n)
{
    void *r = NULL;
    if (env_posix_memalign(&r, a, n)) return NULL;
    return r;
}
#ifdef ENV_ENGINE
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void) e; (void) f; (void) l; (void) fn; env_abort(); for (;;) ; }
/* library functions the engine does not interpret itself */
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char) *a - (unsigned char) *b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char) *a - (unsigned char) *b; if (!*a) break; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *strncpy(char *d, const char *s, size_t n) { char *r = d; while (n && *s) *d++ = *s++, n--; while (n) *d++ = 0, n--; return r; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *) s; for (; n; n--, p++) if (*p == (unsigned char) c) return (void *) p; return NULL; }
void bzero(void *p, size_t n) { memset(p, 0, n); }
int abs(int a) { return a < 0 ? -a : a; }
long labs(long a) { return a < 0 ? -a : a; }
int ffs(int a) { return __builtin_ffs(a); }
int snprintf(char *s, size_t n, const char *f, ...) { (void) f; if (n) *s = 0; return 0; }
int sprintf(char *s, const char *f, ...) { (void) f; *s = 0; return 0; }
#endif
