/* Force-included before every translation unit. Pulls in the system headers
 * first, then redirects OS and libc services to the environment model env.c,
 * so that the engine and the native replay run exactly the same code. */
#ifndef VERIF_ENV_H
#define VERIF_ENV_H 1
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <unistd.h>
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <sys/types.h>
#include <sys/mman.h>
#include <pthread.h>
#include <semaphore.h>
#include <malloc.h>
#include "gs.h"

#ifdef ENV_NO_BARRIERS
#undef _POSIX_BARRIERS
#define _POSIX_BARRIERS 0
#endif
#ifdef ENV_NO_ADVISORY
#undef _POSIX_ADVISORY_INFO
#define _POSIX_ADVISORY_INFO 0
#endif

#ifdef __cplusplus
extern "C" {
#endif
void *env_malloc(size_t n);
void *env_calloc(size_t n, size_t m);
void *env_realloc(void *p, size_t n);
void env_free(void *p);
int env_posix_memalign(void **p, size_t a, size_t n);
void *env_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off);
int env_munmap(void *a, size_t n);
void *env_sbrk(intptr_t n);
int env_brk(void *p);
void env_abort(void);
void env_exit(int);
int env_fprintf(void *f, const char *fmt, ...);
int env_printf(const char *fmt, ...);
void env_perror(const char *s);
void env_qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *));
extern __thread int env_errno;
int env_mutex_init(pthread_mutex_t *m);
int env_mutex_destroy(pthread_mutex_t *m);
int env_mutex_lock(pthread_mutex_t *m);
int env_mutex_trylock(pthread_mutex_t *m);
int env_mutex_unlock(pthread_mutex_t *m);
int env_barrier_init(pthread_barrier_t *b, unsigned n);
int env_barrier_destroy(pthread_barrier_t *b);
int env_barrier_wait(pthread_barrier_t *b);
int env_sem_init(sem_t *s, unsigned n);
int env_sem_destroy(sem_t *s);
int env_sem_post(sem_t *s);
int env_sem_wait(sem_t *s);
int env_thread_create(pthread_t *t, void *(*fn)(void *), void *arg);
int env_thread_join(pthread_t t, void **ret);
int env_sched_yield(void);

/* knobs for harnesses */
extern int env_preempt;        /* remaining involuntary context switches */
extern int env_picks;          /* remaining free choices of the next thread when one blocks (-1: no limit); round robin afterwards */
extern int env_malloc_fail;    /* number of allocation failures that may be injected */
extern int env_memalign_fail, env_mmap_fail, env_sbrk_fail, env_create_fail;
extern void (*env_on_abort)(void);  /* called instead of failing when abort() is reached */
extern size_t env_memalign_live, env_malloc_live;
extern size_t env_pool_bytes, env_pool_limit, env_pool_live; /* regions of this size count, and are refused beyond the limit (0: none) */
struct env_range { char *p; size_t n; };
extern struct env_range env_foreign[32]; extern int env_nforeign;  /* memory others took from the break */
extern int env_malloc_brk;     /* malloc calls that may take memory from the break */
extern int env_brk_race;       /* times others may move the break between two calls */
void env_brk_fix(void);
extern gs_w env_brk_racemax;        /* how much others take from the break when they do: 1 to this many bytes */
extern gs_w env_malloc_sizemax;     /* nonzero: sizes stay symbolic, every block gets this many bytes */
extern gs_w env_malloc_skew_max, env_malloc_skew_min, env_malloc_skew_align;   /* placement of blocks of at least _min bytes: up to _max * 16 bytes past an aligned address */
extern gs_w env_mmap_skew_max, env_sbrk_skew_max, env_sbrk_skew_unit;
void *env_aligned_alloc(size_t a, size_t n);
pthread_t env_thread_self(void);
int env_sem_trywait(sem_t *s);
int env_threads_alive(void);
void env_spin(void);           /* caller is busy-waiting: run somebody else until progress */
void env_sched_point(void);
void env_progress(void);
#ifdef __cplusplus
}
#endif

#ifndef ENV_IMPL
#undef errno
#define errno env_errno
#undef stderr
#define stderr ((FILE *) 0)
#undef stdout
#define stdout ((FILE *) 0)
#define malloc(n) env_malloc(n)
#define calloc(n, m) env_calloc(n, m)
#define realloc(p, n) env_realloc(p, n)
#define free(p) env_free(p)
#define posix_memalign(p, a, n) env_posix_memalign(p, a, n)
#define mmap(a, b, c, d, e, f) env_mmap(a, b, c, d, e, f)
#define munmap(a, b) env_munmap(a, b)
#define sbrk(n) env_sbrk(n)
#define brk(n) env_brk(n)
#define abort() env_abort()
#undef fprintf
#define fprintf(...) env_fprintf(__VA_ARGS__)
#undef printf
#define printf(...) env_printf(__VA_ARGS__)
#define perror(s) env_perror(s)
#define qsort(a, b, c, d) env_qsort(a, b, c, d)
#define aligned_alloc(a, n) env_aligned_alloc(a, n)
#define memalign(a, n) env_aligned_alloc(a, n)
#define sched_yield() env_sched_yield()
#define pthread_yield() env_sched_yield()
#define usleep(n) env_sched_yield()
#define pthread_self() env_thread_self()
#define pthread_equal(a, b) ((a) == (b))
#define sem_trywait(s) env_sem_trywait(s)
#undef assert
#define assert(c) ((c) ? (void) 0 : env_abort())
#undef exit
#define exit(n) env_exit(n)
#undef _exit
#define _exit(n) env_exit(n)
#undef puts
#define puts(s) (0)
#undef fputs
#define fputs(s, f) (0)
#undef fflush
#define fflush(f) (0)
#undef getenv
#define getenv(s) ((char *) 0)
#define pthread_mutex_init(m, a) env_mutex_init(m)
#define pthread_mutex_destroy(m) env_mutex_destroy(m)
#define pthread_mutex_lock(m) env_mutex_lock(m)
#define pthread_mutex_trylock(m) env_mutex_trylock(m)
#define pthread_mutex_unlock(m) env_mutex_unlock(m)
#define pthread_barrier_init(b, a, n) env_barrier_init(b, n)
#define pthread_barrier_destroy(b) env_barrier_destroy(b)
#define pthread_barrier_wait(b) env_barrier_wait(b)
#define sem_init(s, p, n) env_sem_init(s, n)
#define sem_destroy(s) env_sem_destroy(s)
#define sem_post(s) env_sem_post(s)
#define sem_wait(s) env_sem_wait(s)
#define pthread_create(t, a, f, x) env_thread_create(t, f, x)
#define pthread_join(t, r) env_thread_join(t, r)
#define sched_yield() env_sched_yield()
#endif
#endif
