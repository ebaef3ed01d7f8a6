/* Interface between harnesses / environment models and the symbolic engine.
 * In the engine these are intrinsics; for native replay they are implemented by
 * native.c, which feeds recorded counterexample values. */
#ifndef GS_H
#define GS_H 1
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned long gs_w;
gs_w gs_u64(const char *name);                       /* any 64-bit value */
gs_w gs_range(const char *name, gs_w lo, gs_w hi);   /* any value in [lo,hi], stays symbolic */
gs_w gs_choose(const char *name, gs_w n);            /* any value in [0,n), one path each */
void gs_assume(int c);
void gs_assert(int c, const char *msg);
void gs_fail(const char *msg);
void gs_cover(const char *label);                    /* reachability witness */
void gs_exit(void);                                  /* end this path (property held) */
int gs_is_engine(void);
gs_w gs_ite(int c, gs_w a, gs_w b);                  /* c ? a : b without a path split */
gs_w gs_concrete(gs_w v);                            /* case split until v is concrete */
void gs_log(const char *s, gs_w v);
void *gs_alloc_raw(gs_w size, gs_w align);
void gs_free_raw(void *p, gs_w size);
int gs_mapped(void *p, gs_w size);
int gs_thread_new(void *(*fn)(void *), void *arg);
void gs_switch(int tid);
int gs_self(void);
void gs_thread_die(int next);
#ifdef __cplusplus
}
#endif
#endif
