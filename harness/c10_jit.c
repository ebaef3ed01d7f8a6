/* C10: the JIT reference stack. D words (plain or with internal tags), or up to
 * D words in tag-word groups of any shape (external tags). The live part starts
 * anywhere; every other word is garbage. WHO 0: this thread collects; 1: another
 * thread collects while this one is blocked; 2: while this one yields. */
#include "gch.h"
#ifndef D
#define D 3
#endif
#ifndef NCOL
#define NCOL 2
#endif
#ifndef WHO
#define WHO 0
#endif
#ifndef AGES
#define AGES 1
#endif
#if WHO == 1 && defined(MUTEX)
static ggc_mutex_t mx = GGC_MUTEX_INITIALIZER;
#endif
GGC_TYPE(Vic) GGC_MDATA(ggc_size_t, d); GGC_MPTR(Vic, p); GGC_END_TYPE(Vic, GGC_PTR(Vic, p))
static Vic vic[2];
static gs_w vd[2];
static void *jit[D + 2], *copy[D + 2];
static int isref[D + 2];       /* concrete per path only where it must be */
static gs_w data[D + 2], sel[D + 2];
static Vic first[2];
static int base;

static void collections(void)
{
    int k;
    for (k = 0; k < NCOL; k++) ggggc_collect0((unsigned char) gs_choose("gen", GGGGC_GENERATIONS));
}
static volatile int done, locked;
static void body(GGC_ThreadArg a)
{
    Vic x = NULL;
    GGC_PUSH_2(a, x);
#ifdef MUTEX
    ggc_mutex_lock(&mx); locked = 1; env_progress();
#endif
    x = GGC_NEW(Vic);
    collections();
    done = 1; env_progress();
#ifdef MUTEX
    ggc_mutex_unlock(&mx);
#endif
}
static gs_w word(int i)        /* contents of a word holding a reference slot */
{
    gs_w t = gs_u64("word"), r;
    sel[i] = gs_range("target", 0, 2);
    r = gs_ite(sel[i] == 0, 0, gs_ite(sel[i] == 1, (gs_w) vic[0], (gs_w) vic[1]));
#ifdef GGGGC_FEATURE_TAGGING
    data[i] = gs_range("tagged", 0, 1);
    gs_assume(data[i] == 0 || (t & 7) != 0);
    return gs_ite(data[i] != 0, t, r);
#else
    data[i] = 0;
    return r;
#endif
}
static void check(void)
{
    int i;
    gs_assert(ggc_jitPointerStack == jit + base && ggc_jitPointerStackEnd == jit + D + 1, "the JIT stack pointers are unchanged");
    for (i = 0; i < D + 2; i++) {
        Vic v; int k;
        if (!isref[i] || gs_concrete(data[i])) { gs_assert(jit[i] == copy[i], "data and dead words are left unchanged"); continue; }
        k = (int) gs_concrete(sel[i]);
        if (!k) { gs_assert(jit[i] == NULL, "null stays null"); continue; }
        v = (Vic) gs_concrete((gs_w) jit[i]);
        gs_assert(v != NULL && gs_mapped(v, sizeof(*v)), "a JIT reference is kept alive and updated");
        gs_assert(GGC_RD(v, d) == vd[k - 1], "a JIT reference designates its object");
        gs_assert(GGC_RP(v, p) == NULL, "a JIT reference designates its object");
        gs_assert(!first[k - 1] || first[k - 1] == v, "a shared target stays shared");
        first[k - 1] = v; gs_cover("ref");
    }
}
void harness_main(void)
{
    Vic x = NULL; int i, k; GGC_ThreadArg ta = NULL; ggc_thread_t th;
    GGC_PUSH_2(x, ta);
    {
        GGC_PUSH_2(vic[0], vic[1]);
#if WHO
        ta = GGC_NEW(GGC_ThreadArg);
#endif
        for (i = 0; i < 2; i++) {
            gs_w v = vd[i] = gs_u64("v"); vic[i] = GGC_NEW(Vic); x = vic[i]; GGC_WD(x, d, v);
            k = (int) gs_choose("age", GGGGC_GENERATIONS > 1 ? AGES : 1);
            if (k) ggggc_collect0(k - 1);
        }
        /* dead words look like references, or are anything */
        for (i = 0; i < D + 2; i++) { jit[i] = (void *) gs_ite(gs_range("looks live", 0, 1) != 0, (gs_w) vic[0], gs_u64("garbage")); isref[i] = 0; }
#ifdef FULL     /* one full tag word */
        base = 1;
#else
        base = 1 + (int) gs_choose("base", D + 1);
#endif
        for (i = base; i < D + 1; ) {
#ifndef GGGGC_FEATURE_EXTTAG
            jit[i] = (void *) word(i); isref[i] = 1; i++;
#else
            gs_w tags = 0; int n, left = D - i;  /* words that fit after the tag word */
            int at = i++;
            if (left > 8) left = 8;
#ifdef FULL
            n = left < FULL ? left : FULL;
#else
            n = (int) gs_choose("group", left + 1);
#endif
            for (k = 0; k < 8; k++) {
                gs_w t;
                if (k == n) { tags |= (gs_w) 0xff << (8 * k); continue; }
                if (k > n) { tags |= (gs_u64("junk tag") & 0xff) << (8 * k); continue; }
                t = gs_range("tag", 0, 251);
#ifdef FULL     /* only the first and last of the group vary freely */
                if (k > 0 && k < n - 1) t |= 1;
#endif
                tags |= t << (8 * k);
                { gs_w any = gs_u64("any"), w = word(i);
                  jit[i] = (void *) gs_ite((t & 1) != 0, any, w);
                  data[i] = t & 1; isref[i] = 1; i++; }
            }
            jit[at] = (void *) tags;
#endif
        }
        for (i = 0; i < D + 2; i++) copy[i] = jit[i];
        ggc_jitPointerStack = jit + base; ggc_jitPointerStackEnd = jit + D + 1;
        x = vic[0] = vic[1] = NULL;
    }
#if WHO == 0
    collections();
#else
    ggc_thread_create(&th, body, ta);
#ifdef MUTEX
    while (!locked) { GGC_YIELD(); env_spin(); }
    ggc_mutex_lock(&mx);
    ggc_mutex_unlock(&mx);
#elif WHO == 2
    while (!done) { GGC_YIELD(); if (!done) env_spin(); }
#endif
    ggc_thread_join(th);
    gs_assert(done, "the other thread ran");
#endif
    check();
    /* the blocked registration ends with the blocking call: pop one word, collect again here */
    if (base <= D) {
#ifndef GGGGC_FEATURE_EXTTAG
        isref[base] = 0; base++;
#else
        gs_w t = (gs_w) jit[base]; isref[base] = 0; base++;
        for (i = 0; i < 8; i++) {
            if (((t >> (8 * i)) & 0xff) == 0xff) break;
            isref[base] = 0; base++;
        }
#endif
        ggc_jitPointerStack = jit + base;
        for (i = 0; i < D + 2; i++) copy[i] = jit[i];
        first[0] = first[1] = NULL;
        ggggc_collect0((unsigned char) gs_choose("gen", GGGGC_GENERATIONS));
        check();
    }
    gs_cover("end");
}
