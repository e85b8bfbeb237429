/* vf.h - verification prelude shared by all proof units.
 *
 * One unit = one C file that #includes the real /repo sources and states
 * contracts over their functions.  The same file is
 *   - compiled by goto-cc and discharged by CBMC   (VF_CBMC defined), and
 *   - compiled by gcc with ASan+UBSan to replay a counterexample (native).
 */
#ifndef VF_H
#define VF_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <assert.h>
#include <errno.h>
#include <limits.h>

#ifdef VF_CBMC_BUILD
#define VF_CBMC 1
#endif

#ifdef VF_CBMC
#define VF_ASSERT(c, msg) __CPROVER_assert((c), msg)
#define VF_ASSUME(c) __CPROVER_assume(c)
/* reachability witness: the runner requires this assertion to FAIL */
#define VF_REACH(name) __CPROVER_assert(0, "VFCOVER " name)
#define VF_REACH_IF(c, name) __CPROVER_assert(!(c), "VFCOVER " name)
#define VF_ND(T, N)                     \
    T nondet_vf_##N(void);              \
    static inline T nd_##N(void)        \
    {                                   \
        T vf_nd = nondet_vf_##N();      \
        return vf_nd;                   \
    }
_Bool nondet_vf_bool(void);
static inline _Bool nd_bool(void)
{
    _Bool vf_nd = nondet_vf_bool();
    return vf_nd;
}
#elif defined(VF_ENUM)
/* bounded exhaustive mode: every nondeterministic choice is a digit of a
 * depth-first enumeration; the harness runs once per combination */
void vf_enum_fail(const char *msg);
void vf_enum_assume(void);
void vf_enum_reach(const char *name);
unsigned vf_choice(unsigned n);
long long vf_note(long long v);
#define VF_ASSERT(c, msg) do { if (!(c)) vf_enum_fail(msg); } while (0)
#define VF_ASSUME(c) do { if (!(c)) vf_enum_assume(); } while (0)
#define VF_REACH_IF(c, name) do { if (c) vf_enum_reach(name); } while (0)
#define VF_REACH(name) VF_REACH_IF(1, name)
static const long long vf_interesting[] = {0, 1, -1, 2, 127, 128, 255};
#define VF_ND(T, N) \
    static inline T nd_##N(void) { return (T)vf_note((T)vf_interesting[vf_choice(7)]); }
static inline _Bool nd_bool(void) { return vf_note(vf_choice(2)) != 0; }
#else
#define VF_ASSERT(c, msg)                                             \
    do {                                                              \
        if (!(c)) {                                                   \
            fprintf(stderr, "REPLAY-FAIL: %s\n", msg);                \
            fflush(stderr);                                           \
            _Exit(99);                                                \
        }                                                             \
    } while (0)
#define VF_ASSUME(c)                                                  \
    do {                                                              \
        if (!(c)) {                                                   \
            fprintf(stderr, "REPLAY-ASSUME-FALSE: %s\n", #c);         \
            fflush(stderr);                                           \
            _Exit(77);                                                \
        }                                                             \
    } while (0)
#define VF_REACH(name) ((void)0)
#define VF_REACH_IF(c, name) ((void)0)
long long vf_replay_next(void);
#define VF_ND(T, N) \
    static inline T nd_##N(void) { return (T)vf_replay_next(); }
static inline _Bool nd_bool(void) { return vf_replay_next() != 0; }
#endif
VF_ND(unsigned char, u8)
VF_ND(char, char)
VF_ND(unsigned short, u16)
VF_ND(int, int)
VF_ND(unsigned, u32)
VF_ND(unsigned long, size)
VF_ND(unsigned long, u64)
VF_ND(long, long)

/* nondet in [lo,hi] */
static inline int nd_range(int lo, int hi)
{
#ifdef VF_ENUM
    int r = (int)vf_note(lo + (int)vf_choice((unsigned)(hi - lo + 1)));
#else
    int r = nd_int();
#endif
    VF_ASSUME(r >= lo && r <= hi);
    return r;
}
static inline size_t nd_size_max(size_t hi)
{
#ifdef VF_ENUM
    size_t r = (size_t)vf_note(vf_choice((unsigned)hi + 1));
#else
    size_t r = nd_size();
#endif
    VF_ASSUME(r <= hi);
    return r;
}

void harness(void);

#ifdef VF_ENUM
#include "vf_enum.h"
#elif !defined(VF_CBMC)
/* native replay driver */
static long long *vf_vals;
static size_t vf_nvals, vf_pos;
long long vf_replay_next(void)
{
    if (vf_pos < vf_nvals)
        return vf_vals[vf_pos++];
    return 0;
}
int main(int argc, char **argv)
{
    FILE *f;
    size_t cap = 0;
    char line[256];
    if (argc < 2 || !(f = fopen(argv[1], "r")))
        return 78;
    while (fgets(line, sizeof(line), f)) {
        if (line[0] == '#' || line[0] == '\n')
            continue;
        if (vf_nvals == cap) {
            cap = cap ? cap * 2 : 64;
            vf_vals = realloc(vf_vals, cap * sizeof(*vf_vals));
        }
        vf_vals[vf_nvals++] = strtoll(line, NULL, 0);
    }
    fclose(f);
    harness();
    fprintf(stderr, "REPLAY-OK\n");
    return 0;
}
#endif
#endif
