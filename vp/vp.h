/* Harness layer shared by the three ways a unit is compiled:
 *
 *   VP_PROOF   goto-cc, contracts enforced by goto-instrument --dfcc, inputs
 *              fully symbolic and unbounded (up to the stated object sizes);
 *   VP_BMC     goto-cc, no contract, inputs bounded and logged in vp_log[] so
 *              that a counterexample can be replayed (counterexample search);
 *   VP_NATIVE  the host compiler: the same harness runs the real code on
 *              logged inputs (replay) or on drawn inputs (search).
 */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>

#if defined(VP_PROOF) || defined(VP_BMC)
# define VP_CBMC 1
#endif

#ifdef VP_CBMC

uint64_t nondet_vp_u64(void);
uint8_t nondet_vp_u8(void);

# define VP_ASSUME(c)        __CPROVER_assume(c)
# define VP_CHECK(label, c)  __CPROVER_assert((c), label)
# ifdef VP_PROOF
#  define VP_REACH()         __CPROVER_assert(0, "vp_reach")
# else
#  define VP_REACH()         ((void)0)
# endif

# ifdef VP_PROOF
#  define REQUIRES(c)        __CPROVER_requires(c)
#  define ENSURES(c)         __CPROVER_ensures(c)
#  define ASSIGNS(...)       __CPROVER_assigns(__VA_ARGS__)
#  define FREES(...)         __CPROVER_frees(__VA_ARGS__)
#  define WHOLE(p)           __CPROVER_object_whole(p)
#  define UPTO(p, n)         __CPROVER_object_upto(p, n)
#  define FROM(p)            __CPROVER_object_from(p)
#  define RET                __CPROVER_return_value
#  define OLD(x)             __CPROVER_old(x)
#  define CONTRACT(...)      __VA_ARGS__
static inline uint64_t vp_u64(void) { uint64_t v = nondet_vp_u64(); return v; }
static inline uint8_t vp_u8(void) { uint8_t v = nondet_vp_u8(); return v; }
#  define VP_LEN(pmax, bmax) vp_range(0, (pmax))
static inline void *vp_alloc(size_t n)
{
    void *p = malloc(n);
    __CPROVER_assume(p != NULL);
    return p;
}
# else
#  define CONTRACT(...)
#  define VP_LOG_MAX 4096
uint64_t vp_log[VP_LOG_MAX];
unsigned vp_logn;
static inline uint64_t vp_u64(void)
{
    uint64_t v = nondet_vp_u64();
    vp_log[vp_logn] = v;
    vp_logn++;
    return v;
}
static inline uint8_t vp_u8(void)
{
    uint8_t v = nondet_vp_u8();
    vp_log[vp_logn] = v;
    vp_logn++;
    return v;
}
#  define VP_LEN(pmax, bmax) vp_range(0, (bmax))
static inline void *vp_alloc(size_t n)
{
    void *p = malloc(n);
    __CPROVER_assume(p != NULL);
    return p;
}
# endif
static inline uint64_t vp_range(uint64_t lo, uint64_t hi)
{
    uint64_t v = vp_u64();
    __CPROVER_assume(v >= lo && v <= hi);
    return v;
}
/* a buffer of exactly n bytes with arbitrary contents; bmax: n's bound */
static inline uint8_t *vp_buf(size_t n, size_t bmax)
{
    uint8_t *p = vp_alloc(n);
# ifdef VP_BMC
    for (size_t vp_i = 0; vp_i < bmax; vp_i++) {
        uint8_t v = vp_u8();
        if (vp_i < n) {
            p[vp_i] = v;
        }
    }
# endif
    return p;
}
# define VP_MAIN(name)  void name(void)

# ifdef VP_WANT_STUBS
__attribute__((noreturn)) void lc_assert_fail(const char *e, const char *f,
                                              unsigned l, const char *fn)
{
    __CPROVER_assert(0, "library assertion holds");
    __CPROVER_assume(0);
}
__attribute__((noreturn)) int e_panic(const char *fmt, ...)
{
    __CPROVER_assume(0);
}
/* compiler built-in, unknown to cbmc */
unsigned __int128 __builtin_bswap128(unsigned __int128 x)
{
    return (unsigned __int128)__builtin_bswap64(x) << 64
        | __builtin_bswap64(x >> 64);
}
void *mempcpy(void *dst, const void *src, size_t n)
{
    return (char *)memcpy(dst, src, n) + n;
}
# endif

#else /* VP_NATIVE */

# include <stdio.h>
# include <setjmp.h>
# include <unistd.h>

# define CONTRACT(...)
# define VP_ASSUME(c)        do { if (!(c)) vp_skip(); } while (0)
# define VP_CHECK(label, c)  do { if (!(c)) vp_fail(label, #c); } while (0)
# define VP_REACH()          ((void)0)

extern void vp_skip(void) __attribute__((noreturn));
extern void vp_fail(const char *label, const char *expr);
extern uint64_t vp_u64(void);
extern uint8_t vp_u8(void);
extern uint64_t vp_range(uint64_t lo, uint64_t hi);
extern void *vp_alloc(size_t n);
extern uint8_t *vp_buf(size_t n, size_t bmax);
# define VP_LEN(pmax, bmax)  vp_len(bmax)
extern uint64_t vp_len(uint64_t bmax);
struct vp_harness { const char *name; void (*fn)(void); };
# define VP_MAIN(name) \
    void name(void); \
    __attribute__((used, section("vp_harnesses"))) \
    const struct vp_harness vp_h_##name = { #name, name }; \
    void name(void)

# ifdef VP_WANT_STUBS
__attribute__((noreturn)) void lc_assert_fail(const char *e, const char *f,
                                              unsigned l, const char *fn)
{
    vp_fail("library assertion holds", e);
    vp_skip();
}
__attribute__((noreturn)) int e_panic(const char *fmt, ...)
{
#  ifdef VP_PANIC_FAILS
    vp_fail("does not panic", fmt);
#  endif
    vp_skip();
}
# endif
#endif

#if defined(VP_WANT_STUBS) && !defined(VP_OWN_MEM_TOOLS)
/* instrumentation of valgrind/asan: no effect on the data */
void mem_tool_allow_memory(const void *mem, size_t len, bool defined) { }
void mem_tool_allow_memory_if_addressable(const void *mem, size_t len,
                                          bool defined) { }
void mem_tool_define_memory_if_addressable(const void *mem, size_t len) { }
void mem_tool_disallow_memory(const void *mem, size_t len) { }
void mem_tool_malloclike(const void *mem, size_t len, size_t rz, bool z) { }
void mem_tool_freelike(const void *mem, size_t len, size_t rz) { }
#endif

static inline bool vp_bool(void) { return vp_u8() & 1; }
static inline uint32_t vp_u32(void) { return (uint32_t)vp_u64(); }
static inline uint16_t vp_u16(void) { return (uint16_t)vp_u64(); }

#endif
