/* Assumed contracts of memcpy/memmove/memset/mempcpy for the proofs, in the
 * ghost-byte style: the destination range is havocked, and the bytes that the
 * proof looks at (vp_t[]: their current addresses) are carried along.  Weaker
 * than the real functions, so what is proved with them holds with the real
 * ones.  The bounded and native builds use the real functions. */
#ifndef VP_TRACK_H
#define VP_TRACK_H
#ifdef VP_PROOF
# ifndef VP_NT
#  define VP_NT 2
# endif
static const uint8_t *vp_t[VP_NT];

static inline void *vp_memmove(void *dst, const void *src, size_t n)
{
    bool in[VP_NT];
    uint8_t v[VP_NT];
    size_t off[VP_NT];

    __CPROVER_assert(n == 0 || __CPROVER_r_ok(src, n), "memcpy source");
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(dst, n), "memcpy destination");
    if (n == 0) {
        return dst;
    }
    if (n == 1) {
        *(uint8_t *)dst = *(const uint8_t *)src;
        if (vp_t[0] == src) {
            vp_t[0] = dst;
        }
        return dst;
    }
#define VP_T_BEFORE(i) \
    in[i] = vp_t[i] && __CPROVER_same_object(vp_t[i], src)                   \
        && __CPROVER_POINTER_OFFSET(vp_t[i]) >= __CPROVER_POINTER_OFFSET(src) \
        && __CPROVER_POINTER_OFFSET(vp_t[i]) - __CPROVER_POINTER_OFFSET(src) < n; \
    off[i] = in[i] ? __CPROVER_POINTER_OFFSET(vp_t[i])                       \
        - __CPROVER_POINTER_OFFSET(src) : 0;                                 \
    v[i] = in[i] ? ((const uint8_t *)src)[off[i]] : 0;
#define VP_T_AFTER(i) \
    if (in[i]) {                                                             \
        __CPROVER_assume(((uint8_t *)dst)[off[i]] == v[i]);                  \
        vp_t[i] = (uint8_t *)dst + off[i];                                   \
    }
    VP_T_BEFORE(0)
# if VP_NT > 1
    VP_T_BEFORE(1)
# endif
    __CPROVER_havoc_slice(dst, n);
    VP_T_AFTER(0)
# if VP_NT > 1
    VP_T_AFTER(1)
# endif
    return dst;
}
/* the index looked at after a memset */
static size_t vp_msi;
static inline void *vp_memset(void *dst, int c, size_t n)
{
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(dst, n), "memset destination");
    if (n == 0) {
        return dst;
    }
    __CPROVER_havoc_slice(dst, n);
    if (vp_msi < n) {
        __CPROVER_assume(((uint8_t *)dst)[vp_msi] == (uint8_t)c);
    }
    return dst;
}
static inline void *vp_mempcpy(void *dst, const void *src, size_t n)
{
    return (char *)vp_memmove(dst, src, n) + n;
}
# define memcpy(d, s, n)   vp_memmove(d, s, n)
# define memmove(d, s, n)  vp_memmove(d, s, n)
# define mempcpy(d, s, n)  vp_mempcpy(d, s, n)
# ifdef VP_TRACK_MEMSET
#  define memset(d, c, n)  vp_memset(d, c, n)
# endif
# define VP_TRACK_MSI(i)   (vp_msi = (i))
# define VP_TRACK(i, p)    (vp_t[i] = (const uint8_t *)(p))
#else
# define VP_TRACK(i, p)    ((void)0)
# define VP_TRACK_MSI(i)   ((void)0)
#endif
#endif
