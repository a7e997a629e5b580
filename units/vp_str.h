/* Assumed contracts of memchr/memrchr/memcmp/memmem for the proofs, in the
 * ghost-index style: what they say of "every index" is said of vp_gi only (an
 * arbitrary index fixed by the harness).  Weaker than the real functions.  The
 * bounded and native builds use the real functions. */
#ifndef VP_STR_H
#define VP_STR_H
static size_t vp_gi;
#ifdef VP_PROOF
# define VP_GI(i)  (vp_gi = (i))
static inline void *vp_memchr(const void *s, int c, size_t n)
{
    size_t off = nondet_vp_u64();
    const uint8_t *b = s;

    __CPROVER_assert(n == 0 || __CPROVER_r_ok(s, n), "memchr range");
    if (off < n) {
        __CPROVER_assume(b[off] == (uint8_t)c);
        __CPROVER_assume(vp_gi >= off || b[vp_gi] != (uint8_t)c);
        return (void *)(b + off);
    }
    __CPROVER_assume(vp_gi >= n || b[vp_gi] != (uint8_t)c);
    return NULL;
}
static inline void *vp_memrchr(const void *s, int c, size_t n)
{
    size_t off = nondet_vp_u64();
    const uint8_t *b = s;

    __CPROVER_assert(n == 0 || __CPROVER_r_ok(s, n), "memrchr range");
    if (off < n) {
        __CPROVER_assume(b[off] == (uint8_t)c);
        __CPROVER_assume(vp_gi >= n || vp_gi <= off
                         || b[vp_gi] != (uint8_t)c);
        return (void *)(b + off);
    }
    __CPROVER_assume(vp_gi >= n || b[vp_gi] != (uint8_t)c);
    return NULL;
}
/* vp_cmpi: the first difference, when there is one */
static size_t vp_cmpi;
static inline int vp_memcmp(const void *s1, const void *s2, size_t n)
{
    size_t off = nondet_vp_u64();
    const uint8_t *a = s1, *b = s2;
    int r = (int)nondet_vp_u64();

    __CPROVER_assert(n == 0 || __CPROVER_r_ok(s1, n), "memcmp range");
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(s2, n), "memcmp range");
    vp_cmpi = n;
    if (off < n) {
        __CPROVER_assume(a[off] != b[off]);
        __CPROVER_assume(vp_gi >= off || a[vp_gi] == b[vp_gi]);
        __CPROVER_assume(a[off] < b[off] ? r < 0 : r > 0);
        vp_cmpi = off;
        return r;
    }
    __CPROVER_assume(vp_gi >= n || a[vp_gi] == b[vp_gi]);
    return 0;
}
/* vp_mmi: at vp_gi (before the result), the byte of the needle that differs */
static size_t vp_mmi;
static inline void *vp_memmem(const void *h, size_t hn, const void *s,
                              size_t n)
{
    size_t off = nondet_vp_u64();
    const uint8_t *a = h, *b = s;

    __CPROVER_assert(hn == 0 || __CPROVER_r_ok(h, hn), "memmem range");
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(s, n), "memmem range");
    vp_mmi = nondet_vp_u64();
    if (n <= hn && off <= hn - n) {
        /* found at off; byte vp_gi of it matches */
        __CPROVER_assume(vp_gi >= n || a[off + vp_gi] == b[vp_gi]);
        __CPROVER_assume(vp_gi >= off
                         || (vp_mmi < n && a[vp_gi + vp_mmi] != b[vp_mmi]));
        return (void *)(a + off);
    }
    __CPROVER_assume(n > hn || vp_gi > hn - n
                     || (vp_mmi < n && a[vp_gi + vp_mmi] != b[vp_mmi]));
    return NULL;
}
# define memchr(s, c, n)      vp_memchr(s, c, n)
# define memrchr(s, c, n)     vp_memrchr(s, c, n)
# define memcmp(a, b, n)      vp_memcmp(a, b, n)
# define memmem(h, m, s, n)   vp_memmem(h, m, s, n)
#else
# define VP_GI(i)  ((void)(i))
static size_t vp_cmpi, vp_mmi;
#endif
#endif
