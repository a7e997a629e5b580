/* Binary search, sorting and duplicate removal. */
//@trusted libc memcpy/memset
//@trusted the t_ stack is replaced by the allocator model units/vp_mem.h
//@link src/core/bithacks.c
//@blk
#define VP_WANT_STUBS
#include "vp.h"
#include "vp_mem.h"
#include <lib-common/core.h>
#undef t_scope
#define t_scope
#undef t_new_raw
#define t_new_raw(type, n)  p_new_raw(type, n)
static size_t g_n, g_p1, g_p2;
#include <lib-common/sort.h>
#include "src/core/sort.blk"

#define PN  65536

/* {{{ bisectN: for every length and contents the position is exact: the value
 * is there, or its neighbours are smaller and greater (in a sorted array: it
 * is nowhere, and this is where to insert it) */

//@loop bisect8 0
//  __CPROVER_assigns(l, r, *found)
//  __CPROVER_loop_invariant(l <= r && r <= len)
//  __CPROVER_loop_invariant(l == 0 || data[l - 1] < what)
//  __CPROVER_loop_invariant(r == len || data[r] > what)
//  __CPROVER_decreases(r - l)
//@end
//@loop bisect_i8 0
//  __CPROVER_assigns(l, r, *found)
//  __CPROVER_loop_invariant(l <= r && r <= len)
//  __CPROVER_loop_invariant(l == 0 || data[l - 1] < what)
//  __CPROVER_loop_invariant(r == len || data[r] > what)
//  __CPROVER_decreases(r - l)
//@end
//@loop bisect16 0
//  __CPROVER_assigns(l, r, *found)
//  __CPROVER_loop_invariant(l <= r && r <= len)
//  __CPROVER_loop_invariant(l == 0 || data[l - 1] < what)
//  __CPROVER_loop_invariant(r == len || data[r] > what)
//  __CPROVER_decreases(r - l)
//@end
//@loop bisect_i16 0
//  __CPROVER_assigns(l, r, *found)
//  __CPROVER_loop_invariant(l <= r && r <= len)
//  __CPROVER_loop_invariant(l == 0 || data[l - 1] < what)
//  __CPROVER_loop_invariant(r == len || data[r] > what)
//  __CPROVER_decreases(r - l)
//@end
//@loop bisect32 0
//  __CPROVER_assigns(l, r, *found)
//  __CPROVER_loop_invariant(l <= r && r <= len)
//  __CPROVER_loop_invariant(l == 0 || data[l - 1] < what)
//  __CPROVER_loop_invariant(r == len || data[r] > what)
//  __CPROVER_decreases(r - l)
//@end
//@loop bisect_i32 0
//  __CPROVER_assigns(l, r, *found)
//  __CPROVER_loop_invariant(l <= r && r <= len)
//  __CPROVER_loop_invariant(l == 0 || data[l - 1] < what)
//  __CPROVER_loop_invariant(r == len || data[r] > what)
//  __CPROVER_decreases(r - l)
//@end
//@loop bisect64 0
//  __CPROVER_assigns(l, r, *found)
//  __CPROVER_loop_invariant(l <= r && r <= len)
//  __CPROVER_loop_invariant(l == 0 || data[l - 1] < what)
//  __CPROVER_loop_invariant(r == len || data[r] > what)
//  __CPROVER_decreases(r - l)
//@end
//@loop bisect_i64 0
//  __CPROVER_assigns(l, r, *found)
//  __CPROVER_loop_invariant(l <= r && r <= len)
//  __CPROVER_loop_invariant(l == 0 || data[l - 1] < what)
//  __CPROVER_loop_invariant(r == len || data[r] > what)
//  __CPROVER_decreases(r - l)
//@end
//@harness h_bisect8 prop=C09 loops=yes bmc_unwind=8 about=bisect8
//@harness h_bisect_i8 prop=C09 loops=yes bmc_unwind=8 about=bisect_i8
//@harness h_bisect16 prop=C09 loops=yes bmc_unwind=8 about=bisect16
//@harness h_bisect_i16 prop=C09 loops=yes bmc_unwind=8 about=bisect_i16
//@harness h_bisect32 prop=C09 loops=yes bmc_unwind=8 about=bisect32
//@harness h_bisect_i32 prop=C09 loops=yes bmc_unwind=8 about=bisect_i32
//@harness h_bisect64 prop=C09 loops=yes bmc_unwind=8 about=bisect64
//@harness h_bisect_i64 prop=C09 loops=yes bmc_unwind=8 about=bisect_i64
#define BISECT(sfx, type_t) \
VP_MAIN(h_bisect##sfx)                                                       \
{                                                                            \
    type_t *d, what = vp_u64();                                              \
    bool found;                                                              \
    size_t r;                                                                \
                                                                             \
    g_n = VP_LEN(PN, 5);                                                     \
    d = (type_t *)vp_buf(g_n * sizeof(*d), 5 * sizeof(*d));                  \
    r = bisect##sfx(what, d, g_n, &found);                                   \
    VP_CHECK("in range", r <= g_n);                                          \
    if (found) {                                                             \
        VP_CHECK("found it", r < g_n && d[r] == what);                       \
    } else {                                                                 \
        VP_CHECK("smaller before", r == 0 || d[r - 1] < what);               \
        VP_CHECK("greater after", r == g_n || d[r] > what);                  \
    }                                                                        \
    VP_REACH();                                                              \
}
BISECT(8, uint8_t)
BISECT(_i8, int8_t)
BISECT(16, uint16_t)
BISECT(_i16, int16_t)
BISECT(32, uint32_t)
BISECT(_i32, int32_t)
BISECT(64, uint64_t)
BISECT(_i64, int64_t)
/* }}} */
/* {{{ bisect, contains: any sorted array, as seen through its comparator: the
 * elements before g_p1 are smaller, those before g_p2 equal, the others
 * greater */

#define SZ  4
static uint8_t *g_d;
static uint8_t g_what;
static int cmp_any(const void *a, const void *b, void *arg)
{
    size_t i = ((const uint8_t *)b - g_d) / SZ;

    VP_CHECK("compares with the value", a == &g_what && arg == &g_p1);
    VP_CHECK("compares an element", i < g_n
             && ((const uint8_t *)b - g_d) % SZ == 0);
    return i < g_p1 ? INT_MAX : i < g_p2 ? 0 : INT_MIN;
}
static void mk_any(void)
{
    g_n = VP_LEN(PN, 40);
    g_d = vp_alloc(g_n * SZ);
    g_p2 = vp_range(0, g_n);
    g_p1 = vp_range(0, g_p2);
}
//@loop bisect 0
//  __CPROVER_assigns(l, r, *found)
//  __CPROVER_loop_invariant(l <= r && r <= nmemb)
//  __CPROVER_loop_invariant(l <= g_p1 && r >= g_p2)
//  __CPROVER_decreases(r - l)
//@end
//@harness h_bisect prop=C09 loops=yes about=bisect
VP_MAIN(h_bisect)
{
    bool found;
    size_t r;

    mk_any();
    r = bisect(&g_what, g_d, SZ, g_n, &found, &cmp_any, &g_p1);
    VP_CHECK("found iff it is there", found == (g_p1 < g_p2));
    VP_CHECK("one that is equal, or where to insert", found
             ? r >= g_p1 && r < g_p2 : r == g_p1);
    VP_REACH();
}
//@loop contains 0
//  __CPROVER_assigns(l, r)
//  __CPROVER_loop_invariant(l <= r && r <= nmemb)
//  __CPROVER_loop_invariant(l <= g_p1 && r >= g_p2)
//  __CPROVER_decreases(r - l)
//@end
//@harness h_contains prop=C09 loops=yes about=contains
VP_MAIN(h_contains)
{
    mk_any();
    VP_CHECK("true iff it is there",
             contains(&g_what, g_d, SZ, g_n, &cmp_any, &g_p1)
             == (g_p1 < g_p2));
    VP_REACH();
}
/* }}} */
/* {{{ dsort, uniq, contains on drawn arrays */
//@harness h_dsort8 prop=C09 kind=bounded bmc=no search=1 bound="300 elements" about=dsort8,uniq8,contains8,bisect8
//@harness h_dsort_i8 prop=C09 kind=bounded bmc=no search=1 bound="300 elements" about=dsort_i8,uniq_i8,contains_i8,bisect_i8
//@harness h_dsort16 prop=C09 kind=bounded bmc=no search=1 bound="300 elements" about=dsort16,uniq16,contains16,bisect16
//@harness h_dsort_i16 prop=C09 kind=bounded bmc=no search=1 bound="300 elements" about=dsort_i16,uniq_i16,contains_i16,bisect_i16
//@harness h_dsort32 prop=C09 kind=bounded bmc=no search=1 bound="300 elements" about=dsort32,uniq32,contains32,bisect32
//@harness h_dsort_i32 prop=C09 kind=bounded bmc=no search=1 bound="300 elements" about=dsort_i32,uniq_i32,contains_i32,bisect_i32
//@harness h_dsort64 prop=C09 kind=bounded bmc=no search=1 bound="300 elements" about=dsort64,uniq64,contains64,bisect64
//@harness h_dsort_i64 prop=C09 kind=bounded bmc=no search=1 bound="300 elements" about=dsort_i64,uniq_i64,contains_i64,bisect_i64
#ifdef VP_NATIVE
bool mem_pool_is_enabled(void) { return true; }
#endif
#define DSORT(sfx, type_t) \
static int qcmp##sfx(const void *a, const void *b)                           \
{                                                                            \
    type_t x = *(type_t *)a, y = *(type_t *)b;                               \
                                                                             \
    return x < y ? -1 : x > y;                                               \
}                                                                            \
VP_MAIN(h_dsort##sfx)                                                        \
{                                                                            \
    size_t n = vp_bool() ? vp_range(0, 6) : vp_range(0, 300), m, w;          \
    type_t *d, *e, x;                                                        \
    uint64_t mask = vp_bool() ? 3 : vp_bool() ? 0xff : UINT64_MAX;           \
    bool found, in;                                                          \
    int sh = vp_bool() ? 0 : vp_range(0, sizeof(type_t) * 8 - 1);            \
    uint64_t xr = vp_bool() ? 0 : vp_u64();                                  \
                                                                             \
    d = vp_alloc(n * sizeof(*d));                                            \
    e = vp_alloc(n * sizeof(*d));                                            \
    for (size_t i = 0; i < n; i++) {                                         \
        d[i] = e[i] = ((vp_u64() & mask) << sh) ^ xr;                        \
    }                                                                        \
    if (vp_range(0, 3) == 0) {                                               \
        qsort(d, n, sizeof(*d), qcmp##sfx);                                  \
    }                                                                        \
    qsort(e, n, sizeof(*e), qcmp##sfx);                                      \
    dsort##sfx(d, n);                                                        \
    VP_CHECK("sorted", !n || !memcmp(d, e, n * sizeof(*d)));                 \
    m = uniq##sfx(d, n);                                                     \
    w = 0;                                                                   \
    for (size_t i = 0; i < n; i++) {                                         \
        if (!w || e[w - 1] != e[i]) {                                        \
            e[w++] = e[i];                                                   \
        }                                                                    \
    }                                                                        \
    VP_CHECK("unique", m == w);                                              \
    VP_CHECK("unique and sorted", !m || !memcmp(d, e, m * sizeof(*d)));      \
    x = vp_bool() && m ? d[vp_range(0, m - 1)] : ((vp_u64() & mask) << sh) ^ xr; \
    in = false;                                                              \
    for (size_t i = 0; i < m; i++) {                                         \
        in |= e[i] == x;                                                     \
    }                                                                        \
    VP_CHECK("contains", contains##sfx(x, d, m) == in);                      \
    w = bisect##sfx(x, d, m, &found);                                        \
    VP_CHECK("found", found == in);                                          \
    VP_CHECK("position", w <= m && (w == m || e[w] >= x)                     \
             && (w == 0 || e[w - 1] < x));                                   \
    VP_CHECK("position alone", bisect##sfx(x, d, m, NULL) == w);             \
    free(d);                                                                 \
    free(e);                                                                 \
}
DSORT(8, uint8_t)
DSORT(_i8, int8_t)
DSORT(16, uint16_t)
DSORT(_i16, int16_t)
DSORT(32, uint32_t)
DSORT(_i32, int32_t)
DSORT(64, uint64_t)
DSORT(_i64, int64_t)
//@harness h_uniq prop=C09 kind=bounded bmc=no search=3 bound="24 elements of 12 bytes" about=uniq,uniq_blk,bisect_blk,contains_blk
#ifdef VP_NATIVE
typedef struct { uint32_t v, id, pad; } e12_t;
static int g_del[64];
static int cmp_e12(const void *a, const void *b, void *arg)
{
    VP_CHECK("the argument is passed on", arg == g_del);
    return CMP(((e12_t *)a)->v, ((e12_t *)b)->v);
}
static void del_e12(void *a, void *arg)
{
    VP_CHECK("the argument is passed on", arg == &g_del[1]);
    VP_CHECK("deletes an element", ((e12_t *)a)->id < 64);
    g_del[((e12_t *)a)->id]++;
}
#endif
VP_MAIN(h_uniq)
{
#ifdef VP_NATIVE
    size_t n = vp_range(0, 24), m, w = 0;
    e12_t *d = vp_alloc(n * sizeof(*d)), x;
    uint32_t v = 0, vals[24], ids[24];
    bool del = vp_bool(), blk = vp_bool(), found;
    size_t pos;

    memset(g_del, 0, sizeof(g_del));
    for (size_t i = 0; i < n; i++) {
        if (vp_bool()) {
            v += vp_range(1, 2);
        }
        d[i].v = v;
        d[i].id = i;
        d[i].pad = ~v;
        if (!w || vals[w - 1] != v) {
            ids[w] = i;
            vals[w++] = v;
        }
    }
    if (blk) {
        m = uniq_blk(d, sizeof(*d), n, ^int (const void *a, const void *b) {
            return cmp_e12(a, b, g_del);
        }, del ? ^void (void *a) { del_e12(a, &g_del[1]); } : NULL);
    } else {
        m = uniq(d, sizeof(*d), n, &cmp_e12, g_del, del ? &del_e12 : NULL,
                 &g_del[1]);
    }
    VP_CHECK("the distinct ones", m == w);
    for (size_t i = 0; i < m; i++) {
        VP_CHECK("in their order", d[i].v == vals[i] && d[i].pad == ~vals[i]);
    }
    if (del) {
        int kept = 0;
        for (size_t i = 0; i < m; i++) {
            VP_CHECK("the kept ones are not deleted", !g_del[d[i].id]);
        }
        for (size_t i = 0; i < n; i++) {
            VP_CHECK("deleted at most once", g_del[i] <= 1);
            kept += !g_del[i];
        }
        VP_CHECK("all the others are deleted", kept == m);
    }
    x.v = vp_range(0, v + 1);
    pos = 0;
    while (pos < m && d[pos].v < x.v) {
        pos++;
    }
    w = bisect_blk(&x, d, sizeof(*d), m, &found,
                   ^int (const void *a, const void *b) {
        return cmp_e12(a, b, g_del);
    });
    VP_CHECK("bisect", w == pos && found == (pos < m && d[pos].v == x.v));
    VP_CHECK("contains", contains_blk(&x, d, sizeof(*d), m,
                   ^int (const void *a, const void *b) {
        return cmp_e12(a, b, g_del);
    }) == found);
    free(d);
#endif
}
/* }}} */
