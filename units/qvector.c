/* qvector_t against the sequence model: len elements of v_size bytes in a
 * block of size elements. */
//@trusted allocator model units/vp_mem.h (its entry points are under contract in unit mem)
//@trusted memcpy/memmove in the ghost-byte style of units/vp_track.h
//@link src/core/sort.blk
//@blk
#define VP_WANT_STUBS
#include "vp.h"
#include "vp_track.h"
#include "vp_mem.h"
#include <lib-common/core.h>
#include <lib-common/container-qvector.h>
#include "src/container/qvector.blk"

#ifndef PN
# define PN  20000
#endif
#define BN  30
/* bytes per element; the proofs take one at a time */
#ifndef VS
# define VS  12
#endif

static qvector_t g_v;
static int g_len, g_k;
static uint8_t g_old, *g_blk;

static bool qv_inv(const qvector_t *v)
{
    if (!v->tab) {
        return v->len == 0 && v->size == 0;
    }
    return v->len >= 0 && v->len <= v->size
#ifdef VP_CBMC
        && __CPROVER_POINTER_OFFSET(v->tab) == 0
        && (v->size == 0 || __CPROVER_OBJECT_SIZE(v->tab) >= (size_t)v->size * VS)
#endif
        ;
}
#if defined(VP_PROOF) && defined(SHAPE)
# define ISNULL   (SHAPE == 0)
# define ISLIBC   (SHAPE == 1)
#else
# define ISNULL   vp_bool()
# define ISLIBC   vp_bool()
#endif
static void mk(void)
{
    vp_mem_init();
    p_clear(&g_v, 1);
    g_len = 0;
    g_k = 0;
    if (ISNULL) {
        return;
    }
    g_v.size = 1 + VP_LEN(PN, BN);
    g_len = vp_range(0, g_v.size);
    g_v.len = g_len;
    g_v.tab = g_blk = vp_buf((size_t)g_v.size * VS, BN * VS + VS);
    g_v.mp = ISLIBC ? &mem_pool_libc : &mem_pool_static;
    /* any byte of the elements */
    g_k = vp_range(0, g_len ? g_len * VS - 1 : 0);
    g_old = g_v.tab[g_k];
    VP_TRACK(0, g_v.tab + g_k);
}
#define KEPT(at)  (g_k >= g_len * VS || g_v.tab[at] == g_old)

//@harness h_qv_grow prop=C08 solver=cadical about=qvector_grow,__qvector_grow,qvector_get_grow_info,__qvector_optimize,__qvector_grow_get_new_alloc_size
//@harness h_qv_grow1 prop=C08 solver=cadical defs=VS=1 about=qvector_grow,__qvector_grow
static void do_grow(void)
{
    int extra = VP_LEN(PN, BN);
    uint8_t *r;

    mk();
    r = qvector_grow(&g_v, VS, 1, extra);
    VP_CHECK("well formed", qv_inv(&g_v));
    VP_CHECK("same length", g_v.len == g_len);
    VP_CHECK("room for the extra elements", g_v.size - g_v.len >= extra);
    VP_CHECK("the end", r == g_v.tab + g_len * VS);
    VP_CHECK("keeps the elements", KEPT(g_k));
    VP_REACH();
}
VP_MAIN(h_qv_grow) { do_grow(); }
VP_MAIN(h_qv_grow1) { do_grow(); }

//@harness h_qv_growlen prop=C08 solver=cadical about=qvector_growlen,__qvector_grow
VP_MAIN(h_qv_growlen)
{
    int extra = VP_LEN(PN, BN);
    uint8_t *r;

    mk();
    r = qvector_growlen(&g_v, VS, 1, extra);
    VP_CHECK("well formed", qv_inv(&g_v));
    VP_CHECK("length", g_v.len == g_len + extra);
    VP_CHECK("the new elements", r == g_v.tab + g_len * VS);
    VP_CHECK("keeps the elements", KEPT(g_k));
#ifdef VP_PROOF
    if (extra) {
        VP_CHECK("the new elements are writable",
                 __CPROVER_w_ok(r, (size_t)extra * VS));
    }
#else
    memset(r, 1, extra * VS);
#endif
    VP_REACH();
}
//@harness h_qv_optimize prop=C08 solver=cadical about=qvector_optimize,__qvector_optimize
VP_MAIN(h_qv_optimize)
{
    size_t r1 = vp_range(0, 400), r2 = vp_range(0, 400);

    mk();
    qvector_optimize(&g_v, VS, 1, r1, r2);
    VP_CHECK("well formed", qv_inv(&g_v));
    VP_CHECK("same length", g_v.len == g_len);
    VP_CHECK("keeps the elements", KEPT(g_k));
    VP_CHECK("(0, 0) leaves no waste", r1 || r2 || g_len == 0
             || g_v.mp == &mem_pool_static || g_v.size == g_v.len);
    VP_REACH();
}
//@harness h_qv_alloc_size prop=C08 solver=cadical about=__qvector_grow_get_new_alloc_size
VP_MAIN(h_qv_alloc_size)
{
    int extra = VP_LEN(PN, BN), size;
    uint64_t n;

    mk();
    size = g_v.size;
    n = __qvector_grow_get_new_alloc_size(&g_v, VS, extra);
    __qvector_grow(&g_v, VS, 1, extra);
    VP_CHECK("what a grow allocates", n
             ? (uint64_t)g_v.size * VS == n : g_v.size == size);
    VP_REACH();
}
//@harness h_qv_reset prop=C08 about=qvector_reset,qvector_wipe,__qvector_reset
VP_MAIN(h_qv_reset)
{
    mem_pool_t *mp;
    bool wipe = vp_bool();

    mk();
    mp = g_v.mp;
    if (wipe) {
        qvector_wipe(&g_v, VS);
    } else {
        qvector_reset(&g_v, VS);
    }
    VP_CHECK("well formed", qv_inv(&g_v));
    VP_CHECK("empty", g_v.len == 0);
    VP_CHECK("wiped", !wipe || mp == &mem_pool_static || !g_v.tab);
    VP_CHECK("same pool", g_v.mp == mp);
    qvector_growlen(&g_v, VS, 1, 1);
    VP_CHECK("usable again", qv_inv(&g_v) && g_v.len == 1);
    VP_REACH();
}
/* blocks under BUFSIZ are never shrunk, and the first two cases do not grow:
 * shown by the precondition `false` at the calls */
void __qvector_optimize(qvector_t *vec, size_t v_size, size_t v_align,
                        size_t size) CONTRACT(REQUIRES(false) ASSIGNS());
#ifdef NOGROW
void __qvector_grow(qvector_t *vec, size_t v_size, size_t v_align, int extra)
CONTRACT(REQUIRES(false) ASSIGNS());
#endif
//@harness h_qv_splice_shrink prop=C08 solver=cadical defs=PN=255,SHAPE=1,NOGROW replace=__qvector_optimize,__qvector_grow about=__qvector_splice,qvector_splice
//@harness h_qv_splice_room prop=C08 solver=cadical defs=PN=255,SHAPE=2,NOGROW replace=__qvector_optimize,__qvector_grow about=__qvector_splice,qvector_splice
//@harness h_qv_splice_grow prop=C08 solver=cadical timeout=900 tier=thorough defs=PN=255,SHAPE=1 replace=__qvector_optimize about=__qvector_splice,qvector_splice
#define SPLICE(name, cond) \
VP_MAIN(name)                                                               \
{                                                                           \
    int pos, rm, n, j = 0;                                                  \
    uint8_t *r, *src = NULL, c = 0;                                         \
                                                                            \
    mk();                                                                   \
    pos = vp_range(0, g_len);                                               \
    rm = vp_range(0, g_len - pos);                                          \
    n = VP_LEN(PN, BN);                                                     \
    if (vp_bool()) {                                                        \
        src = vp_buf((size_t)n * VS + 1, BN * VS + 1);                      \
        j = vp_range(0, n ? n * VS - 1 : 0);                                \
        c = src[j];                                                         \
        VP_TRACK(1, src + j);                                               \
    }                                                                       \
    VP_ASSUME(cond);                                                        \
    VP_ASSUME(g_k < pos * VS || g_k >= (pos + rm) * VS);                    \
    r = qvector_splice(&g_v, VS, 1, pos, rm, src, n);                       \
    VP_CHECK("well formed", qv_inv(&g_v));                                  \
    VP_CHECK("length", g_v.len == g_len - rm + n);                          \
    VP_CHECK("the position", r == g_v.tab + pos * VS);                      \
    VP_CHECK("keeps the elements before", g_k >= pos * VS || KEPT(g_k));    \
    VP_CHECK("keeps the elements after", g_k < (pos + rm) * VS              \
             || KEPT(g_k + (n - rm) * VS));                                 \
    VP_CHECK("inserts the values", !src || !n || g_v.tab[pos * VS + j] == c);\
    VP_REACH();                                                             \
}
SPLICE(h_qv_splice_shrink, rm >= n)
SPLICE(h_qv_splice_room, rm < n && g_len - rm + n < g_v.size)
SPLICE(h_qv_splice_grow, rm < n)

#ifdef VP_NATIVE
bool mem_pool_is_enabled(void) { return true; }
int is_rand(void) { return vp_u32() & INT_MAX; }
time_t lp_getsec(void) { return 0; }
#endif
/* {{{ histories and block-based functions (drawn inputs) */

#ifdef VP_NATIVE
#define HN 40
static uint32_t g_m[4096];
static int g_mn;
static void same(qv_t(u32) *v)
{
    VP_CHECK("length", v->len == g_mn && v->len <= v->size);
    VP_CHECK("elements", !g_mn || !memcmp(v->tab, g_m, g_mn * 4));
}
static void m_splice(int pos, int rm, const uint32_t *src, int n)
{
    memmove(g_m + pos + n, g_m + pos + rm, (g_mn - pos - rm) * 4);
    memcpy(g_m + pos, src, n * 4);
    g_mn += n - rm;
}
#endif
//@harness h_qv_history prop=C08 kind=bounded bmc=no search=4 bound="histories of 40 operations on up to 4096 elements" about=qv_append,qv_insert,qv_push,qv_pop,qv_remove,qv_remove_last,qv_skip,qv_clip,qv_shrink,qv_extend,qv_copy,qv_splice,qv_growlen0,qv_clear,qv_optimize
VP_MAIN(h_qv_history)
{
#ifdef VP_NATIVE
    qv_t(u32) v, w;
    uint32_t stk[8], src[300] = { 0 };

    g_mn = 0;
    if (vp_bool()) {
        qv_init(&v);
    } else {
        __qv_init(&v, stk, 0, 8, MEM_STATIC);
    }
    qv_init(&w);
    for (int i = 0; i < HN; i++) {
        uint32_t x = vp_u32();
        int n = vp_bool() ? vp_range(0, 3) : vp_range(0, 90), pos, rm;

        pos = vp_range(0, g_mn);
        rm = vp_range(0, g_mn - pos);
        for (int k = 0; k < n; k++) {
            src[k] = x + k;
        }
        switch (vp_range(0, 14)) {
          case 0: qv_append(&v, x); m_splice(g_mn, 0, &x, 1); break;
          case 1: qv_insert(&v, pos, x); m_splice(pos, 0, &x, 1); break;
          case 2: qv_push(&v, x); m_splice(0, 0, &x, 1); break;
          case 3: if (g_mn) { qv_pop(&v); m_splice(0, 1, 0, 0); } break;
          case 4: if (g_mn > pos) { qv_remove(&v, pos); m_splice(pos, 1, 0, 0); } break;
          case 5: if (g_mn) { qv_remove_last(&v); m_splice(g_mn - 1, 1, 0, 0); } break;
          case 6: qv_skip(&v, rm); m_splice(0, rm, 0, 0); break;
          case 7: qv_clip(&v, pos); g_mn = pos; break;
          case 8: qv_shrink(&v, rm); g_mn -= rm; break;
          case 9: case 10: qv_extend(&v, src, n); m_splice(g_mn, 0, src, n); break;
          case 11: qv_splice(&v, pos, rm, src, n); m_splice(pos, rm, src, n); break;
          case 12:
            qv_growlen0(&v, n);
            memset(src, 0, sizeof(src));
            m_splice(g_mn, 0, src, n);
            break;
          case 13:
            qv_copy(&w, &v);
            same(&w);
            qv_optimize(&v, vp_range(0, 200), vp_range(0, 200));
            break;
          case 14:
            if (vp_range(0, 5) == 0) {
                qv_clear(&v);
                g_mn = 0;
            } else
            if (n) {
                qv_splice(&v, pos, 0, src, 2);
                m_splice(pos, 0, src, 2);
            } else
            if (rm >= 2) {
                qv_splice(&v, pos, 2, src, 1);
                m_splice(pos, 2, src, 1);
            }
            break;
        }
        same(&v);
    }
    qv_wipe(&v);
    qv_wipe(&w);
#endif
}
//@harness h_qv_diff prop=C08 kind=bounded bmc=no search=3 bound="30 elements" about=__qvector_diff,__qvector_deep_extend,__qvector_shuffle
VP_MAIN(h_qv_diff)
{
#ifdef VP_NATIVE
    qv_t(u32) a, b, add, del, inter;
    int n = 0;
    bool in_a[32], in_b[32], wa = vp_bool(), wd = vp_bool(), wi = vp_bool();
    uint32_t x = vp_u32();
    int pre = vp_range(0, 20), ia, id, ii, seen[32];

    qv_init(&a);
    qv_init(&b);
    qv_init(&add);
    qv_init(&del);
    qv_init(&inter);
    for (int i = 0; i < pre; i++) {
        qv_append(&add, x);
        qv_append(&del, x);
        qv_append(&inter, x);
    }
    n = vp_range(0, 32);
    for (int i = 0; i < 32; i++) {
        in_a[i] = vp_bool() && i < n;
        in_b[i] = vp_bool();
        if (in_a[i]) {
            qv_append(&a, i);
        }
        if (in_b[i]) {
            qv_append(&b, i);
        }
    }
    qv_diff(u32)(&a, &b, wa ? &add : NULL, wd ? &del : NULL, wi ? &inter : NULL,
                 ^int (const uint32_t *v1, const uint32_t *v2) {
        return CMP(*v1, *v2);
    });
    ia = id = ii = pre;
    for (int i = 0; i < 32; i++) {
        if (wa && in_b[i] && !in_a[i]) {
            VP_CHECK("added", ia < add.len && add.tab[ia] == i);
            ia++;
        }
        if (wd && in_a[i] && !in_b[i]) {
            VP_CHECK("deleted", id < del.len && del.tab[id] == i);
            id++;
        }
        if (wi && in_a[i] && in_b[i]) {
            VP_CHECK("in both", ii < inter.len && inter.tab[ii] == i);
            ii++;
        }
    }
    VP_CHECK("nothing more", add.len == ia && del.len == id && inter.len == ii);
    for (int i = 0; i < pre; i++) {
        VP_CHECK("earlier elements", add.tab[i] == x && del.tab[i] == x
                 && inter.tab[i] == x);
    }
    n = add.len;
    qv_deep_extend(u32)(&add, &a, ^void (uint32_t *d, const uint32_t *s) {
        *d = *s + 1;
    });
    VP_CHECK("deep extended", add.len == n + a.len);
    for (int i = 0; i < a.len; i++) {
        VP_CHECK("by the copies", add.tab[n + i] == a.tab[i] + 1);
    }
    qv_shuffle(&b);
    p_clear(seen, 32);
    for (int i = 0; i < b.len; i++) {
        VP_CHECK("shuffle keeps the elements", b.tab[i] < 32
                 && in_b[b.tab[i]] && !seen[b.tab[i]]++);
    }
    qv_wipe(&a);
    qv_wipe(&b);
    qv_wipe(&add);
    qv_wipe(&del);
    qv_wipe(&inter);
#endif
}
/* }}} */
