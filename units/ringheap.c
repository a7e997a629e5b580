/* Rings as double-ended sequences, heaps as priority queues. */
//@trusted allocator model units/vp_mem.h
//@trusted memcpy/memmove in the ghost-byte style of units/vp_track.h
//@link src/container/qvector.blk src/core/sort.blk
#define VP_WANT_STUBS
#include "vp.h"
#define VP_NT 1
#include "vp_track.h"
/* ring_unshift announces an old size that counts the new element */
#define VP_MEM_CLAMP
#include "vp_mem.h"
#include <lib-common/core.h>
#include <lib-common/container-ring.h>
#include <lib-common/container-qheap.h>
#include "src/container/ring.c"

#ifndef PN
# define PN  4000
#endif
#define BN  9
typedef uint8_t elt_t;
DO_RING(elt_t, e, IGNORE);

/* {{{ ring: element i is tab[(first + i) % size] */

static e_ring g_r;
static int g_len, g_k;
static elt_t g_old;
static bool r_inv(const e_ring *r)
{
    return r->len >= 0 && r->len <= r->size && r->first >= 0
        && (r->first < r->size || (r->size == 0 && r->first == 0));
}
static int at(int i)
{
    int p = g_r.first + i;

    return p >= g_r.size ? p - g_r.size : p;
}
static void mk(void)
{
    vp_mem_init();
    p_clear(&g_r, 1);
    g_len = 0;
    g_k = 0;
    if (vp_bool()) {
        return;
    }
    g_r.size = 1 + VP_LEN(PN, BN);
    g_r.first = vp_range(0, g_r.size - 1);
    g_len = g_r.len = vp_range(0, g_r.size);
    g_r.tab = vp_buf(g_r.size * sizeof(elt_t), (BN + 1) * sizeof(elt_t));
    if (g_len) {
        g_k = vp_range(0, g_len - 1);
        g_old = g_r.tab[at(g_k)];
        VP_TRACK(0, &g_r.tab[at(g_k)]);
    }
}
#define KEPT(i)  (g_k >= g_len || g_r.tab[at(i)] == g_old)
//@harness h_ring_push prop=C11 solver=cadical about=ring_push,generic_ring_ensure
VP_MAIN(h_ring_push)
{
    elt_t e = vp_u64();

    mk();
    e_ring_push(&g_r, e);
    VP_CHECK("well formed", r_inv(&g_r));
    VP_CHECK("length", g_r.len == g_len + 1);
    VP_CHECK("added last", e_ring_get(&g_r, g_len) == e
             && *e_ring_get_last_ptr(&g_r) == e);
    VP_CHECK("keeps the others", KEPT(g_k));
    VP_REACH();
}
//@harness h_ring_unshift prop=C11 solver=cadical about=ring_unshift,generic_ring_ensure
VP_MAIN(h_ring_unshift)
{
    elt_t e = vp_u64();

    mk();
    e_ring_unshift(&g_r, e);
    VP_CHECK("well formed", r_inv(&g_r));
    VP_CHECK("length", g_r.len == g_len + 1);
    VP_CHECK("added first", e_ring_get(&g_r, 0) == e
             && *e_ring_get_first_ptr(&g_r) == e);
    VP_CHECK("keeps the others", KEPT(g_k + 1));
    VP_REACH();
}
//@harness h_ring_ensure prop=C11 solver=cadical timeout=200 about=generic_ring_ensure
VP_MAIN(h_ring_ensure)
{
    int n = VP_LEN(PN, BN);

    mk();
    /* as its callers: only to add to a full ring */
    VP_ASSUME(n <= g_r.size || g_len == g_r.size);
    generic_ring_ensure((void *)&g_r, n, sizeof(elt_t));
    VP_CHECK("room", g_r.size >= n);
    VP_CHECK("length", g_r.len == g_len);
    VP_CHECK("keeps the elements", KEPT(g_k));
    VP_REACH();
}
//@harness h_ring_take prop=C11 solver=cadical about=ring_shift,ring_pop,ring_skip,ring_get,ring_get_ptr,ring_get_first_ptr
VP_MAIN(h_ring_take)
{
    elt_t e = 0, first = 0, last = 0;
    int n;

    mk();
    if (g_len) {
        first = g_r.tab[at(0)];
        last = g_r.tab[at(g_len - 1)];
    }
    switch (vp_range(0, 2)) {
      case 0:
        if (e_ring_shift(&g_r, &e)) {
            VP_CHECK("the first one", g_len && e == first);
            VP_CHECK("one less", g_r.len == g_len - 1);
            VP_CHECK("keeps the others", g_k == 0 || KEPT(g_k - 1));
        } else {
            VP_CHECK("fails iff empty", g_len == 0 && g_r.len == 0);
        }
        break;
      case 1:
        if (e_ring_pop(&g_r, &e)) {
            VP_CHECK("the last one", g_len && e == last);
            VP_CHECK("one less", g_r.len == g_len - 1);
            VP_CHECK("keeps the others", g_k == g_len - 1 || KEPT(g_k));
        } else {
            VP_CHECK("fails iff empty", g_len == 0 && g_r.len == 0);
        }
        break;
      case 2:
        n = (int)vp_u64();
        if (e_ring_skip(&g_r, n)) {
            VP_CHECK("enough elements", n >= 0 && n <= g_len);
            VP_CHECK("skipped", g_r.len == g_len - n);
            VP_CHECK("keeps the others", g_k < n || KEPT(g_k - n));
        } else {
            VP_CHECK("fails iff they are not there", n < 0 || n > g_len);
            VP_CHECK("unchanged", g_r.len == g_len && KEPT(g_k));
        }
        break;
    }
    VP_CHECK("well formed", r_inv(&g_r));
    VP_CHECK("first pointer", (e_ring_get_first_ptr(&g_r) == NULL) == !g_r.len);
    VP_REACH();
}
/* }}} */
/* {{{ histories (drawn) */

#ifdef VP_NATIVE
static int m_e[512], m_n;
static bool odd(int *e) { return *e & 1; }
static int g_sum;
static void sum(int *e) { g_sum = g_sum * 31 + *e; }
DO_RING(int, i, IGNORE);
#endif
//@harness h_ring_history prop=C11 kind=bounded bmc=no search=3 bound="60 operations" about=ring_push,ring_unshift,ring_shift,ring_pop,ring_skip,RING_FILTER,RING_MAP,ring_for_each_ptr,ring_for_each_entry
VP_MAIN(h_ring_history)
{
#ifdef VP_NATIVE
    i_ring r;
    int bias = vp_range(0, 4), w, x, k, s;
    int nops = vp_range(1, 60);

    i_ring_init(&r);
    m_n = 0;
    for (int op = 0; op < nops; op++) {
        int v = vp_range(0, 1000);

        switch (vp_range(0, 7 + bias)) {
          case 0:
            if (i_ring_shift(&r, &x)) {
                VP_CHECK("shift", m_n && x == m_e[0]);
                memmove(m_e, m_e + 1, --m_n * sizeof(int));
            } else {
                VP_CHECK("empty", !m_n);
            }
            break;
          case 1:
            if (i_ring_pop(&r, &x)) {
                VP_CHECK("pop", m_n && x == m_e[m_n - 1]);
                m_n--;
            } else {
                VP_CHECK("empty", !m_n);
            }
            break;
          case 2:
            k = vp_range(0, m_n + 1);
            if (i_ring_skip(&r, k)) {
                VP_CHECK("skip", k <= m_n);
                m_n -= k;
                memmove(m_e, m_e + k, m_n * sizeof(int));
            } else {
                VP_CHECK("skip fails", k > m_n);
            }
            break;
          case 3:
            RING_FILTER(&r, odd);
            w = 0;
            for (int i = 0; i < m_n; i++) {
                if (m_e[i] & 1) {
                    m_e[w++] = m_e[i];
                }
            }
            m_n = w;
            break;
          case 4: case 5:
            i_ring_unshift(&r, v);
            memmove(m_e + 1, m_e, m_n++ * sizeof(int));
            m_e[0] = v;
            break;
          default:
            for (int i = 0; i < (bias > 2 ? 8 : 1); i++) {
                i_ring_push(&r, v & ~1);
                m_e[m_n++] = v & ~1;
            }
            break;
        }
        VP_CHECK("length", r.len == m_n && r.len <= r.size);
        for (int i = 0; i < m_n; i++) {
            VP_CHECK("elements", i_ring_get(&r, i) == m_e[i]
                     && *i_ring_get_ptr(&r, i) == m_e[i]);
        }
        k = 0;
        ring_for_each_ptr(i, p, &r) {
            VP_CHECK("for each pointer", k < m_n && *p == m_e[k]);
            k++;
        }
        VP_CHECK("for each pointer: all", k == m_n);
        k = 0;
        ring_for_each_entry(i, v2, &r) {
            VP_CHECK("for each entry", k < m_n && v2 == m_e[k]);
            k++;
        }
        VP_CHECK("for each entry: all", k == m_n);
        g_sum = s = 0;
        RING_MAP(&r, sum);
        for (int i = 0; i < m_n; i++) {
            s = s * 31 + m_e[i];
        }
        VP_CHECK("map", s == g_sum);
    }
    i_ring_wipe(&r);
#endif
}
/* }}} */
/* {{{ heaps (drawn) */
#ifdef VP_NATIVE
bool mem_pool_is_enabled(void) { return true; }
int is_rand(void) { return vp_u32() & INT_MAX; }
typedef struct hn_t { int pos, val; } hn_t;
# define HCMP(a, op, b)     ((a)->val op (b)->val)
# define HSET(node, p)      ((node)->pos = (p))
qhp_min_t(vmin, hn_t *, HCMP, HSET);
qhp_max_t(vmax, hn_t *, HCMP, HSET);
#endif
//@harness h_heap_history prop=C11 kind=bounded bmc=no search=3 bound="60 operations, 40 nodes" about=qhp_insert,qhp_remove,qhp_take_first,qhp_fixup,__qhp_up,__qhp_down
#define HEAP(nm, better) \
static void heap_##nm(void)                                                  \
{                                                                            \
    qhp_t(nm) h;                                                             \
    hn_t node[40];                                                           \
    int n = 0, nops = vp_range(1, 60), span = vp_bool() ? 5 : 1000;          \
                                                                             \
    qhp_init(nm, &h);                                                        \
    for (int i = 0; i < 40; i++) {                                           \
        node[i].pos = -1;                                                    \
    }                                                                        \
    for (int op = 0; op < nops; op++) {                                      \
        int i = vp_range(0, 39), r;                                          \
                                                                             \
        switch (vp_range(0, 5)) {                                            \
          case 0: case 1: case 2:                                            \
            if (node[i].pos < 0) {                                           \
                node[i].val = vp_range(0, span);                             \
                r = qhp_insert(nm, &h, &node[i]);                            \
                VP_CHECK("position of the new node", r == node[i].pos);      \
                n++;                                                         \
            } else {                                                         \
                node[i].val = vp_range(0, span);                             \
                r = qhp_fixup(nm, &h, node[i].pos);                          \
                VP_CHECK("position of the fixed node", r == node[i].pos);    \
            }                                                                \
            break;                                                           \
          case 3:                                                            \
            if (node[i].pos >= 0) {                                          \
                VP_CHECK("removes it",                                       \
                         qhp_remove(nm, &h, node[i].pos) == &node[i]);       \
                VP_CHECK("not in the heap", node[i].pos == -1);              \
                n--;                                                         \
            }                                                                \
            break;                                                           \
          default:                                                           \
            if (n) {                                                         \
                hn_t *f = qhp_take_first(nm, &h);                            \
                                                                             \
                VP_CHECK("not in the heap", f->pos == -1);                   \
                for (int j = 0; j < 40; j++) {                               \
                    VP_CHECK("the first one", node[j].pos < 0                \
                             || !(node[j].val better f->val));               \
                }                                                            \
                n--;                                                         \
            }                                                                \
            break;                                                           \
        }                                                                    \
        VP_CHECK("number of nodes", qhp_len(nm, &h) == n                     \
                 && qhp_is_empty(nm, &h) == !n);                             \
        for (int j = 0; j < 40; j++) {                                       \
            VP_CHECK("position of the nodes", node[j].pos < 0                \
                     || (node[j].pos < n && h.tab[node[j].pos] == &node[j])); \
            VP_CHECK("the first is the best", node[j].pos < 0                \
                     || !(node[j].val better qhp_first(nm, &h)->val));       \
        }                                                                    \
    }                                                                        \
    qhp_wipe(nm, &h);                                                        \
}
#ifdef VP_NATIVE
HEAP(vmin, <)
HEAP(vmax, >)
#endif
VP_MAIN(h_heap_history)
{
#ifdef VP_NATIVE
    qhp_t(i64_max) q;
    qhp_t(double_min) d;
    int64_t last = INT64_MAX;
    double dl = -1;
    int n = vp_range(0, 50);

    if (vp_bool()) {
        heap_vmin();
    } else {
        heap_vmax();
    }
    qhp_init(i64_max, &q);
    qhp_init(double_min, &d);
    for (int i = 0; i < n; i++) {
        int64_t v = vp_u64();

        qhp_insert(i64_max, &q, v);
        qhp_insert(double_min, &d, (double)(uint64_t)v);
    }
    for (int i = 0; i < n; i++) {
        int64_t v = qhp_take_first(i64_max, &q);
        double x = qhp_take_first(double_min, &d);

        VP_CHECK("decreasing", v <= last);
        VP_CHECK("increasing", x >= dl);
        last = v;
        dl = x;
    }
    qhp_wipe(i64_max, &q);
    qhp_wipe(double_min, &d);
#endif
}
/* }}} */
