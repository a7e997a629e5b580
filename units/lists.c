/* dlist_t and htlist_t against the sequence model. */
//@trusted small-model argument: a dlist operation touches at most 5 nodes, so
//@trusted its effect on any set of cyclic lists is its effect on those nodes and
//@trusted on one more, arbitrary, node: the proofs take all sets of lists over 6 nodes
#define VP_WANT_STUBS
#include "vp.h"
#include "vp_mem.h"
#include <lib-common/core.h>
#include <lib-common/container-dlist.h>
#include <lib-common/container-htlist.h>

#define N  6
/* {{{ dlist: the nodes g[] form cycles; m_n/m_p are the expected links */

static dlist_t g[N];
static uint8_t m_n[N], m_p[N];

static void mk(void)
{
    for (int i = 0; i < N; i++) {
        m_n[i] = vp_u8() % N;
        m_p[i] = vp_u8() % N;
    }
#ifdef VP_NATIVE
    /* a random permutation */
    for (int i = 0; i < N; i++) {
        m_n[i] = i;
    }
    for (int i = N - 1; i > 0; i--) {
        int j = vp_range(0, i);

        SWAP(uint8_t, m_n[i], m_n[j]);
    }
    for (int i = 0; i < N; i++) {
        m_p[m_n[i]] = i;
    }
#endif
    for (int i = 0; i < N; i++) {
        VP_ASSUME(m_p[m_n[i]] == i && m_n[m_p[i]] == i);
        g[i].next = &g[m_n[i]];
        g[i].prev = &g[m_p[i]];
    }
}
static void same(void)
{
    int k = vp_range(0, N - 1);

    VP_CHECK("next links", g[k].next == &g[m_n[k]]);
    VP_CHECK("prev links", g[k].prev == &g[m_p[k]]);
}
/* model operations */
static void m_link(int a, int b)
{
    m_n[a] = b;
    m_p[b] = a;
}
static void m_remove(int e)
{
    m_link(m_p[e], m_n[e]);
    m_link(e, e);
}
static void m_after(int a, int e)
{
    int b = m_n[a];

    m_link(a, e);
    m_link(e, b);
}
static bool m_same_list(int a, int b)
{
    int i = a;

    for (int n = 0; n < N; n++) {
        if (i == b) {
            return true;
        }
        i = m_n[i];
    }
    return false;
}
static int node(void)
{
    return vp_range(0, N - 1);
}
//@harness h_dl_add prop=C10 unwind=8 about=dlist_add,dlist_add_after,dlist_add_tail,dlist_add_before,__dlist_add,dlist_init
VP_MAIN(h_dl_add)
{
    int l, e;

    mk();
    l = node();
    e = node();
    VP_ASSUME(l != e && m_n[e] == e);
    /* the links of an element that is in no list do not matter */
    if (vp_bool()) {
        g[e].next = g[e].prev = NULL;
    }
    switch (vp_range(0, 3)) {
      case 0: dlist_add(&g[l], &g[e]); m_after(l, e); break;
      case 1: dlist_add_after(&g[l], &g[e]); m_after(l, e); break;
      case 2: dlist_add_tail(&g[l], &g[e]); m_after(m_p[l], e); break;
      case 3: dlist_add_before(&g[l], &g[e]); m_after(m_p[l], e); break;
    }
    same();
    VP_REACH();
}
//@harness h_dl_remove prop=C10 unwind=8 about=dlist_remove,__dlist_remove,dlist_pop
VP_MAIN(h_dl_remove)
{
    int e;

    mk();
    e = node();
    if (vp_bool()) {
        dlist_remove(&g[e]);
        m_remove(e);
    } else {
        dlist_pop(&g[e]);
        m_remove(m_n[e]);
    }
    same();
    VP_REACH();
}
//@harness h_dl_move prop=C10 unwind=8 about=dlist_move,dlist_move_tail
VP_MAIN(h_dl_move)
{
    int l, e;

    mk();
    l = node();
    e = node();
    VP_ASSUME(l != e);
    m_remove(e);
    if (vp_bool()) {
        dlist_move(&g[l], &g[e]);
        m_after(l, e);
    } else {
        dlist_move_tail(&g[l], &g[e]);
        m_after(m_p[l], e);
    }
    same();
    VP_REACH();
}
//@harness h_dl_splice prop=C10 unwind=8 about=dlist_splice,dlist_splice_tail,__dlist_splice,__dlist_splice2
VP_MAIN(h_dl_splice)
{
    int d, s, h, t;
    bool tail = vp_bool();

    mk();
    d = node();
    s = node();
    VP_ASSUME(!m_same_list(d, s));
    if (tail) {
        dlist_splice_tail(&g[d], &g[s]);
    } else {
        dlist_splice(&g[d], &g[s]);
    }
    if (m_n[s] != s) {
        h = m_n[s];
        t = m_p[s];
        m_link(s, s);
        if (tail) {
            m_link(m_p[d], h);
            m_link(t, d);
        } else {
            int o = m_n[d];

            m_link(d, h);
            m_link(t, o);
        }
    }
    same();
    VP_REACH();
}
//@harness h_dl_cut prop=C10 unwind=8 about=dlist_cut_at
VP_MAIN(h_dl_cut)
{
    int d, s, e, h, n;

    mk();
    d = node();
    s = node();
    e = node();
    VP_ASSUME(m_n[d] == d && d != s && m_same_list(s, e));
    if (vp_bool()) {
        g[d].next = g[d].prev = NULL;
    }
    dlist_cut_at(&g[s], &g[e], &g[d]);
    if (e != s) {
        h = m_n[s];
        n = m_n[e];
        m_link(d, h);
        m_link(e, d);
        m_link(s, n);
    }
    same();
    VP_REACH();
}
//@harness h_dl_query prop=C10 unwind=8 about=dlist_is_empty,dlist_is_singular,dlist_is_empty_or_singular,dlist_is_first,dlist_is_last,__dlist_repair
VP_MAIN(h_dl_query)
{
    int l, e, len = 0;

    mk();
    l = node();
    e = node();
    for (int i = m_n[l], k = 0; k < N && i != l; k++) {
        len++;
        i = m_n[i];
    }
    VP_CHECK("empty", dlist_is_empty(&g[l]) == (len == 0));
    VP_CHECK("one element", dlist_is_singular(&g[l]) == (len == 1));
    VP_CHECK("at most one", dlist_is_empty_or_singular(&g[l]) == (len <= 1));
    VP_CHECK("first", dlist_is_first(&g[l], &g[e]) == (m_n[l] == e));
    VP_CHECK("last", dlist_is_last(&g[l], &g[e]) == (m_p[l] == e));
    same();
    /* e moves to f */
    l = node();
    VP_ASSUME(m_n[l] == l && l != e && m_n[e] != e);
    g[l] = g[e];
    __dlist_repair(&g[l]);
    m_link(m_p[e], l);
    m_link(l, m_n[e]);
    e = vp_range(0, N - 1);
    VP_CHECK("repaired", m_p[m_n[e]] != e || g[e].next == &g[m_n[e]]);
    VP_REACH();
}
/* }}} */
/* {{{ histories (drawn) */

typedef struct elt_t {
    int id;
    dlist_t link;
    htnode_t node;
} elt_t;
#define NE 12
#define NL 3
static elt_t g_e[NE];
static int s_e[NL][NE], s_n[NL], s_in[NE];
static void s_ins(int l, int pos, int e)
{
    memmove(&s_e[l][pos + 1], &s_e[l][pos], (s_n[l] - pos) * sizeof(int));
    s_e[l][pos] = e;
    s_n[l]++;
    s_in[e] = l;
}
static void s_del(int l, int pos)
{
    s_in[s_e[l][pos]] = -1;
    s_n[l]--;
    memmove(&s_e[l][pos], &s_e[l][pos + 1], (s_n[l] - pos) * sizeof(int));
}
static void s_cat(int d, int s, bool tail)
{
    for (int i = 0; i < s_n[s]; i++) {
        int e = s_e[s][i];

        s_ins(d, tail ? s_n[d] : i, e);
    }
    s_n[s] = 0;
}
static void s_init(void)
{
    for (int i = 0; i < NE; i++) {
        g_e[i].id = i;
        dlist_init(&g_e[i].link);
        s_in[i] = -1;
    }
    for (int i = 0; i < NL; i++) {
        s_n[i] = 0;
    }
}
//@harness h_dl_history prop=C10 kind=bounded bmc=no search=2 bound="40 operations, 12 elements, 3 lists" about=dlist_*,dlist_for_each*,dlist_first_entry,dlist_next_entry
VP_MAIN(h_dl_history)
{
#ifdef VP_NATIVE
    dlist_t L[NL];

    s_init();
    for (int i = 0; i < NL; i++) {
        dlist_init(&L[i]);
    }
    for (int op = 0; op < 40; op++) {
        int l = vp_range(0, NL - 1), e = vp_range(0, NE - 1);
        int l2 = vp_range(0, NL - 1), in = s_in[e], pos = -1;

        if (in >= 0) {
            for (pos = 0; s_e[in][pos] != e; pos++) {
            }
        }
        switch (vp_range(0, 9)) {
          case 0: if (in < 0) { dlist_add(&L[l], &g_e[e].link); s_ins(l, 0, e); } break;
          case 1: case 2: if (in < 0) { dlist_add_tail(&L[l], &g_e[e].link); s_ins(l, s_n[l], e); } break;
          case 3: if (in >= 0) { dlist_remove(&g_e[e].link); s_del(in, pos); } break;
          case 4: if (s_n[l]) { dlist_pop(&L[l]); s_del(l, 0); } break;
          case 5:
            if (in >= 0) {
                s_del(in, pos);
            }
            dlist_move(&L[l], &g_e[e].link);
            s_ins(l, 0, e);
            break;
          case 6:
            if (in >= 0) {
                s_del(in, pos);
            }
            dlist_move_tail(&L[l], &g_e[e].link);
            s_ins(l, s_n[l], e);
            break;
          case 7: if (l != l2) { dlist_splice(&L[l], &L[l2]); s_cat(l, l2, false); } break;
          case 8: if (l != l2) { dlist_splice_tail(&L[l], &L[l2]); s_cat(l, l2, true); } break;
          case 9:
            if (in >= 0 && l != in && !s_n[l]) {
                dlist_cut_at(&L[in], &g_e[e].link, &L[l]);
                for (int i = 0; i <= pos; i++) {
                    int x = s_e[in][0];

                    s_del(in, 0);
                    s_ins(l, s_n[l], x);
                }
            }
            break;
        }
        for (int i = 0; i < NL; i++) {
            int k = 0;

            dlist_for_each_entry(elt_t, it, &L[i], link) {
                VP_CHECK("forward", k < s_n[i] && it->id == s_e[i][k]);
                k++;
            }
            VP_CHECK("length", k == s_n[i]);
            dlist_for_each_rev(it, &L[i]) {
                k--;
                VP_CHECK("backward", k >= 0 && dlist_entry(it, elt_t, link)->id == s_e[i][k]);
            }
            VP_CHECK("length backward", k == 0);
            if (s_n[i]) {
                elt_t *f = dlist_first_entry(&L[i], elt_t, link);
                elt_t *b = dlist_last_entry(&L[i], elt_t, link);

                VP_CHECK("ends", f->id == s_e[i][0] && b->id == s_e[i][s_n[i] - 1]);
                dlist_for_each_entry_after(f, it, &L[i], link) {
                    k++;
                    VP_CHECK("after", k < s_n[i] && it->id == s_e[i][k]);
                }
                VP_CHECK("length after", k == s_n[i] - 1);
            }
        }
    }
#endif
}
//@harness h_ht_history prop=C10 kind=bounded bmc=no search=2 bound="40 operations, 12 elements, 3 lists" about=htlist_add,htlist_add_tail,htlist_add_after,htlist_pop,htlist_splice,htlist_splice_tail,htlist_move,htlist_for_each
VP_MAIN(h_ht_history)
{
#ifdef VP_NATIVE
    htlist_t L[NL];

    s_init();
    for (int i = 0; i < NL; i++) {
        htlist_init(&L[i]);
        if (vp_bool()) {
            /* the head of an empty list does not matter */
            L[i].head = (htnode_t *)0x10;
        }
    }
    for (int op = 0; op < 40; op++) {
        int l = vp_range(0, NL - 1), e = vp_range(0, NE - 1);
        int l2 = vp_range(0, NL - 1), in = s_in[e], pos = -1;

        if (in >= 0) {
            for (pos = 0; s_e[in][pos] != e; pos++) {
            }
        }
        switch (vp_range(0, 7)) {
          case 0: if (in < 0) { htlist_add(&L[l], &g_e[e].node); s_ins(l, 0, e); } break;
          case 1: case 2: if (in < 0) { htlist_add_tail(&L[l], &g_e[e].node); s_ins(l, s_n[l], e); } break;
          case 3:
            if (in < 0) {
                elt_t *prev = NULL;

                pos = vp_range(0, s_n[l]);
                if (pos) {
                    prev = &g_e[s_e[l][pos - 1]];
                }
                htlist_add_entry_after(&L[l], prev, &g_e[e], node);
                s_ins(l, pos, e);
            }
            break;
          case 4:
            if (s_n[l]) {
                VP_CHECK("pops the first", htlist_pop_entry(&L[l], elt_t, node)->id == s_e[l][0]);
                s_del(l, 0);
            }
            break;
          case 5:
            if (l != l2) {
                htlist_splice(&L[l], &L[l2]);
                htlist_init(&L[l2]);
                s_cat(l, l2, false);
            }
            break;
          case 6:
            if (l != l2) {
                htlist_splice_tail(&L[l], &L[l2]);
                htlist_init(&L[l2]);
                s_cat(l, l2, true);
            }
            break;
          case 7:
            if (l != l2) {
                while (s_n[l]) {
                    s_del(l, 0);
                }
                htlist_move(&L[l], &L[l2]);
                s_cat(l, l2, false);
            }
            break;
        }
        for (int i = 0; i < NL; i++) {
            elt_t *it;
            int k = 0;

            VP_CHECK("empty", htlist_is_empty(&L[i]) == !s_n[i]);
            htlist_for_each_entry(it, &L[i], node) {
                VP_CHECK("elements", k < s_n[i] && it->id == s_e[i][k]);
                k++;
            }
            VP_CHECK("length", k == s_n[i]);
            if (k) {
                VP_CHECK("last", htlist_last_entry(&L[i], elt_t, node)->id == s_e[i][k - 1]);
            }
        }
    }
#endif
}
/* }}} */
/* {{{ htlist: for any elements around the ends */

static htnode_t h_n[8];
//@harness h_ht_ops prop=C10 unwind=8 about=htlist_add,htlist_add_tail,htlist_add_after,htlist_pop,htlist_splice,htlist_splice_tail
VP_MAIN(h_ht_ops)
{
    /* l = a .. b (possibly a = b, possibly empty), followed by x */
    htlist_t l, s;
    htnode_t *a = &h_n[0], *b, *n = &h_n[4], *x = vp_bool() ? &h_n[3] : NULL;
    bool empty = vp_bool(), one = vp_bool(), one2 = vp_bool();
    bool sempty = vp_bool();
    htnode_t *sa = &h_n[5], *sb = one2 ? sa : &h_n[6], *k = &h_n[7];

    b = one ? a : &h_n[1];
    a->next = one ? x : k;          /* k: the elements in between */
    k->next = b;
    b->next = x;
    l.head = empty ? x : a;
    l.tail = empty ? NULL : b;
    switch (vp_range(0, 5)) {
      case 0:
        htlist_add(&l, n);
        VP_CHECK("head", l.head == n);
        VP_CHECK("tail", l.tail == (empty ? n : b));
        VP_CHECK("chain", empty || n->next == a);
        VP_CHECK("others", b->next == x && k->next == b);
        break;
      case 1:
        htlist_add_tail(&l, n);
        VP_CHECK("tail", l.tail == n && n->next == x);
        VP_CHECK("head", l.head == (empty ? n : a));
        VP_CHECK("chain", empty || b->next == n);
        break;
      case 2:
        VP_ASSUME(!empty);
        {
            htnode_t *p = vp_bool() ? a : b, *o = p->next;

            htlist_add_after(&l, p, n);
            VP_CHECK("chain", p->next == n && n->next == o);
            VP_CHECK("tail", l.tail == (p == b ? n : b));
            VP_CHECK("head", l.head == a);
        }
        break;
      case 3:
        VP_ASSUME(!empty);
        VP_CHECK("the first", htlist_pop(&l) == a);
        VP_CHECK("empty iff it was alone", htlist_is_empty(&l) == one);
        VP_CHECK("the rest", one || (l.head == k && l.tail == b));
        break;
      default:
        sa->next = one2 ? NULL : sb;
        sb->next = NULL;
        s.head = sempty ? NULL : sa;
        s.tail = sempty ? NULL : sb;
        if (vp_bool()) {
            htlist_splice(&l, &s);
            if (!sempty) {
                VP_CHECK("head", l.head == sa);
                VP_CHECK("chain", empty || sb->next == a);
                VP_CHECK("tail", l.tail == (empty ? sb : b));
            }
        } else {
            htlist_splice_tail(&l, &s);
            if (!sempty) {
                VP_CHECK("head", l.head == (empty ? sa : a));
                VP_CHECK("chain", empty || b->next == sa);
                VP_CHECK("tail", l.tail == sb && (empty || sb->next == x));
            }
        }
        if (sempty) {
            VP_CHECK("unchanged", l.head == (empty ? x : a)
                     && l.tail == (empty ? NULL : b));
        }
        break;
    }
    VP_REACH();
}
/* }}} */
