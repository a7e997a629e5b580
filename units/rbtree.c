/* Balanced trees. */
#define VP_WANT_STUBS
#include "vp.h"
#include <lib-common/core.h>
#include <lib-common/container-rbtree.h>
#include "src/container/rbtree.c"

#ifdef VP_NATIVE
typedef struct ent_t { long pad; int key; rb_node_t link; } ent_t;
static int key_cmp(int a, int b)
{
    return a < b ? -1 : a > b;
}
#define ent_key(e)  ((e)->key)
rb_tree_t(tt, ent_t, int, link, ent_key, key_cmp);
#define NE  200
static ent_t E[NE];
static bool in[NE];
/* black height, or -1; keys in (lo, hi) */
static int rb_ok(rb_node_t *n, rb_node_t *parent, int lo, int hi, int *cnt)
{
    int l, r;
    ent_t *e;
    bool red;

    if (!n) {
        return 1;
    }
    e = container_of(n, ent_t, link);
    red = n->__parent & 1 ? 0 : 1;
    if ((rb_node_t *)(n->__parent & ~3ul) != parent || e->key <= lo
    ||  e->key >= hi || ++*cnt > NE)
    {
        return -1;
    }
    l = rb_ok(n->left, n, lo, e->key, cnt);
    r = rb_ok(n->right, n, e->key, hi, cnt);
    if (l < 0 || r != l) {
        return -1;
    }
    if (red && ((n->left && !(n->left->__parent & 1))
            ||  (n->right && !(n->right->__parent & 1))))
    {
        return -1;
    }
    return l + !red;
}
static int n_lower(int k)
{
    while (k >= 0 && !in[k]) {
        k--;
    }
    return k;
}
static int n_upper(int k)
{
    while (k < NE && !in[k]) {
        k++;
    }
    return k;
}
#endif
//@harness h_rb prop=C18 kind=bounded bound="histories of 400 operations over 200 keys" bmc=no search=5 about=rb_add_node,rb_del_node,__rb_next,__rb_prev,rb_find,rb_find_upper,rb_find_lower,rb_find_slot,rb_insert,rb_remove,rb_for_each
VP_MAIN(h_rb)
{
#ifdef VP_NATIVE
    rb_t(tt) t;
    int n = 0, cnt, dom = vp_bool() ? NE : vp_range(1, 30), bias = vp_range(1, 9), k;

    rb_init(tt, &t);
    memset(in, 0, sizeof(in));
    for (int ops = vp_range(1, 400); ops > 0; ops--) {
        ent_t *e, *w;

        k = vp_range(0, dom - 1);
        if ((int)vp_range(0, 9) < bias) {
            static ent_t dup;

            w = in[k] ? &dup : &E[k];
            w->key = k;
            e = rb_insert(tt, &t, w);
            VP_CHECK("inserted when new", e == (in[k] ? &E[k] : NULL));
            n += !in[k];
            in[k] = true;
        } else {
            e = rb_tt_remove_key(&t, k);
            VP_CHECK("removed when there", e == (in[k] ? &E[k] : NULL));
            n -= in[k];
            in[k] = false;
        }
        cnt = 0;
        VP_CHECK("ordered, linked and balanced",
                 rb_ok(t.root, NULL, -1, NE, &cnt) > 0 && cnt == n);
        k = vp_range(0, dom);
        if (k < NE) {
            int l = n_lower(k), u = n_upper(k);

            VP_CHECK("find", rb_find(tt, &t, k) == (in[k] ? &E[k] : NULL));
            VP_CHECK("the last one not after",
                     rb_find_lower(tt, &t, k) == (l < 0 ? NULL : &E[l]));
            VP_CHECK("the first one not before",
                     rb_find_upper(tt, &t, k) == (u >= NE ? NULL : &E[u]));
        }
    }
    k = -1;
    cnt = 0;
    rb_for_each(tt, it, &t) {
        k = n_upper(k + 1);
        cnt++;
        VP_CHECK("in order", it == &E[k]);
    }
    VP_CHECK("all of them", cnt == n);
    k = NE;
    cnt = 0;
    for (ent_t *it = rb_last(tt, &t); it; it = rb_prev(tt, it)) {
        k = n_lower(k - 1);
        cnt++;
        VP_CHECK("in reverse order", it == &E[k]);
    }
    VP_CHECK("all of them again", cnt == n);
#endif
}
