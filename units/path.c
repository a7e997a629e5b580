/* File paths. */
//@trusted the current directory is the one getcwd gives (a fixed one here)
//@trusted strchr and strchrnul answer the first '/' (or '.') at or after their argument, or the end of the text
//@link src/core/str-buf.c src/core/str-ctype.c src/core/str-conv.c src/core/str-stream.c src/core/str.c src/core/str-iprintf.c src/core/str-dtoa.c src/container/qvector.blk
#define VP_WANT_STUBS
#define VP_TSTACK
#include "vp.h"
#include "vp_mem.h"
#include <lib-common/core.h>
#include <lib-common/thr.h>
#ifdef VP_NATIVE
struct thr_hooks thr_hooks_g = {
    .init_cbs = DLIST_INIT(thr_hooks_g.init_cbs),
    .exit_cbs = DLIST_INIT(thr_hooks_g.exit_cbs),
};
#endif
#ifndef VP_NATIVE
/* the text under test: g_n bytes, none of them 0, then a 0; g_w is any place
 * in it; g_k the last place found */
static char *g_s;
static size_t g_n, g_w, g_k;
static bool vp_badw;
static char *vp_find(const char *p, int c)
{
    size_t off = __CPROVER_POINTER_OFFSET(p), k = vp_u64();

    __CPROVER_assert(__CPROVER_same_object(p, g_s) && off <= g_n,
                     "searches inside the text");
    __CPROVER_assume(k >= off && k <= g_n);
    __CPROVER_assume(k == g_n || g_s[k] == c);
    __CPROVER_assume(!(g_w >= off && g_w < k && g_s[g_w] == c));
    g_k = k;
    return g_s + k;
}
static char *vp_strchr(const char *p, int c)
{
    char *r = vp_find(p, c);

    return g_k == g_n ? NULL : r;
}
# undef strchr
# undef strchrnul
# define strchr(p_, c_)     vp_strchr(p_, c_)
# define strchrnul(p_, c_)  vp_find(p_, c_)
/* what is copied out: recorded */
static const char *g_from;
static ssize_t g_len;
static ssize_t vp_cpymem(char *d, ssize_t size, const void *s, size_t n)
{
    g_from = s;
    g_len = n;
    return n;
}
static ssize_t vp_cpy(char *d, ssize_t size, const char *s)
{
    g_from = s;
    g_len = -1;
    return 1;
}
static size_t vp_slen(const char *s)
{
    __CPROVER_assert(s == g_s, "the length of the text");
    return g_n;
}
# undef pstrcpymem
# undef pstrcpy
# undef strlen
# define pstrcpymem(d_, l_, s_, n_)  vp_cpymem(d_, l_, s_, n_)
# define pstrcpy(d_, l_, s_)         vp_cpy(d_, l_, s_)
# define strlen(s_)                  vp_slen(s_)
#endif
#ifdef VP_NATIVE
/* the current directory */
# undef getcwd
# define getcwd(b_, n_)  strcpy(b_, "/w/dir")
#endif
#include "src/core/str-path.c"
#ifdef VP_NATIVE
# include "src/core/str-l.c"
#endif

#ifndef VP_NATIVE
# define BAD(k_)  (g_s[k_] == '.' && (k_) + 1 < g_n && g_s[(k_) + 1] == '.'    \
                   && ((k_) + 2 == g_n || g_s[(k_) + 2] == '/'))
/* a text of any length; the bytes that are looked at by name are not 0 */
static void text(void)
{
    g_n = vp_range(0, 100000);
    g_s = vp_alloc(g_n + 1);
    __CPROVER_assume(g_s[g_n] == 0);
    g_w = vp_range(0, 100000);
    __CPROVER_assume(g_w < g_n || (!g_n && !g_w));
}
static bool nz(size_t i)
{
    return i >= g_n || g_s[i] != 0;
}
#endif

/* {{{ path_is_safe */
//@loop path_is_safe 0
//  __CPROVER_assigns(ptr, g_k)
//  __CPROVER_loop_invariant(__CPROVER_same_object(ptr, g_s) && __CPROVER_POINTER_OFFSET(ptr) <= g_n && (vp_badw ==> __CPROVER_POINTER_OFFSET(ptr) <= g_w))
//  __CPROVER_decreases(g_n - __CPROVER_POINTER_OFFSET(ptr))
//@end
//@harness h_path_safe prop=C24 loops=yes solver=cadical about=path_is_safe
VP_MAIN(h_path_safe)
{
#ifndef VP_NATIVE
    bool r, abs, up;

    text();
    __CPROVER_assume(nz(0) && nz(1) && nz(2));
    __CPROVER_assume(nz(g_w) && nz(g_w + 1) && nz(g_w + 2) && nz(g_w + 3));
    abs = g_n && g_s[0] == '/';
    up  = g_n && BAD(0);
    vp_badw = g_n && g_s[g_w] == '/' && g_w + 1 < g_n && BAD(g_w + 1);
    g_k = g_n;
    r = path_is_safe(g_s);
    __CPROVER_assume(nz(g_k) && nz(g_k + 1) && nz(g_k + 2) && nz(g_k + 3));
    VP_CHECK("a path with a parent component is refused, wherever it is",
             !((abs || up || vp_badw) && r));
    VP_CHECK("any other is accepted", r || abs || up
             || (g_k < g_n && g_s[g_k] == '/' && g_k + 1 < g_n
                 && BAD(g_k + 1)));
#endif
    VP_REACH();
}
/* }}} */
/* {{{ parts of a path */
//@loop path_filepart 0
//  __CPROVER_assigns(filename, base, g_k)
//  __CPROVER_loop_invariant(filename == base && __CPROVER_same_object(base, g_s) && __CPROVER_POINTER_OFFSET(base) <= g_n && (__CPROVER_POINTER_OFFSET(base) == 0 || g_s[__CPROVER_POINTER_OFFSET(base) - 1] == '/'))
//  __CPROVER_decreases(g_n - __CPROVER_POINTER_OFFSET(base))
//@end
//@harness h_path_filepart prop=C24 loops=yes solver=cadical about=path_filepart,path_dirpart
VP_MAIN(h_path_filepart)
{
#ifndef VP_NATIVE
    const char *b;
    size_t o;
    char d[1];

    text();
    __CPROVER_assume(nz(g_w));
    b = path_filepart(g_s);
    VP_CHECK("inside the text", __CPROVER_same_object(b, g_s));
    o = __CPROVER_POINTER_OFFSET(b);
    VP_CHECK("not past its end", o <= g_n);
    VP_CHECK("the start, or after a slash", o == 0 || g_s[o - 1] == '/');
    VP_CHECK("no slash follows", !(g_w >= o && g_w < g_n
                                   && g_s[g_w] == '/'));
    path_dirpart(d, 1, g_s);
    VP_CHECK("the directory part is what precedes", g_from == g_s && g_len >= 0
             && (size_t)g_len <= g_n);
    o = g_len;
    VP_CHECK("to the last slash", (o == 0 || g_s[o - 1] == '/')
             && !(g_w >= o && g_w < g_n && g_s[g_w] == '/'));
#endif
    VP_REACH();
}
//@loop path_dirname 0
//  __CPROVER_assigns(end)
//  __CPROVER_loop_invariant(__CPROVER_same_object(end, path) && __CPROVER_POINTER_OFFSET(end) <= g_n && (g_w >= __CPROVER_POINTER_OFFSET(end) && g_w < g_n ==> path[g_w] == '/'))
//  __CPROVER_decreases(__CPROVER_POINTER_OFFSET(end))
//@end
//@loop path_dirname 1
//  __CPROVER_assigns(end)
//  __CPROVER_loop_invariant(__CPROVER_same_object(end, path) && __CPROVER_POINTER_OFFSET(end) <= __CPROVER_POINTER_OFFSET(__CPROVER_loop_entry(end)))
//  __CPROVER_loop_invariant(g_w >= __CPROVER_POINTER_OFFSET(end) && g_w < __CPROVER_POINTER_OFFSET(__CPROVER_loop_entry(end)) ==> path[g_w] != '/')
//  __CPROVER_decreases(__CPROVER_POINTER_OFFSET(end))
//@end
//@loop path_dirname 2
//  __CPROVER_assigns(end)
//  __CPROVER_loop_invariant(__CPROVER_same_object(end, path) && __CPROVER_POINTER_OFFSET(end) <= __CPROVER_POINTER_OFFSET(__CPROVER_loop_entry(end)))
//  __CPROVER_loop_invariant(g_w >= __CPROVER_POINTER_OFFSET(end) && g_w < __CPROVER_POINTER_OFFSET(__CPROVER_loop_entry(end)) ==> path[g_w] == '/')
//  __CPROVER_decreases(__CPROVER_POINTER_OFFSET(end))
//@end
//@harness h_path_dirname prop=C24 loops=yes solver=sat about=path_dirname
VP_MAIN(h_path_dirname)
{
#ifndef VP_NATIVE
    char d[1];
    bool abs;

    text();
    __CPROVER_assume(nz(g_w) && nz(0));
    abs = g_n && g_s[0] == '/';
    path_dirname(d, 1, g_s);
    if (g_len >= 0) {
        VP_CHECK("a prefix of the path", g_from == g_s
                 && (size_t)g_len > 0 && (size_t)g_len < g_n);
        VP_CHECK("that does not end with a slash", g_s[g_len - 1] != '/');
        VP_CHECK("what was taken is one component",
                 g_w != (size_t)g_len || g_s[g_w] == '/');
    } else {
        VP_CHECK("the root or the current directory",
                 g_from[0] == (abs ? '/' : '.') && g_from[1] == 0);
    }
#endif
    VP_REACH();
}
/* }}} */
/* {{{ whole paths against their components */
#ifdef VP_NATIVE
typedef struct comps_t {
    bool abs;
    int up;
    int n;
    char c[24][24];
} comps_t;
/* what a path designates: how far it climbs, then the components */
static void comps(const char *s, comps_t *c)
{
    p_clear(c, 1);
    c->abs = *s == '/';
    while (*s) {
        int l = (strcspn)(s, "/");

        if (l == 2 && s[0] == '.' && s[1] == '.') {
            if (c->n) {
                c->n--;
            } else
            if (!c->abs) {
                c->up++;
            }
        } else
        if (l && !(l == 1 && s[0] == '.')) {
            memcpy(c->c[c->n], s, l);
            c->c[c->n++][l] = 0;
        }
        s += l;
        s += *s == '/';
    }
}
static bool same(const comps_t *a, const comps_t *b)
{
    if (a->abs != b->abs || a->up != b->up || a->n != b->n) {
        return false;
    }
    for (int i = 0; i < a->n; i++) {
        if (strcmp(a->c[i], b->c[i])) {
            return false;
        }
    }
    return true;
}
static int g_path(char *s, int max)
{
    static const char al[] = "///...ab";
    int n = vp_len(max);

    for (int i = 0; i < n; i++) {
        s[i] = al[vp_range(0, 7)];
    }
    s[n] = 0;
    return n;
}
#endif
//@harness h_path_simplify prop=C24 kind=bounded bmc=no search=4 bound="paths of 20 bytes" about=path_simplify2,path_simplify
VP_MAIN(h_path_simplify)
{
#ifdef VP_NATIVE
    char s[32], *t;
    comps_t a, b;
    int n = g_path(s, 20), r, i;
    bool keep = vp_bool();

    t = vp_alloc(n + 1);
    memcpy(t, s, n + 1);
    comps(s, &a);
    r = keep ? path_simplify2(t, true) : path_simplify(t);
    if (!n) {
        VP_CHECK("no path is refused", r < 0);
        return;
    }
    VP_CHECK("the length", r > 0 && r <= n && (strlen)(t) == (size_t)r);
    comps(t, &b);
    VP_CHECK("designates what the path did", same(&a, &b));
    if (!keep) {
        VP_CHECK("no final slash", r == 1 || t[r - 1] != '/');
    } else
    if (s[n - 1] == '/' && (a.up || a.n || a.abs)) {
        VP_CHECK("the final slash is kept", t[r - 1] == '/');
    }
    /* nothing remains that could be removed, but a final dot */
    for (i = 0; t[i]; i++) {
        VP_CHECK("no double slash", !(t[i] == '/' && t[i + 1] == '/'));
        if (t[i] == '.' && (i == 0 || t[i - 1] == '/')) {
            VP_CHECK("no dot component", t[i + 1] != '/' || keep);
        }
    }
    for (i = 0; i < 3 * b.up; i += 3) {
        VP_CHECK("parents come first", t[i] == '.' && t[i + 1] == '.'
                 && (t[i + 2] == '/' || !t[i + 2]));
    }
    for (; i < r; i++) {
        VP_CHECK("no other parent", !(t[i] == '.' && t[i + 1] == '.'
                 && (i == 0 || t[i - 1] == '/')
                 && (t[i + 2] == '/' || !t[i + 2])));
    }
#endif
}
//@harness h_path_parts prop=C24 kind=bounded bmc=no search=2 bound="paths of 12 bytes" about=path_dirname,path_basename,path_ext,path_extnul,path_join,path_is_safe,path_filepart,path_dirpart
VP_MAIN(h_path_parts)
{
#ifdef VP_NATIVE
    char s[32], e[64], q[32], d[64];
    int n = g_path(s, 12), m, i, j, k, len, r;
    const char *x;
    bool safe = s[0] != '/';

    /* components */
    for (i = 0; i <= n; i = j + 1) {
        for (j = i; j < n && s[j] != '/'; j++) {
        }
        if (j - i == 2 && s[i] == '.' && s[i + 1] == '.') {
            safe = false;
        }
    }
    VP_CHECK("safe iff relative and no parent", path_is_safe(s) == safe);

    /* file part, extension */
    for (i = n; i > 0 && s[i - 1] != '/'; i--) {
    }
    VP_CHECK("file part", path_filepart(s) == s + i);
    r = path_dirpart(d, sizeof(d), s);
    VP_CHECK("directory part", r == i && !memcmp(d, s, i) && !d[i]);
    for (k = i; s[k] == '.'; k++) {
    }
    for (j = n; j > k && s[j - 1] != '.'; j--) {
    }
    x = j > k ? s + j - 1 : NULL;
    VP_CHECK("extension", path_ext(s) == x);
    VP_CHECK("extension or end", path_extnul(s) == (x ? x : s + n));

    /* base name, directory name */
    for (j = n; j > 0 && s[j - 1] == '/'; j--) {
    }
    for (i = j; i > 0 && s[i - 1] != '/'; i--) {
    }
    len = vp_range(1, 20);
    r = path_basename(d, len, s);
    VP_CHECK("base name", r == j - i);
    k = r < len - 1 ? r : len - 1;
    VP_CHECK("what fits of it", !memcmp(d, s + i, k) && !d[k]);
    for (j = i; j > 0 && s[j - 1] == '/'; j--) {
    }
    strcpy(e, j ? s : s[0] == '/' ? "/" : ".");
    e[j ?: 1] = 0;
    r = path_dirname(d, len, s);
    VP_CHECK("directory name", r == (int)(strlen)(e));
    k = r < len - 1 ? r : len - 1;
    VP_CHECK("what fits of it", !memcmp(d, e, k) && !d[k]);

    /* join */
    m = g_path(q, 12);
    strcpy(d, s);
    for (i = n; i > 0 && s[i - 1] == '/'; i--) {
    }
    for (k = 0; q[k] == '/'; k++) {
    }
    sprintf(e, "%.*s/%s", i, s, q + k);
    len = vp_range(n + 1, 40);
    r = path_join(d, len, q);
    VP_CHECK("joined", r == (int)(strlen)(e));
    k = r < len - 1 ? r : len - 1;
    VP_CHECK("what fits of it", !memcmp(d, e, k) && !d[k]);
    (void)m;
#endif
}
//@harness h_path_extend prop=C24 kind=bounded bmc=no search=2 bound="PATH_MAX" about=path_extend,path_va_extend
VP_MAIN(h_path_extend)
{
#ifdef VP_NATIVE
    static char pre[PATH_MAX + 64], suf[PATH_MAX + 64], e[2 * PATH_MAX + 200];
    int a = vp_bool() ? vp_range(0, 10) : PATH_MAX - 20 + vp_range(0, 40);
    int b = vp_bool() ? vp_range(0, 24) : PATH_MAX - 20 + vp_range(0, 40);
    char *buf = vp_alloc(PATH_MAX);
    int r, l;

    for (int i = 0; i < a; i++) {
        pre[i] = "abc/"[vp_u8() & 3];
    }
    pre[a] = 0;
    for (int i = 0; i < b; i++) {
        suf[i] = "abc/"[vp_u8() & 3];
    }
    suf[b] = 0;
    r = path_extend(buf, pre, "%s", suf);
    if (suf[0] == '/') {
        strcpy(e, suf);
    } else {
        strcpy(e, pre);
        if (a && pre[a - 1] != '/') {
            strcat(e, "/");
        }
        strcat(e, suf);
    }
    l = (strlen)(e);
    if (l < PATH_MAX) {
        VP_CHECK("the path, absolute suffixes replace", r == l
                 && !strcmp(buf, e));
    } else {
        VP_CHECK("too long", r < 0 || (suf[0] == '/' && r >= PATH_MAX));
    }
#endif
}
//@harness h_path_relative prop=C24 kind=bounded bmc=no search=2 bound="paths of 14 bytes" about=path_relative_to
VP_MAIN(h_path_relative)
{
#ifdef VP_NATIVE
    char s[32] = "/w/dir/", t[32] = "/w/dir/", *buf = vp_alloc(PATH_MAX);
    char d[PATH_MAX];
    comps_t a, b, c;
    int n, m, r, dir, rs = vp_bool() ? 7 : 1, rt = vp_bool() ? 7 : 1;

    n = g_path(s + rs, 14) + rs;
    m = g_path(t + rt, 14) + rt;
    /* 7: given relative to the current directory */
    VP_ASSUME(rs == 1 || (s[7] && s[7] != '/'));
    VP_ASSUME(rt == 1 || (t[7] && t[7] != '/'));
    /* a final dot is not a component of its own */
    VP_ASSUME(!(s[n - 1] == '.' && s[n - 2] == '/'));
    VP_ASSUME(!(t[m - 1] == '.' && t[m - 2] == '/'));
    r = path_relative_to(buf, rs == 7 ? s + 7 : s, rt == 7 ? t + 7 : t);
    VP_CHECK("the length", r >= 0 && (strlen)(buf) == (size_t)r);
    comps(s, &a);
    comps(t, &b);
    if (same(&a, &b)) {
        VP_CHECK("to itself: its name", !strcmp(buf, b.n ? b.c[b.n - 1] : ""));
        return;
    }
    VP_CHECK("relative", buf[0] != '/');
    /* from its directory: the path itself when it ends with a slash */
    dir = s[n - 1] == '/' || (n >= 3 && !memcmp(s + n - 3, "/..", 3));
    if (!dir) {
        for (; s[n - 1] != '/'; n--) {
        }
        s[n] = 0;
    }
    sprintf(d, "%s/%s", s, buf);
    comps(d, &c);
    VP_CHECK("leads to the other path", same(&b, &c));
#endif
}
/* }}} */
