/* pstream_t against the model "a window [p, p_end) on a byte sequence". */
//@trusted memchr/memrchr/memcmp/memmem/memcpy have their C semantics (ghost-index contracts units/vp_str.h, vp_track.h)
//@trusted tolower has its C-locale semantics (cbmc's model)
#define VP_WANT_STUBS
#include "vp.h"
#include "vp_track.h"
#include "vp_str.h"
static size_t g_k;              /* any position */
static uint8_t *g_b;            /* the bytes */
static uint8_t *g_w;            /* a word */
#include "vp_mem.h"
#include <lib-common/core.h>
#include "src/core/str-stream.c"
#include "src/core/str-conv.c"
#include "src/core/str-ctype.c"

#ifndef PN
# define PN  1000000
#endif
#define BN  12

static pstream_t g_ps, g_o;     /* the stream, and as it was */
static size_t g_n;

static void mk_ps(void)
{
    size_t pre = VP_LEN(64, 3);

    g_n = VP_LEN(PN, BN);
    g_b = vp_buf(pre + g_n, BN + 3) + pre;
    g_ps = ps_init(g_b, g_n);
    g_o = g_ps;
    g_k = vp_range(0, g_n);
    VP_GI(g_k);
}
#define SAME()      (g_ps.b == g_o.b && g_ps.b_end == g_o.b_end)
#define BEGIN(n)    (g_ps.b == g_o.b + (n) && g_ps.b_end == g_o.b_end)
#define END(n)      (g_ps.b == g_o.b && g_ps.b_end == g_o.b + (n))
#define IS(ps, a, z) ((ps).b == g_o.b + (a) && (ps).b_end == g_o.b + (z))

static size_t g_wn;
static void mk_word(void)
{
    g_wn = VP_LEN(PN, 6);
    g_w = vp_buf(g_wn, 6);
}
/* a wanted length, often but not always available */
static size_t mk_want(void)
{
    return vp_bool() ? vp_range(0, g_n) : vp_u64();
}

//@harness h_ps_basic prop=C04 about=ps_init,ps_initptr,ps_len,ps_done,ps_has,ps_contains
VP_MAIN(h_ps_basic)
{
    size_t want;

    mk_ps();
    want = mk_want();
    VP_CHECK("length", ps_len(&g_ps) == g_n);
    VP_CHECK("done iff empty", ps_done(&g_ps) == (g_n == 0));
    VP_CHECK("has", ps_has(&g_ps, want) == (want <= g_n));
    VP_CHECK("contains its bounds", ps_contains(&g_ps, g_b + g_k));
    VP_CHECK("end", ps_end(&g_ps) == g_b + g_n);
    VP_CHECK("unchanged", SAME());
    VP_REACH();
}
//@harness h_ps_skip prop=C04 about=ps_skip,__ps_skip,ps_shrink,__ps_shrink,ps_clip,__ps_clip
VP_MAIN(h_ps_skip)
{
    int how = vp_range(0, 2), r;
    size_t want;

    mk_ps();
    want = mk_want();
    r = how == 0 ? ps_skip(&g_ps, want)
      : how == 1 ? ps_shrink(&g_ps, want) : ps_clip(&g_ps, want);
    VP_CHECK("succeeds iff there are enough bytes", r == (want <= g_n ? 0 : -1));
    if (r < 0) {
        VP_CHECK("unchanged on failure", SAME());
    } else {
        VP_CHECK("skip", how != 0 || BEGIN(want));
        VP_CHECK("shrink", how != 1 || END(g_n - want));
        VP_CHECK("clip", how != 2 || END(want));
    }
    VP_REACH();
}
//@harness h_ps_upto prop=C04 about=ps_skip_upto,__ps_skip_upto,ps_clip_at,__ps_clip_at,ps_extract_after,__ps_extract_after,ps_get_ps_upto,__ps_get_ps_upto
VP_MAIN(h_ps_upto)
{
    int how = vp_range(0, 3), r;
    pstream_t out = ps_init(NULL, 0);
    size_t a, z;

    mk_ps();
    a = vp_range(0, g_n);
    z = vp_range(a, g_n);
    g_ps = ps_initptr(g_b + a, g_b + z);
    g_o = g_ps;
    r = how == 0 ? ps_skip_upto(&g_ps, g_b + g_k)
      : how == 1 ? ps_clip_at(&g_ps, g_b + g_k)
      : how == 2 ? ps_extract_after(&g_ps, g_b + g_k, &out)
      : ps_get_ps_upto(&g_ps, g_b + g_k, &out);
    VP_CHECK("succeeds iff within", r == (g_k >= a && g_k <= z ? 0 : -1));
    if (r < 0) {
        VP_CHECK("unchanged on failure", SAME() && out.p == NULL);
    } else {
        g_o.b = g_b;
        VP_CHECK("skip", how != 0 || IS(g_ps, g_k, z));
        VP_CHECK("clip", how != 1 || IS(g_ps, a, g_k));
        VP_CHECK("extract", how != 2 || (IS(g_ps, a, z) && IS(out, g_k, z)));
        VP_CHECK("get", how != 3 || (IS(g_ps, g_k, z) && IS(out, a, g_k)));
    }
    VP_REACH();
}
//@harness h_ps_get_ps prop=C04 about=ps_get_ps,__ps_get_ps,ps_get_data,__ps_get_data
VP_MAIN(h_ps_get_ps)
{
    pstream_t out = ps_init(NULL, 0);
    size_t want;

    mk_ps();
    want = mk_want();
    if (vp_bool()) {
        int r = ps_get_ps(&g_ps, want, &out);

        VP_CHECK("succeeds iff there are enough bytes", r == (want <= g_n ? 0 : -1));
        VP_CHECK("the bytes", r < 0 ? out.p == NULL && SAME()
                 : IS(out, 0, want) && BEGIN(want));
    } else {
        const void *r = ps_get_data(&g_ps, want);

        VP_CHECK("the bytes", want > g_n ? r == NULL && SAME()
                 : r == g_b && BEGIN(want));
    }
    VP_REACH();
}
/* first/last occurrence of a character */
//@harness h_ps_chr prop=C04 about=ps_skip_uptochr,ps_skip_afterchr,ps_clip_atchr,ps_clip_afterchr,ps_get_ps_chr,ps_get_ps_chr_and_skip,ps_gets,ps_get_lstr
VP_MAIN(h_ps_chr)
{
    int how = vp_range(0, 7), r, len = -1;
    uint8_t c = vp_u8();
    pstream_t out = ps_init(NULL, 0);
    size_t at;
    const char *s;
    lstr_t l;

    mk_ps();
    switch (how) {
      case 0:
        r = ps_skip_uptochr(&g_ps, c);
        at = g_ps.b - g_b;
        break;
      case 1:
        r = ps_skip_afterchr(&g_ps, c);
        at = g_ps.b - g_b - (r == 0);
        break;
      case 2:
        r = ps_clip_atchr(&g_ps, c);
        at = g_ps.b_end - g_b;
        break;
      case 3:
        r = ps_clip_afterchr(&g_ps, c);
        at = g_ps.b_end - g_b - (r == 0);
        break;
      case 4:
        r = ps_get_ps_chr(&g_ps, c, &out);
        at = g_ps.b - g_b;
        break;
      case 5:
        r = ps_get_ps_chr_and_skip(&g_ps, c, &out);
        at = g_ps.b - g_b - (r == 0);
        break;
      case 6:
        c = 0;
        s = ps_gets(&g_ps, &len);
        r = s ? 0 : -1;
        at = g_ps.b - g_b - (r == 0);
        VP_CHECK("the string", !s || (s == (char *)g_b && len == (int)at));
        break;
      default:
        c = 0;
        l = ps_get_lstr(&g_ps);
        r = l.s ? 0 : -1;
        at = g_ps.b - g_b - (r == 0);
        VP_CHECK("the string", !l.s || (l.s == (char *)g_b && l.len == (int)at));
        VP_CHECK("null string on failure", l.s || l.len == 0);
        break;
    }
    if (r < 0) {
        VP_CHECK("unchanged on failure", r == -1 && SAME() && !out.p);
        VP_CHECK("fails only if absent", g_k >= g_n || g_b[g_k] != c);
    } else {
        VP_CHECK("at the character", r == 0 && at < g_n && g_b[at] == c);
        VP_CHECK("the first one", g_k >= at || g_b[g_k] != c);
        VP_CHECK("the window", how == 0 || how == 4 ? BEGIN(at)
                 : how == 2 ? END(at) : how == 3 ? END(at + 1)
                 : BEGIN(at + 1));
        VP_CHECK("the extract", (how != 4 && how != 5) || IS(out, 0, at));
    }
    VP_REACH();
}
//@harness h_ps_lastchr prop=C04 about=ps_clip_atlastchr,ps_clip_afterlastchr,ps_skip_afterlastchr,ps_get_ps_lastchr,ps_get_ps_lastchr_and_skip
VP_MAIN(h_ps_lastchr)
{
    int how = vp_range(0, 4), r;
    uint8_t c = vp_u8();
    pstream_t out = ps_init(NULL, 0);
    size_t at;

    mk_ps();
    switch (how) {
      case 0:
        r = ps_clip_atlastchr(&g_ps, c);
        at = g_ps.b_end - g_b;
        break;
      case 1:
        r = ps_clip_afterlastchr(&g_ps, c);
        at = g_ps.b_end - g_b - (r == 0);
        break;
      case 2:
        r = ps_skip_afterlastchr(&g_ps, c);
        at = g_ps.b - g_b - (r == 0);
        break;
      case 3:
        r = ps_get_ps_lastchr(&g_ps, c, &out);
        at = g_ps.b - g_b;
        break;
      default:
        r = ps_get_ps_lastchr_and_skip(&g_ps, c, &out);
        at = g_ps.b - g_b - (r == 0);
        break;
    }
    if (r < 0) {
        VP_CHECK("unchanged on failure", r == -1 && SAME() && !out.p);
        VP_CHECK("fails only if absent", g_k >= g_n || g_b[g_k] != c);
    } else {
        VP_CHECK("at the character", r == 0 && at < g_n && g_b[at] == c);
        VP_CHECK("the last one", g_k <= at || g_k >= g_n || g_b[g_k] != c);
        VP_CHECK("the window", how == 0 ? END(at) : how == 1 ? END(at + 1)
                 : how == 3 ? BEGIN(at) : BEGIN(at + 1));
        VP_CHECK("the extract", how < 3 || IS(out, 0, at));
    }
    VP_REACH();
}
//@harness h_ps_getc prop=C04 about=ps_getc,__ps_getc,ps_peekc,ps_skipc,__ps_skipc,ps_shrinkc,__ps_shrinkc,ps_hexdigit,ps_hexdecode
VP_MAIN(h_ps_getc)
{
    int how = vp_range(0, 3), r;
    uint8_t c = vp_u8();

    mk_ps();
    switch (how) {
      case 0:
        r = ps_getc(&g_ps);
        VP_CHECK("getc", g_n ? r == g_b[0] && BEGIN(1) : r == EOF && SAME());
        break;
      case 1:
        r = ps_peekc(g_ps);
        VP_CHECK("peekc", r == (g_n ? g_b[0] : EOF) && SAME());
        break;
      case 2:
        r = ps_skipc(&g_ps, c);
        VP_CHECK("skipc", g_n && g_b[0] == c ? r == 0 && BEGIN(1)
                 : r == -1 && SAME());
        break;
      default:
        r = ps_shrinkc(&g_ps, c);
        VP_CHECK("shrinkc", g_n && g_b[g_n - 1] == c
                 ? r == 0 && END(g_n - 1) : r == -1 && SAME());
        break;
    }
    VP_REACH();
}
/* prefix, suffix, equality, order against a word of any length */
//@harness h_ps_cmp prop=C04 about=ps_startswith,ps_endswith,ps_memequal,ps_is_equal,ps_cmp,ps_skipdata,ps_startswithlstr,ps_endswithlstr,ps_skiplstr
VP_MAIN(h_ps_cmp)
{
    int how = vp_range(0, 5), r;
    bool ok;
    size_t from, i;
    pstream_t w;

    mk_ps();
    mk_word();
    w = ps_init(g_w, g_wn);
    if (how == 4) {
        size_t m = MIN(g_n, g_wn);
#ifdef VP_PROOF
        r = ps_cmp(g_ps, w);
        if (vp_cmpi < m) {
            VP_CHECK("order: first difference",
                     g_b[vp_cmpi] < g_w[vp_cmpi] ? r < 0 : r > 0);
        } else {
            VP_CHECK("order: lengths", g_n < g_wn ? r < 0
                     : g_n > g_wn ? r > 0 : r == 0);
            VP_CHECK("order: same bytes", g_k >= m || g_b[g_k] == g_w[g_k]);
        }
#else
        r = ps_cmp(g_ps, w);
        for (i = 0; i < m && g_b[i] == g_w[i]; i++) {
        }
        VP_CHECK("order", i < m ? (g_b[i] < g_w[i] ? r < 0 : r > 0)
                 : g_n < g_wn ? r < 0 : g_n > g_wn ? r > 0 : r == 0);
#endif
        return;
    }
    ok = how == 0 ? ps_startswithlstr(&g_ps, LSTR_DATA_V(g_w, g_wn))
        : how == 1 ? ps_endswithlstr(&g_ps, LSTR_DATA_V(g_w, g_wn))
        : how == 2 ? ps_memequal(&g_ps, g_w, g_wn)
        : how == 3 ? ps_is_equal(g_ps, w)
        : ps_skiplstr(&g_ps, LSTR_DATA_V(g_w, g_wn)) == 0;
    from = how == 1 ? g_n - g_wn : 0;
    if (ok) {
        VP_CHECK("long enough", g_wn <= g_n);
        VP_CHECK("same length", g_wn == g_n || (how != 2 && how != 3));
        VP_CHECK("same bytes", g_k >= g_wn || g_b[from + g_k] == g_w[g_k]);
    } else
    if (g_wn > g_n || ((how == 2 || how == 3) && g_wn != g_n)) {
        /* lengths say no */
    } else {
#ifdef VP_PROOF
        VP_CHECK("a byte differs", vp_cmpi < g_wn
                 && g_b[from + vp_cmpi] != g_w[vp_cmpi]);
#else
        for (i = 0; i < g_wn && g_b[from + i] == g_w[i]; i++) {
        }
        VP_CHECK("a byte differs", i < g_wn);
#endif
    }
    VP_CHECK("the window", how == 5 && ok ? BEGIN(g_wn) : SAME());
    VP_REACH();
}
/* first occurrence of a word of any length */
//@harness h_ps_mem prop=C04 about=ps_skip_upto_data,ps_skip_after_data,ps_get_ps_upto_data,ps_get_ps_upto_data_and_skip
VP_MAIN(h_ps_mem)
{
    int how = vp_range(0, 3), r;
    pstream_t out = ps_init(NULL, 0);
    size_t at, i;

    mk_ps();
    mk_word();
    r = how == 0 ? ps_skip_upto_data(&g_ps, g_w, g_wn)
      : how == 1 ? ps_skip_after_data(&g_ps, g_w, g_wn)
      : how == 2 ? ps_get_ps_upto_data(&g_ps, g_w, g_wn, &out)
      : ps_get_ps_upto_data_and_skip(&g_ps, g_w, g_wn, &out);
    if (r < 0) {
        VP_CHECK("unchanged on failure", r == -1 && SAME() && !out.p);
        at = g_n;
    } else {
        at = g_ps.b - g_b - (how & 1 ? g_wn : 0);
        VP_CHECK("within", r == 0 && at <= g_n && g_wn <= g_n - at);
        VP_CHECK("the window", BEGIN(at + (how & 1 ? g_wn : 0)));
        VP_CHECK("the extract", how < 2 || IS(out, 0, at));
        VP_CHECK("the word is there", g_k >= g_wn || g_b[at + g_k] == g_w[g_k]);
    }
    if (g_wn <= g_n && g_k <= g_n - g_wn && g_k < at) {
#ifdef VP_PROOF
        VP_CHECK("no earlier occurrence", vp_mmi < g_wn
                 && g_b[g_k + vp_mmi] != g_w[vp_mmi]);
#else
        for (i = 0; i < g_wn && g_b[g_k + i] == g_w[i]; i++) {
        }
        VP_CHECK("no earlier occurrence", i < g_wn);
#endif
    }
    VP_REACH();
}
/* spans of a class of characters */
static ctype_desc_t g_d;
static void mk_desc(void)
{
    for (int i = 0; i < 8; i++) {
        g_d.tab[i] = vp_u64();
    }
}
#define IN(c)   ((g_d.tab[(c) >> 5] >> ((c) & 31)) & 1)
#define INV(d, c)   (((d)->tab[(c) >> 5] >> ((c) & 31)) & 1)
/* positions are those in g_b: all of [from, to) satisfies c */
#define PO(p_)   __CPROVER_POINTER_OFFSET(p_)
#define ALL(from, to, c)  (g_k + PO(g_b) < PO(from) || g_k + PO(g_b) >= PO(to) || (c))
#define INB(b_)  (__CPROVER_same_object(b_, ps->b) && PO(b_) >= PO(ps->b) && PO(b_) <= PO(ps->b_end))
//@loop ps_skip_span 0
//  __CPROVER_assigns(l)
//  __CPROVER_loop_invariant(l <= (size_t)(ps->b_end - ps->b))
//  __CPROVER_loop_invariant(ALL(ps->b, ps->b + l, INV(d, g_b[g_k])))
//  __CPROVER_decreases((size_t)(ps->b_end - ps->b) - l)
//@end
//@loop ps_skip_cspan 0
//  __CPROVER_assigns(l)
//  __CPROVER_loop_invariant(l <= (size_t)(ps->b_end - ps->b))
//  __CPROVER_loop_invariant(ALL(ps->b, ps->b + l, !INV(d, g_b[g_k])))
//  __CPROVER_decreases((size_t)(ps->b_end - ps->b) - l)
//@end
//@loop ps_get_span 0
//  __CPROVER_assigns(b)
//  __CPROVER_loop_invariant(INB(b))
//  __CPROVER_loop_invariant(ALL(ps->b, b, INV(d, g_b[g_k])))
//  __CPROVER_decreases(PO(ps->b_end) - PO(b))
//@end
//@loop ps_get_cspan 0
//  __CPROVER_assigns(b)
//  __CPROVER_loop_invariant(INB(b))
//  __CPROVER_loop_invariant(ALL(ps->b, b, !INV(d, g_b[g_k])))
//  __CPROVER_decreases(PO(ps->b_end) - PO(b))
//@end
//@loop ps_has_char_in_ctype 0
//  __CPROVER_assigns(b)
//  __CPROVER_loop_invariant(INB(b))
//  __CPROVER_loop_invariant(ALL(ps->b, b, !INV(d, g_b[g_k])))
//  __CPROVER_decreases(PO(ps->b_end) - PO(b))
//@end
//@loop ps_rtrim 0
//  __CPROVER_assigns(end)
//  __CPROVER_loop_invariant(INB(end))
//  __CPROVER_loop_invariant(ALL(end, ps->b_end, INV(&ctype_isspace, g_b[g_k])))
//  __CPROVER_decreases(PO(end) - PO(ps->b))
//@end
//@harness h_ps_span prop=C04 loops=yes about=ps_skip_span,ps_skip_cspan,ps_get_span,ps_get_cspan,ctype_desc_contains
VP_MAIN(h_ps_span)
{
    int how = vp_range(0, 3);
    size_t l;
    pstream_t out;

    mk_ps();
    mk_desc();
    switch (how) {
      case 0:
        l = ps_skip_span(&g_ps, &g_d);
        break;
      case 1:
        l = ps_skip_cspan(&g_ps, &g_d);
        break;
      case 2:
        out = ps_get_span(&g_ps, &g_d);
        l = g_ps.b - g_b;
        VP_CHECK("the extract", IS(out, 0, l));
        break;
      default:
        out = ps_get_cspan(&g_ps, &g_d);
        l = g_ps.b - g_b;
        VP_CHECK("the extract", IS(out, 0, l));
        break;
    }
    VP_CHECK("within", l <= g_n);
    VP_CHECK("the window", BEGIN(l));
    VP_CHECK("all in the span", g_k >= l || !IN(g_b[g_k]) == (how & 1));
    VP_CHECK("maximal", l == g_n || !IN(g_b[l]) != (how & 1));
    VP_REACH();
}
//@harness h_ps_has_char prop=C04 loops=yes about=ps_has_char_in_ctype
VP_MAIN(h_ps_has_char)
{
    mk_ps();
    mk_desc();
    if (ps_has_char_in_ctype(&g_ps, &g_d)) {
#ifndef VP_PROOF
        size_t i;

        for (i = 0; i < g_n && !IN(g_b[i]); i++) {
        }
        VP_CHECK("some character is in the class", i < g_n);
#else
        VP_CHECK("some character is there", g_n > 0);
#endif
    } else {
        VP_CHECK("no character is in the class", g_k >= g_n || !IN(g_b[g_k]));
    }
    VP_CHECK("unchanged", SAME());
    VP_REACH();
}
//@harness h_ps_tok prop=C04 loops=yes about=ps_get_tok
VP_MAIN(h_ps_tok)
{
    pstream_t out;
    size_t a, z;

    mk_ps();
    mk_desc();
    out = ps_get_tok(&g_ps, &g_d);
    a = out.b_end - g_b;
    z = g_ps.b - g_b;
    VP_CHECK("within", a <= z && z <= g_n);
    VP_CHECK("the windows", BEGIN(z) && IS(out, 0, a));
    VP_CHECK("no separator in the token", g_k >= a || !IN(g_b[g_k]));
    VP_CHECK("stops at a separator", a == g_n || (IN(g_b[a]) && z > a));
    VP_CHECK("only separators are skipped", g_k < a || g_k >= z || IN(g_b[g_k]));
    VP_CHECK("all separators are skipped", z == g_n || !IN(g_b[z]));
    VP_REACH();
}
#define ISSP(c)  ((c) == ' ' || ((c) >= 9 && (c) <= 13))
//@harness h_ps_trim prop=C04 loops=yes about=ps_ltrim,ps_rtrim,ps_trim,ctype_isspace
VP_MAIN(h_ps_trim)
{
    int how = vp_range(0, 2);
    size_t l, a, z;

    mk_ps();
    l = how == 0 ? ps_ltrim(&g_ps) : how == 1 ? ps_rtrim(&g_ps)
        : ps_trim(&g_ps);
    a = g_ps.b - g_b;
    z = g_ps.b_end - g_b;
    VP_CHECK("within", a <= z && z <= g_n);
    VP_CHECK("returns what is removed", l == a + g_n - z);
    VP_CHECK("the side", (how != 0 || z == g_n) && (how != 1 || a == 0));
    VP_CHECK("only spaces on the left", g_k >= a || ISSP(g_b[g_k]));
    VP_CHECK("only spaces on the right", g_k < z || g_k >= g_n
             || ISSP(g_b[g_k]));
    VP_CHECK("no space left at the start", how == 1 || a == z || !ISSP(g_b[a]));
    VP_CHECK("no space left at the end", how == 0 || a == z
             || !ISSP(g_b[z - 1]));
    VP_REACH();
}
/* case-insensitive */
#define LOW(c)  ((c) >= 'A' && (c) <= 'Z' ? (c) + 32 : (c))
//@loop ps_memcaseequal 0
//  __CPROVER_assigns(i)
//  __CPROVER_loop_invariant(i <= len)
//  __CPROVER_loop_invariant(g_k >= i || LOW(g_b[g_k]) == LOW(g_w[g_k]))
//  __CPROVER_decreases(len - i)
//@end
//@loop ps_skipcasedata 0
//  __CPROVER_assigns(i)
//  __CPROVER_loop_invariant(i >= 0 && i <= len)
//  __CPROVER_loop_invariant(g_k >= (size_t)i || LOW(g_b[g_k]) == LOW(g_w[g_k]))
//  __CPROVER_decreases(len - i)
//@end
//@harness h_ps_case prop=C04 loops=yes about=ps_memcaseequal,ps_skipcasedata
VP_MAIN(h_ps_case)
{
    bool skip = vp_bool(), ok;

    mk_ps();
    mk_word();
    if (skip) {
        int r = ps_skipcasedata(&g_ps, (char *)g_w, g_wn);

        ok = r == 0;
        VP_CHECK("result", ok || r == -1);
        VP_CHECK("the window", ok ? BEGIN(g_wn) : SAME());
    } else {
        ok = ps_memcaseequal(&g_ps, (char *)g_w, g_wn);
    }
    if (ok) {
        VP_CHECK("lengths", skip ? g_wn <= g_n : g_wn == g_n);
        VP_CHECK("same letters", g_k >= g_wn
                 || LOW(g_b[g_k]) == LOW(g_w[g_k]));
    } else {
#ifndef VP_PROOF
        size_t i;

        for (i = 0; i < g_wn && i < g_n && LOW(g_b[i]) == LOW(g_w[i]); i++) {
        }
        VP_CHECK("differs", skip ? i < g_wn : i < g_wn || g_n != g_wn);
#endif
    }
    VP_REACH();
}
//@harness h_ps_hex prop=C04 unwind=5 about=ps_hex16,ps_hexdigit,ps_hexdecode
#define HEXV(c)  ((c) >= '0' && (c) <= '9' ? (c) - '0'                       \
                  : (c) >= 'a' && (c) <= 'f' ? (c) - 'a' + 10                \
                  : (c) >= 'A' && (c) <= 'F' ? (c) - 'A' + 10 : -1)
VP_MAIN(h_ps_hex)
{
    uint16_t res = 0;
    int how = vp_range(0, 2), len, r, v = 0, i;

    mk_ps();
    if (how == 0) {
        len = vp_range(0, 5);
        r = ps_hex16(&g_ps, len, &res);
        if (len > 4 || (size_t)len > g_n) {
            v = -1;
        } else {
            for (i = 0; i < len && v >= 0; i++) {
                v = HEXV(g_b[i]) < 0 ? -1 : v * 16 + HEXV(g_b[i]);
            }
        }
        VP_CHECK("hex16", v < 0 ? r == -1 && SAME()
                 : r == 0 && BEGIN(len) && res == v);
    } else
    if (how == 1) {
        r = ps_hexdigit(&g_ps);
        VP_CHECK("hexdigit", g_n < 1 ? r == -1 && SAME()
                 : BEGIN(1) && r == HEXV(g_b[0]));
    } else {
        r = ps_hexdecode(&g_ps);
        VP_CHECK("hexdecode", g_n < 2 ? r == -1 && SAME()
                 : BEGIN(2) && (HEXV(g_b[0]) < 0 || HEXV(g_b[1]) < 0 ? r < 0
                                : r == HEXV(g_b[0]) * 16 + HEXV(g_b[1])));
    }
    VP_REACH();
}
//@harness h_ps_ctype prop=C04 unwind=40 about=ctype_desc_build2,ctype_desc_combine,ctype_desc_invert
VP_MAIN(h_ps_ctype)
{
    ctype_desc_t a, b, c;
    uint8_t toks[8], x = vp_u8();
    bool ina = false, inb;
    int n = vp_range(0, 8);

    for (int i = 0; i < 8; i++) {
        toks[i] = vp_u8();
        ina = ina || (i < n && toks[i] == x);
    }
    mk_desc();
    b = g_d;
    inb = IN(x);
    ctype_desc_build2(&a, (char *)toks, n);
    VP_CHECK("build", ctype_desc_contains(&a, x) == ina);
    ctype_desc_combine(&c, &a, &b);
    VP_CHECK("combine", ctype_desc_contains(&c, x) == (ina || inb));
    ctype_desc_invert(&c);
    VP_CHECK("invert", ctype_desc_contains(&c, x) == !(ina || inb));
    VP_REACH();
}
/* predefined classes are the C-locale ones */
//@harness h_ps_ctype_std prop=C04 about=ctype_isalnum,ctype_isalpha,ctype_isdigit,ctype_isspace,ctype_ishexdigit
VP_MAIN(h_ps_ctype_std)
{
    uint8_t x = vp_u8();
    bool d = x >= '0' && x <= '9', u = x >= 'A' && x <= 'Z',
         l = x >= 'a' && x <= 'z';

    VP_CHECK("digit", ctype_desc_contains(&ctype_isdigit, x) == d);
    VP_CHECK("upper", ctype_desc_contains(&ctype_isupper, x) == u);
    VP_CHECK("lower", ctype_desc_contains(&ctype_islower, x) == l);
    VP_CHECK("alpha", ctype_desc_contains(&ctype_isalpha, x) == (u || l));
    VP_CHECK("alnum", ctype_desc_contains(&ctype_isalnum, x) == (u || l || d));
    VP_CHECK("space", ctype_desc_contains(&ctype_isspace, x) == ISSP(x));
    VP_CHECK("hex digit", ctype_desc_contains(&ctype_ishexdigit, x)
             == (HEXV(x) >= 0));
    VP_CHECK("bin digit", ctype_desc_contains(&ctype_isbindigit, x)
             == (x == '0' || x == '1'));
    VP_CHECK("C identifier", ctype_desc_contains(&ctype_iscvar, x)
             == (u || l || d || x == '_'));
    VP_REACH();
}
/* scatter copy */
//@harness h_ps_copyv prop=C04 kind=bounded bound="4 buffers, 12 bytes" bmc=no search=3 about=ps_copyv
VP_MAIN(h_ps_copyv)
{
    struct iovec iov[4];
    size_t cnt = vp_range(0, 4), in = cnt, room = 0, i, pos = 0;
    size_t sz[4];
    int fl = vp_bool() ? MSG_TRUNC : 0, f0 = fl, r;
    bool wf = vp_bool();

    mk_ps();
    for (i = 0; i < cnt; i++) {
        sz[i] = vp_range(0, 5);
        iov[i].iov_base = vp_alloc(sz[i]);
        iov[i].iov_len = sz[i];
        room += sz[i];
    }
    r = ps_copyv(&g_ps, iov, &cnt, wf ? &fl : NULL);
    VP_CHECK("no more buffers than given", cnt <= in);
    for (i = 0; i < cnt; i++) {
        VP_CHECK("buffer not overrun", iov[i].iov_len <= sz[i]);
        VP_CHECK("its bytes", !memcmp(iov[i].iov_base, g_b + pos,
                                      iov[i].iov_len));
        pos += iov[i].iov_len;
    }
    VP_CHECK("copies what fits", pos == MIN(room, g_n));
    VP_CHECK("skips what was copied", BEGIN(pos));
    if (wf) {
        VP_CHECK("truncation flag", !!(fl & MSG_TRUNC) == (room < g_n));
    }
    VP_CHECK("returns", r == (int)(wf && (f0 || room >= g_n) ? g_n : pos));
}
//@harness h_ps_str prop=C04 kind=bounded bound="12 bytes" bmc=no search=2 about=ps_initstr,ps_startswithstr,ps_endswithstr,ps_strequal,ps_skipstr,ps_skipcasestr,ps_skip_upto_str,ps_skip_after_str,ps_get_ps_upto_str,ps_get_ps_upto_str_and_skip
VP_MAIN(h_ps_str)
{
    static char w[8];
    size_t n, i;
    pstream_t a, b, oa, ob;
    int how = vp_range(0, 8);

    mk_ps();
    n = vp_range(0, 3);
    for (i = 0; i < n; i++) {
        w[i] = g_n ? g_b[vp_range(0, g_n - 1)] : 'x';
        if (!w[i]) w[i] = 1;
    }
    w[n] = 0;
    a = b = g_ps;
    oa = ob = ps_init(NULL, 0);
    switch (how) {
      case 0:
        VP_CHECK("startswithstr", ps_startswithstr(&a, w)
                 == ps_startswith(&a, w, n));
        break;
      case 1:
        VP_CHECK("endswithstr", ps_endswithstr(&a, w)
                 == ps_endswith(&a, w, n));
        break;
      case 2:
        VP_CHECK("strequal", ps_strequal(&a, w) == ps_memequal(&a, w, n));
        break;
      case 3:
        VP_CHECK("skipstr", ps_skipstr(&a, w) == ps_skipdata(&b, w, n));
        break;
      case 4:
        VP_CHECK("skipcasestr", ps_skipcasestr(&a, w)
                 == ps_skipcasedata(&b, w, n));
        break;
      case 5:
        VP_CHECK("skip_upto_str", ps_skip_upto_str(&a, w)
                 == ps_skip_upto_data(&b, w, n));
        break;
      case 6:
        VP_CHECK("skip_after_str", ps_skip_after_str(&a, w)
                 == ps_skip_after_data(&b, w, n));
        break;
      case 7:
        VP_CHECK("get_ps_upto_str", ps_get_ps_upto_str(&a, w, &oa)
                 == ps_get_ps_upto_data(&b, w, n, &ob));
        break;
      default:
        VP_CHECK("get_ps_upto_str_and_skip",
                 ps_get_ps_upto_str_and_skip(&a, w, &oa)
                 == ps_get_ps_upto_data_and_skip(&b, w, n, &ob));
        break;
    }
    VP_CHECK("same windows", a.p == b.p && a.p_end == b.p_end
             && oa.p == ob.p && oa.p_end == ob.p_end);
    VP_CHECK("initstr", ps_initstr(w).s == w && ps_initstr(w).s_end == w + n);
}
