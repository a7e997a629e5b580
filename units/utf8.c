/* UTF-8 coding, and the conversions built on it. */
//@trusted allocator model units/vp_mem.h
#define VP_WANT_STUBS
#include "vp.h"
#include "vp_track.h"
static const uint8_t *g_s;      /* the bytes */
static size_t g_n;
#include "vp_mem.h"
#include <lib-common/core.h>
#include <lib-common/arith.h>
#include "src/core/str-conv.c"
#include "src/core/str-buf.c"
#include "src/core/str-num.c"

#define BN  10

/* the encoding, from its definition */
static int enc(uint32_t c, uint8_t out[4])
{
    if (c < 0x80) {
        out[0] = c;
        return 1;
    }
    if (c < 0x800) {
        out[0] = 0xc0 | c >> 6;
        out[1] = 0x80 | (c & 63);
        return 2;
    }
    if (c < 0x10000) {
        out[0] = 0xe0 | c >> 12;
        out[1] = 0x80 | (c >> 6 & 63);
        out[2] = 0x80 | (c & 63);
        return 3;
    }
    out[0] = 0xf0 | c >> 18;
    out[1] = 0x80 | (c >> 12 & 63);
    out[2] = 0x80 | (c >> 6 & 63);
    out[3] = 0x80 | (c & 63);
    return 4;
}
/* the decoding: -1, or the value and *adv */
static int dec(const uint8_t *s, size_t n, int *adv)
{
    int l, v, i;

    if (!n) {
        return -1;
    }
    if (s[0] < 0x80) {
        *adv = 1;
        return s[0];
    }
    if (s[0] < 0xc0 || s[0] >= 0xf8) {
        return -1;
    }
    l = s[0] < 0xe0 ? 2 : s[0] < 0xf0 ? 3 : 4;
    if (n < (size_t)l) {
        return -1;
    }
    v = s[0] & (0x7f >> l);
    for (i = 1; i < 4; i++) {
        if (i < l) {
            if ((s[i] & 0xc0) != 0x80) {
                return -1;
            }
            v = v << 6 | (s[i] & 63);
        }
    }
    *adv = l;
    return v;
}
/* bytes: arbitrary, or encodings of arbitrary characters */
static void mk(size_t pmax, size_t bmax)
{
    g_n = VP_LEN(pmax, bmax);
    g_s = vp_buf(g_n, bmax);
#ifdef VP_NATIVE
    if (vp_bool()) {
        size_t at = 0;
        uint8_t t[4];

        while (at < g_n) {
            int w = vp_range(0, 5);
            uint32_t c = w == 0 ? vp_range(0, 0x7f)
                : w == 1 ? vp_range(0, 0x1ff)
                : w == 2 ? vp_range(0, 0x7ff)
                : w == 3 ? vp_range(0, 0xffff) : w == 4 ? vp_range('A', 'z')
                : vp_range(0, 0x1fffff);
            int l = enc(c, t);

            if (vp_range(0, 15) == 0) {
                ((uint8_t *)g_s)[at++] = vp_u8();
                continue;
            }
            if (at + l > g_n && vp_bool()) {
                break;
            }
            for (int i = 0; i < l && at < g_n; i++) {
                ((uint8_t *)g_s)[at++] = t[i];
            }
        }
    }
#endif
}

//@harness h_utf8_put prop=C05 unwind=5 about=__pstrputuc,sb_adduc,utf8_getc
VP_MAIN(h_utf8_put)
{
    uint32_t c = vp_range(0, 0x1fffff);
    uint8_t e[4], *buf;
    int l = enc(c, e), i = vp_range(0, 3), r;
    const char *out = NULL;

    buf = vp_alloc(l);
    r = __pstrputuc((char *)buf, c);
    VP_CHECK("length of the encoding", r == l);
    VP_CHECK("bytes of the encoding", i >= l || buf[i] == e[i]);
    VP_CHECK("decodes to the character", utf8_getc((char *)buf, &out) == (int)c);
    VP_CHECK("at the end of the encoding", out == (char *)buf + l);
    VP_REACH();
}
//@harness h_utf8_putbig prop=C05 about=__pstrputuc
VP_MAIN(h_utf8_putbig)
{
    uint32_t c = vp_range(0x200000, 0x7fffffff);
    uint8_t *buf = vp_alloc(1);

    VP_CHECK("nothing is written for what is not a character",
             __pstrputuc((char *)buf, c) == 0);
    VP_REACH();
}
//@harness h_utf8_get prop=C05 unwind=5 about=utf8_charlen,utf8_ngetc,utf8_getc_slow,utf8_ngetc_at,ps_getuc,ps_peekuc
VP_MAIN(h_utf8_get)
{
    int how = vp_range(0, 3), adv = 0, v, r, at;
    const char *out = NULL;
    pstream_t ps;

    mk(64, BN);
    at = how == 1 ? vp_range(0, g_n) : 0;
    v = dec(g_s + at, g_n - at, &adv);
    switch (how) {
      case 0:
        r = utf8_ngetc((char *)g_s, g_n, &out);
        VP_CHECK("decodes", r == v);
        VP_CHECK("moves past the character", v < 0 ? out == NULL
                 : out == (char *)g_s + adv);
        break;
      case 1: {
        int off = at;

        r = utf8_ngetc_at((char *)g_s, g_n, &off);
        VP_CHECK("decodes at", r == v && off == (v < 0 ? at : at + adv));
      } break;
      case 2:
        r = utf8_charlen((char *)g_s, g_n);
        VP_CHECK("length", r == (v < 0 ? 0 : adv));
        break;
      default:
        ps = ps_init(g_s, g_n);
        VP_CHECK("peeks", ps_peekuc(ps) == v);
        r = ps_getuc(&ps);
        VP_CHECK("gets", r == v && ps.b == g_s + (v < 0 ? 0 : adv)
                 && ps.b_end == g_s + g_n);
        break;
    }
    VP_REACH();
}
#define PO(p_)  __CPROVER_POINTER_OFFSET(p_)
//@loop utf8_skip_valid 0
//  __CPROVER_assigns(s)
//  __CPROVER_loop_invariant(__CPROVER_same_object(s, end) && PO(s) <= PO(end))
//  __CPROVER_decreases(PO(end) - PO(s))
//@end
//@loop utf8_strnlen 0
//  __CPROVER_assigns(s, len)
//  __CPROVER_loop_invariant(__CPROVER_same_object(s, end) && PO(s) <= PO(end) && len <= PO(s))
//  __CPROVER_decreases(PO(end) - PO(s))
//@end
//@harness h_utf8_skip prop=C05 solver=cadical loops=yes unwind=5 about=utf8_skip_valid,utf8_strnlen
VP_MAIN(h_utf8_skip)
{
    int adv = 0;

    mk(100000, 24);
    if (vp_bool()) {
        const char *r = utf8_skip_valid((char *)g_s, (char *)g_s + g_n);
        size_t at = r - (char *)g_s;

        VP_CHECK("within", at <= g_n);
        VP_CHECK("stops at the end or at an invalid byte", at == g_n
                 || dec(g_s + at, g_n - at, &adv) < 0);
#ifndef VP_PROOF
        for (size_t i = 0; i < at; i += adv) {
            VP_CHECK("all before is valid",
                     dec(g_s + i, g_n - i, &adv) >= 0);
            if (dec(g_s + i, g_n - i, &adv) < 0) break;
        }
#endif
    } else {
        ssize_t r = utf8_strnlen((char *)g_s, g_n);

        VP_CHECK("at most one character per byte", r >= -1
                 && r <= (ssize_t)g_n);
#ifndef VP_PROOF
        ssize_t e = 0;
        for (size_t i = 0; i < g_n; i += adv) {
            if (dec(g_s + i, g_n - i, &adv) < 0) {
                e = -1;
                break;
            }
            e++;
        }
        VP_CHECK("number of characters, or -1", r == e);
#endif
    }
    VP_REACH();
}
/* case and collation tables stay in the basic plane and are idempotent */
//@harness h_utf8_tables prop=C05 about=unicode_toupper,unicode_tolower
VP_MAIN(h_utf8_tables)
{
    int c = vp_range(0, 0x1fffff), u = unicode_toupper(c),
        l = unicode_tolower(c);

    VP_CHECK("ASCII upper", c >= 128 || u == (c >= 'a' && c <= 'z' ? c - 32 : c));
    VP_CHECK("ASCII lower", c >= 128 || l == (c >= 'A' && c <= 'Z' ? c + 32 : c));
    VP_CHECK("upper is stable", unicode_toupper(u) == u);
    VP_CHECK("lower is stable", unicode_tolower(l) == l);
    VP_CHECK("other planes untouched", c < 512 || (u == c && l == c));
    VP_REACH();
}
/* {{{ strings: bounded */
static uint8_t g_e[256];
static int g_en;
static void e_put(uint32_t c)
{
    g_en += enc(c, g_e + g_en);
}
static sb_t g_sb;
static int g_pre;
static void mk_sb(void)
{
    static char stk[24];

    if (vp_bool()) {
        sb_init(&g_sb);
    } else {
        sb_init_full(&g_sb, stk, 0, vp_range(1, 24), &mem_pool_static);
        stk[0] = 0;
    }
    g_pre = vp_range(0, 5);
    sb_addnc(&g_sb, g_pre, '!');
    g_en = 0;
}
static void sb_is(void)
{
    int i;

    VP_CHECK("terminated", g_sb.len < g_sb.size && !g_sb.data[g_sb.len]);
    for (i = 0; i < g_pre && i < g_sb.len && g_sb.data[i] == '!'; i++) {
    }
    VP_CHECK("what was there is kept", i == g_pre);
    VP_CHECK("the converted text", g_sb.len == g_pre + g_en
             && !memcmp(g_sb.data + g_pre, g_e, g_en));
}
/* cp1252 / latin9 code points of the standard */
static const uint16_t cp1252[32] = {
    0x20ac, 0x81, 0x201a, 0x192, 0x201e, 0x2026, 0x2020, 0x2021,
    0x2c6, 0x2030, 0x160, 0x2039, 0x152, 0x8d, 0x17d, 0x8f,
    0x90, 0x2018, 0x2019, 0x201c, 0x201d, 0x2022, 0x2013, 0x2014,
    0x2dc, 0x2122, 0x161, 0x203a, 0x153, 0x9d, 0x17e, 0x178
};
static int latin9(int c)
{
    switch (c) {
      case 0xa4: return 0x20ac;
      case 0xa6: return 0x160;
      case 0xa8: return 0x161;
      case 0xb4: return 0x17d;
      case 0xb8: return 0x17e;
      case 0xbc: return 0x152;
      case 0xbd: return 0x153;
      case 0xbe: return 0x178;
    }
    return c;
}
//@harness h_utf8_latin prop=C05 kind=bounded bound="24 bytes" bmc=no search=4 about=sb_conv_from_latin1,sb_conv_from_latin9,sb_conv_to_latin1
VP_MAIN(h_utf8_latin)
{
    int how = vp_range(0, 2), adv = 0, rep, r, er = 0;
    size_t i;

    mk(24, 24);
    mk_sb();
    if (how < 2) {
        for (i = 0; i < g_n; i += adv) {
            int c = dec(g_s + i, g_n - i, &adv);

            if (c >= 0) {
                memcpy(g_e + g_en, g_s + i, adv);
                g_en += adv;
                continue;
            }
            c = g_s[i];
            adv = 1;
            c = c < 0xa0 ? cp1252[c & 31] : how ? latin9(c) : c;
            e_put(c);
        }
        if (how) {
            sb_conv_from_latin9(&g_sb, g_s, g_n);
        } else {
            sb_conv_from_latin1(&g_sb, g_s, g_n);
        }
        sb_is();
        return;
    }
    rep = (int)vp_range(0, 2) == 0 ? -1 : vp_bool() ? 0 : '?';
    for (i = 0; i < g_n; i += adv) {
        int c = dec(g_s + i, g_n - i, &adv);

        if (c < 0 || (c >= 256 && rep < 0)) {
            er = -1;
            g_en = 0;
            break;
        }
        if (c >= 256) {
            if (!rep) {
                continue;
            }
            c = rep;
        }
        g_e[g_en++] = c;
    }
    r = sb_conv_to_latin1(&g_sb, g_s, g_n, rep);
    VP_CHECK("result", r == er);
    sb_is();
}
//@harness h_utf8_ucs2 prop=C05 kind=bounded bound="24 bytes" bmc=no search=4 about=sb_conv_to_ucs2le,sb_conv_to_ucs2be,sb_conv_to_ucs2be_hex,sb_conv_from_ucs2be_hex,sb_conv_from_ucs2le_hex
VP_MAIN(h_utf8_ucs2)
{
    static const char hx[] = "0123456789ABCDEF";
    int how = vp_range(0, 4), adv = 0, r, er = 0, j;
    size_t i;

    mk(24, 24);
    mk_sb();
    if (how < 3) {
        for (i = 0; i < g_n; i += adv) {
            int c = dec(g_s + i, g_n - i, &adv);

            if (c < 0) {
                c = g_s[i];
                adv = 1;
            }
            if (c > 0xffff) {
                er = -1;
                g_en = 0;
                break;
            }
            if (how == 2) {
                for (j = 12; j >= 0; j -= 4) {
                    g_e[g_en++] = hx[c >> j & 15];
                }
            } else {
                g_e[g_en++] = how ? c >> 8 : c;
                g_e[g_en++] = how ? c : c >> 8;
            }
        }
        r = how == 0 ? sb_conv_to_ucs2le(&g_sb, g_s, g_n)
            : how == 1 ? sb_conv_to_ucs2be(&g_sb, g_s, g_n)
            : sb_conv_to_ucs2be_hex(&g_sb, g_s, g_n);
        VP_CHECK("result", r == er);
        sb_is();
        return;
    }
    for (i = 0; i < g_n; i++) {
        if (vp_range(0, 40)) {
            ((uint8_t *)g_s)[i] = hx[g_s[i] & 15];
        }
    }
    if (g_n % 4) {
        er = -1;
    }
    for (i = 0; i + 4 <= g_n && er == 0; i += 4) {
        int d[4];

        for (j = 0; j < 4; j++) {
            uint8_t x = g_s[i + j];

            d[j] = x >= '0' && x <= '9' ? x - '0'
                : x >= 'A' && x <= 'F' ? x - 'A' + 10
                : x >= 'a' && x <= 'f' ? x - 'a' + 10 : -1;
            if (d[j] < 0) {
                er = -1;
            }
        }
        if (er == 0) {
            e_put(how == 3 ? d[0] << 12 | d[1] << 8 | d[2] << 4 | d[3]
                  : d[2] << 12 | d[3] << 8 | d[0] << 4 | d[1]);
        }
    }
    if (er) {
        g_en = 0;
    }
    r = how == 3 ? sb_conv_from_ucs2be_hex(&g_sb, g_s, g_n)
        : sb_conv_from_ucs2le_hex(&g_sb, g_s, g_n);
    VP_CHECK("result", r == er);
    sb_is();
}
//@harness h_utf8_case prop=C05 kind=bounded bound="24 bytes" bmc=no search=3 about=sb_add_utf8_tolower,sb_add_utf8_toupper,sb_normalize_utf8
VP_MAIN(h_utf8_case)
{
    int how = vp_range(0, 3), adv = 0, r, er = 0;
    size_t i;

    mk(24, 24);
    mk_sb();
    for (i = 0; i < g_n; i += adv) {
        int c = dec(g_s + i, g_n - i, &adv);
        uint32_t k;

        if (c < 0) {
            c = g_s[i];
            adv = 1;
        }
        if (c > 0xffff) {
            er = -1;
            g_en = 0;
            break;
        }
        switch (how) {
          case 0: e_put(unicode_tolower(c)); break;
          case 1: e_put(unicode_toupper(c)); break;
          default:
            k = c >= 512 ? c : how == 2 ? __str_unicode_general_ci[c]
                : __str_unicode_general_cs[c];
            e_put(k & 0xffff);
            if (k >> 16) {
                e_put(k >> 16);
            }
            break;
        }
    }
    r = how == 0 ? sb_add_utf8_tolower(&g_sb, (char *)g_s, g_n)
        : how == 1 ? sb_add_utf8_toupper(&g_sb, (char *)g_s, g_n)
        : sb_normalize_utf8(&g_sb, (char *)g_s, g_n, how == 2);
    VP_CHECK("result", r == er);
    sb_is();
}
/* collation: equal iff the collation characters are, antisymmetric */
static int keys(const uint8_t *s, size_t n, bool ci, bool strip, uint32_t *k)
{
    int adv = 0, nk = 0;

    for (size_t i = 0; i < n; i += adv) {
        int c = dec(s + i, n - i, &adv);
        uint32_t x;

        if (c < 0) {
            c = s[i];
            adv = 1;
        }
        x = c >= 512 ? (uint32_t)c : ci ? __str_unicode_general_ci[c]
            : __str_unicode_general_cs[c];
        if (c >= 512) {
            k[nk++] = x;
            continue;
        }
        k[nk++] = x & 0xffff;
        if (x >> 16) {
            k[nk++] = x >> 16;
        }
    }
    while (strip && nk && k[nk - 1] == ' ') {
        nk--;
    }
    return nk;
}
//@harness h_utf8_cmp prop=C05 kind=bounded bound="10 bytes" bmc=no search=6 about=utf8_stricmp,utf8_strcmp,utf8_str_istartswith,utf8_str_startswith
VP_MAIN(h_utf8_cmp)
{
    static uint32_t k1[64], k2[64];
    const uint8_t *s1, *s2;
    size_t n1, n2;
    bool ci = vp_bool(), strip = vp_bool();
    int r, q, l1, l2, i;

    mk(BN, BN);
    s1 = g_s; n1 = g_n;
    if (vp_bool()) {
        mk(BN, BN);
    } else {
        /* same letters, other case or spaces */
        uint8_t *p;

        g_n = n1;
        p = vp_alloc(n1);
        for (size_t j = 0; j < n1; j++) {
            p[j] = s1[j] ^ (s1[j] >= 'A' && s1[j] < 0x7f && vp_bool() ? 32 : 0);
        }
        g_s = p;
    }
    s2 = g_s; n2 = g_n;
    for (size_t j = 0; j < n1; j++) VP_ASSUME(s1[j]);
    for (size_t j = 0; j < n2; j++) VP_ASSUME(s2[j]);
    r = ci ? utf8_stricmp((char *)s1, n1, (char *)s2, n2, strip)
        : utf8_strcmp((char *)s1, n1, (char *)s2, n2, strip);
    q = ci ? utf8_stricmp((char *)s2, n2, (char *)s1, n1, strip)
        : utf8_strcmp((char *)s2, n2, (char *)s1, n1, strip);
    VP_CHECK("-1, 0 or 1", r >= -1 && r <= 1);
    VP_CHECK("antisymmetric", r == -q);
    l1 = keys(s1, n1, ci, strip, k1);
    l2 = keys(s2, n2, ci, strip, k2);
    VP_CHECK("equal iff the collation characters are",
             (r == 0) == (l1 == l2 && !memcmp(k1, k2, 4 * l1)));
    l1 = keys(s1, n1, ci, false, k1);
    l2 = keys(s2, n2, ci, false, k2);
    r = ci ? utf8_str_istartswith((char *)s1, n1, (char *)s2, n2)
        : utf8_str_startswith((char *)s1, n1, (char *)s2, n2);
    for (i = 0; i < l1 && i < l2 && k1[i] == k2[i]; i++) {
    }
    {
        /* what ends between two collation letters is no prefix: the
         * characters are compared, not their halves */
        size_t at = 0;
        int adv = 1;

        for (; at < n2 && at < n1; at += adv) {
            if (dec(s1 + at, n1 - at, &adv) < 0) {
                adv = 1;
            }
        }
        VP_CHECK("a prefix is found", at != n2 || n2 > n1
                 || memcmp(s1, s2, n2) || r);
    }
    VP_CHECK("what does not match is no prefix", i == l2 || !r);
}
/* }}} */
