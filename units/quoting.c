/* Quoting, escaping and binary-to-text codings. */
//@trusted allocator model units/vp_mem.h
//@link src/core/str-ctype.c src/core/str-conv.c src/core/str-num.c src/core/str-stream.c src/container/qvector.blk src/core/str-l.c
#define VP_WANT_STUBS
#include "vp.h"
#include "vp_mem.h"
#include <lib-common/core.h>
#include "src/core/str-buf-quoting.c"
#include "src/core/str-buf.c"
#ifdef VP_NATIVE
# include "vp_out.h"
void dsort64(uint64_t base[], size_t n)
{
    for (size_t i = 1; i < n; i++) {
        for (size_t j = i; j && base[j - 1] > base[j]; j--) {
            SWAP(uint64_t, base[j - 1], base[j]);
        }
    }
}
#else
# include "src/core/str-conv.c"
#endif

#define BN 20
static int hexv(int c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10
        : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
static int b64v(int c, bool url)
{
    return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26
        : c >= '0' && c <= '9' ? c - '0' + 52
        : c == (url ? '-' : '+') ? 62 : c == (url ? '_' : '/') ? 63 : 255;
}
//@harness h_quot_tables prop=C13 about=hexdigit,hexdecode,__b64,__b64url,__decode_base64,__decode_base64url,__str_url_invalid,test_xml_printable,test_quoted_printable
VP_MAIN(h_quot_tables)
{
    int c = vp_u8(), v = vp_range(0, 63), d = vp_u8();
    char s[2] = { c, d };

    VP_CHECK("hexdigit", hexdigit((char)c) == hexv((char)c));
    VP_CHECK("hexdecode", hexv((char)c) < 0 || hexv((char)d) < 0
             ? hexdecode(s) < 0
             : hexdecode(s) == hexv(c) * 16 + hexv(d));
    VP_CHECK("base64 digits", __decode_base64[c] == b64v(c, false)
             && __decode_base64url[c] == b64v(c, true));
    VP_CHECK("base64 letters", b64v(__b64[v], false) == v
             && b64v(__b64url[v], true) == v);
    VP_CHECK("upper digits", v >= 16
             || (hexv(__str_digits_upper[v]) == v
                 && (__str_digits_upper[v] < 'a')));
    VP_CHECK("what an URL may hold unescaped",
             __str_url_invalid[c] == ((c >= '0' && c <= '9')
                 || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')
                 || c == '-' || c == '.' || c == '/' || c == '_' ? c : 255));
    VP_CHECK("XML markup is not printed as is", !test_xml_printable(c)
             == (c == '<' || c == '>' || c == '&' || c == '"' || c == '\''
                 || (c < 32 && c != '\t' && c != '\n' && c != '\r')));
    VP_CHECK("what quoted-printable leaves as it is",
             !!test_quoted_printable(c) == (c >= 33 && c <= 126 && c != '='
                                            && c != '.'));
    VP_REACH();
}
/* {{{ hexadecimal */
#define DIG(v_)  ((char)((v_) < 10 ? '0' + (v_) : 'A' + (v_) - 10))
#define LDIG(v_)  ((char)((v_) < 10 ? '0' + (v_) : 'a' + (v_) - 10))
#define HV(c_)  ((c_) >= '0' && (c_) <= '9' ? (c_) - '0' : (c_) >= 'a' && (c_) <= 'f' ? (c_) - 'a' + 10 : (c_) >= 'A' && (c_) <= 'F' ? (c_) - 'A' + 10 : -1)
/* a buffer that holds some bytes, the first of which is '!', and room or not */
static int g_k, g_base;         /* a source byte; start of the output */
static sb_t t_sb;
static void mk_t(void)
{
#ifndef VP_NATIVE
    vp_mem_init();
    VP_ASSUME(__sb_slop[0] == '\0');
#endif
    sb_init(&t_sb);
    g_base = 0;
    if (vp_bool()) {
        sb_addc(&t_sb, '!');
        g_base = 1;
    }
    if (vp_bool()) {
        sb_grow(&t_sb, 3000);
    }
}
//@harness h_quot_hex prop=C13 kind=bounded bound="40 bytes" bmc=no search=2 about=sb_add_hex
VP_MAIN(h_quot_hex)
{
    int n = VP_LEN(1000, 40);
    uint8_t *src = vp_buf(n, 40);

    mk_t();
    g_k = vp_range(0, 40);
    sb_add_hex(&t_sb, src, n);
    VP_CHECK("two digits a byte", t_sb.len == g_base + 2 * n);
    VP_CHECK("terminated", t_sb.len < t_sb.size && !t_sb.data[t_sb.len]);
    VP_CHECK("the digits of the byte", g_k >= n
             || (t_sb.data[g_base + 2 * g_k] == DIG(src[g_k] >> 4)
                 && t_sb.data[g_base + 2 * g_k + 1] == DIG(src[g_k] & 15)));
    VP_CHECK("what was there is kept", !g_base || t_sb.data[0] == '!');
    VP_REACH();
}
//@harness h_quot_unhex prop=C13 kind=bounded bound="40 bytes" bmc=no search=2 about=sb_add_unhex
VP_MAIN(h_quot_unhex)
{
    int n = VP_LEN(1000, 12), r;
    uint8_t *src = vp_buf(n, 12);

#ifdef VP_NATIVE
    for (int i = 0; i < n; i++) {
        if (vp_range(0, 30)) {
            src[i] = "0123456789abcdefABCDEF"[src[i] % 22];
        }
    }
#endif
    mk_t();
    g_k = vp_range(0, 8);
    r = sb_add_unhex(&t_sb, src, n);
    VP_CHECK("odd lengths are refused", !(n & 1) || r < 0);
    VP_CHECK("a failure adds nothing", r == 0 || t_sb.len == g_base);
    VP_CHECK("a byte for two digits", r < 0 || t_sb.len == g_base + n / 2);
    VP_CHECK("terminated", t_sb.len < t_sb.size && !t_sb.data[t_sb.len]);
    VP_CHECK("the byte of the digits", r < 0 || g_k >= n / 2
             || (HV(src[2 * g_k]) >= 0 && HV(src[2 * g_k + 1]) >= 0
                 && (uint8_t)t_sb.data[g_base + g_k]
                 == HV(src[2 * g_k]) * 16 + HV(src[2 * g_k + 1])));
#ifndef VP_PROOF
    if (!(n & 1)) {
        bool ok = true;

        for (int i = 0; i < n; i++) {
            ok = ok && HV(src[i]) >= 0;
        }
        VP_CHECK("succeeds on digits alone", ok == (r == 0));
    }
#endif
    VP_CHECK("what was there is kept", !g_base || t_sb.data[0] == '!');
    VP_REACH();
}
//@harness h_quot_strhexenc prop=C13 kind=bounded bound="40 bytes" bmc=no search=2 about=strconv_hexencode
VP_MAIN(h_quot_strhexenc)
{
    int n = VP_LEN(1000, 12), r, size = vp_range(1, 30);
    uint8_t *src = vp_buf(n, 12);
    uint8_t *dst = vp_alloc(size);

    g_k = vp_range(0, 12);
    r = strconv_hexencode((char *)dst, size, src, n);
    VP_CHECK("length of the whole", r == 2 * n);
    VP_CHECK("terminated", dst[2 * MIN(n, (size - 1) / 2)] == 0);
    VP_CHECK("the digits of the byte", g_k >= MIN(n, (size - 1) / 2)
         || (dst[2 * g_k] == LDIG(src[g_k] >> 4)
             && dst[2 * g_k + 1] == LDIG(src[g_k] & 15)));
    VP_REACH();
}
//@harness h_quot_strhexdec prop=C13 kind=bounded bound="40 bytes" bmc=no search=2 about=strconv_hexdecode
VP_MAIN(h_quot_strhexdec)
{
    int n = VP_LEN(1000, 12), r, size = vp_range(0, 14);
    uint8_t *src = vp_buf(n, 12);
    uint8_t *dst = vp_alloc(size);
#ifdef VP_NATIVE
    for (int i = 0; i < n; i++) {
        if (vp_range(0, 30)) {
            src[i] = "0123456789abcdefABCDEF"[src[i] % 22];
        }
    }
#endif
    g_k = vp_range(0, 12);
    r = strconv_hexdecode(dst, size, (char *)src, n);
    VP_CHECK("result", r == ((n & 1) || r < 0 ? -1 : n / 2));
    VP_CHECK("the byte of the digits", r < 0 || g_k >= MIN(n / 2, size)
         || (HV(src[2 * g_k]) >= 0 && HV(src[2 * g_k + 1]) >= 0
             && dst[g_k] == HV(src[2 * g_k]) * 16 + HV(src[2 * g_k + 1])));
    VP_REACH();
}
/* }}} */
/* {{{ the others: bounded */
#ifdef VP_NATIVE
static uint8_t *g_b;
static int g_n;
static void mk(const char *alpha, int max)
{
    g_n = vp_range(0, max);
    g_b = vp_buf(g_n, max);
    if (alpha && vp_range(0, 3)) {
        for (int i = 0; i < g_n; i++) {
            if (vp_range(0, 20)) {
                g_b[i] = alpha[g_b[i] % strlen(alpha)];
            }
        }
    }
}
static void e_u(uint32_t c)
{
    if (c < 0x80) {
        e_c(c);
    } else if (c < 0x800) {
        e_c(0xc0 | c >> 6);
        e_c(0x80 | (c & 63));
    } else if (c < 0x10000) {
        e_c(0xe0 | c >> 12);
        e_c(0x80 | (c >> 6 & 63));
        e_c(0x80 | (c & 63));
    } else {
        e_c(0xf0 | c >> 18);
        e_c(0x80 | (c >> 12 & 63));
        e_c(0x80 | (c >> 6 & 63));
        e_c(0x80 | (c & 63));
    }
}
static int hex2(int i)
{
    return i + 2 > g_n || hexv((char)g_b[i]) < 0 || hexv((char)g_b[i + 1]) < 0
        ? -1 : hexv(g_b[i]) * 16 + hexv(g_b[i + 1]);
}
#endif
//@harness h_quot_b64 prop=C13 kind=bounded bound="180 bytes in up to 4 pieces" bmc=no search=4 about=sb_add_b64,sb_add_b64_start,sb_add_b64_update,sb_add_b64_finish,sb_add_b64url,sb_add_b64url_update,sb_add_b64url_finish,sb_add_unb64,sb_add_unb64url
VP_MAIN(h_quot_b64)
{
#ifdef VP_NATIVE
    static const int ws[] = { -1, -1, 0, 1, 3, 4, 5, 8, 10, 64, 76, 78 };
    int width = ws[vp_range(0, countof(ws) - 1)], col = 0, max, pos = 0;
    bool url = vp_bool(), finish = vp_bool();
    sb_b64_ctx_t ctx;
    int pieces = vp_range(0, 3);
    sb_t enc;

    mk(NULL, vp_bool() ? 180 : 8);
    mk_sb();
    enc = g_sb;
    if (!pieces) {
        if (url) {
            sb_add_b64url(&g_sb, g_b, g_n, width);
        } else {
            sb_add_b64(&g_sb, g_b, g_n, width);
        }
    } else {
        memset(&ctx, 0xa5, sizeof(ctx));
        sb_add_b64_start(&g_sb, vp_range(0, 200), width, &ctx);
        for (int i = 0; i <= pieces; i++) {
            int l = i == pieces ? g_n - pos : vp_range(0, MIN(g_n - pos, 7));

            if (url) {
                sb_add_b64url_update(&g_sb, g_b + pos, l, &ctx);
            } else {
                sb_add_b64_update(&g_sb, g_b + pos, l, &ctx);
            }
            pos += l;
        }
        if (url) {
            sb_add_b64url_finish(&g_sb, &ctx);
        } else {
            sb_add_b64_finish(&g_sb, &ctx);
        }
    }
    VP_CHECK("terminated", g_sb.len < g_sb.size && !g_sb.data[g_sb.len]);
    /* the letters, line breaks aside */
    for (int i = 0; i < g_n; i += 3) {
        int l = MIN(3, g_n - i);
        uint32_t v = g_b[i] << 16 | (l > 1 ? g_b[i + 1] << 8 : 0)
            | (l > 2 ? g_b[i + 2] : 0);

        for (int j = 0; j < 4; j++) {
            int d = v >> (18 - 6 * j) & 63;

            if (j > l) {
                e_c('=');
            } else {
                for (int c = 0; c < 128; c++) {
                    if (b64v(c, url) == d) {
                        e_c(c);
                    }
                }
            }
        }
    }
    max = width < 0 ? INT_MAX : width == 0 ? 76 : MAX(width, 4);
    pos = 0;
    for (int i = g_pre; i < g_sb.len; i++) {
        if (g_sb.data[i] == '\r' && i + 1 < g_sb.len
            && g_sb.data[i + 1] == '\n') {
            VP_CHECK("no line break when not asked for", width >= 0);
            VP_CHECK("no empty line", col > 0);
            VP_CHECK("lines are full but the last", col + 4 > max
                     || i + 2 == g_sb.len);
            col = 0;
            i++;
            continue;
        }
        VP_CHECK("base64 of the bytes", pos < g_en
                 && (uint8_t)g_sb.data[i] == g_e[pos]);
        pos++;
        col++;
        VP_CHECK("the line width", col <= max);
    }
    VP_CHECK("all the bytes", pos == g_en);
    /* and back */
    sb_init(&enc);
    sb_addc(&enc, '#');
    VP_CHECK("decodes", 0 == (url
             ? sb_add_unb64url(&enc, g_sb.data + g_pre, g_sb.len - g_pre)
             : sb_add_unb64(&enc, g_sb.data + g_pre, g_sb.len - g_pre)));
    VP_CHECK("decodes to the bytes", enc.len == 1 + g_n
             && enc.data[0] == '#' && !memcmp(enc.data + 1, g_b, g_n));
    (void)finish;
#endif
}
//@harness h_quot_unb64 prop=C13 kind=bounded bound="20 bytes" bmc=no search=3 about=sb_add_unb64,sb_add_unb64url,_sb_add_unb64
VP_MAIN(h_quot_unb64)
{
#ifdef VP_NATIVE
    bool url = vp_bool();
    uint8_t d[64];
    int n = 0, pad = 0, r, er = 0;

    mk(url ? "AZaz09-_==\n " : "AZaz09+/== \r", BN);
    mk_sb();
    /* letters then padding to a multiple of 4, white space anywhere */
    for (int i = 0; i < g_n; i++) {
        if (isspace(g_b[i])) {
            continue;
        }
        if (g_b[i] == '=') {
            pad++;
            continue;
        }
        if (pad || b64v(g_b[i], url) == 255) {
            er = -1;
            break;
        }
        d[n++] = b64v(g_b[i], url);
    }
    if (pad > 2 || (n + pad) % 4 || (pad && n % 4 < 2)) {
        er = -1;
    }
    if (er == 0) {
        for (int i = 0; i + 1 < n; i++) {
            if (i % 4 < 3) {
                e_c(d[i] << (2 + i % 4 * 2) | d[i + 1] >> (4 - i % 4 * 2));
            }
        }
    }
    r = url ? sb_add_unb64url(&g_sb, g_b, g_n) : sb_add_unb64(&g_sb, g_b, g_n);
    VP_CHECK("result", r == er);
    sb_is();
#endif
}
//@harness h_quot_url prop=C13 kind=bounded bound="20 bytes" bmc=no search=4 about=sb_add_urlencode,sb_add_urldecode,sb_urldecode,sb_adds_urlencode,sb_add_lstr_urldecode
VP_MAIN(h_quot_url)
{
#ifdef VP_NATIVE
    int how = vp_range(0, 3);
    sb_t back;

    mk(how == 0 ? NULL : "%%%0a4F%zG", BN);
    mk_sb();
    if (how == 0) {
        for (int i = 0; i < g_n; i++) {
            int c = g_b[i];

            if (isalnum(c) || c == '-' || c == '.' || c == '/' || c == '_') {
                e_c(c);
            } else {
                e_c('%');
                e_c(DIG(c >> 4));
                e_c(DIG(c & 15));
            }
        }
        sb_add_urlencode(&g_sb, g_b, g_n);
        sb_is();
        sb_init(&back);
        sb_add_urldecode(&back, g_sb.data + g_pre, g_sb.len - g_pre);
        VP_CHECK("decodes to the bytes", back.len == g_n
                 && !memcmp(back.data, g_b, g_n));
        return;
    }
    for (int i = 0; i < g_n; i++) {
        if (g_b[i] == '%' && hex2(i + 1) >= 0) {
            e_c(hex2(i + 1));
            i += 2;
        } else {
            e_c(g_b[i]);
        }
    }
    if (how == 1) {
        sb_add_urldecode(&g_sb, g_b, g_n);
    } else {
        g_pre = 0;
        sb_wipe(&g_sb);
        sb_set(&g_sb, g_b, g_n);
        sb_urldecode(&g_sb);
    }
    sb_is();
#endif
}
//@harness h_quot_xml prop=C13 kind=bounded bound="40 bytes" bmc=no search=4 about=sb_add_xmlescape,sb_add_xmlunescape
VP_MAIN(h_quot_xml)
{
#ifdef VP_NATIVE
    static const char *const tok[] = {
        "<!--", "-->", "<![CDATA[", "]]>", "&amp;", "&lt;", "&gt;", "&apos;",
        "&quot;", "&#65;", "&#x41;", "&#x20AC;", "&#233;", "a", "-", "]", ">",
        "--", "]]", "&", "<", ";", "bc", "&nbsp;", "&#x4G;", "&am;", "\"", "'",
    };
    sb_t t, back;
    int i, r, er = 0;

    mk_sb();
    if (vp_bool()) {
        mk("<>&'\"abc\t\n\r\1\37 ", 40);
        sb_init(&t);
        for (i = 0; i < g_n; i++) {
            int c = g_b[i];

            if (c >= 32 || c == '\t' || c == '\n' || c == '\r') {
                sb_addc(&t, c);
                switch (c) {
                  case '<': e_s("&lt;"); break;
                  case '>': e_s("&gt;"); break;
                  case '&': e_s("&amp;"); break;
                  case '"': e_s("&#34;"); break;
                  case '\'': e_s("&#39;"); break;
                  default: e_c(c); break;
                }
            }
        }
        sb_add_xmlescape(&g_sb, g_b, g_n);
        sb_is();
        sb_init(&back);
        VP_CHECK("unescapes", sb_add_xmlunescape(&back, g_sb.data + g_pre,
                                                 g_sb.len - g_pre) == 0);
        VP_CHECK("to the characters XML allows", back.len == t.len
                 && !memcmp(back.data, t.data, t.len));
        return;
    }
    sb_init(&t);
    for (i = vp_range(0, 5); i > 0; i--) {
        sb_adds(&t, tok[vp_range(0, countof(tok) - 1)]);
    }
    if (vp_range(0, 7) == 0) {
        sb_clip(&t, vp_range(0, t.len));
    }
    g_n = t.len;
    g_b = vp_alloc(g_n);
    memcpy(g_b, t.data, g_n);
    sb_adds(&t, "\1\1\1\1\1\1\1\1\1\1\1\1");
    for (i = 0; i < g_n && er == 0;) {
        const char *s = t.data + i, *e;

        if (*s != '<' && *s != '&') {
            e_c(*s);
            i++;
        } else
        if (!strncmp(s, "<!--", 4)) {
            e = strstr(s + 4, "-->");
            if (!e) {
                er = -1;
            } else {
                i = e + 3 - t.data;
            }
        } else
        if (!strncmp(s, "<![CDATA[", 9)) {
            e = strstr(s + 9, "]]>");
            if (!e) {
                er = -1;
            } else {
                e_m(s + 9, e - s - 9);
                i = e + 3 - t.data;
            }
        } else
        if (*s == '<' || !(e = strchr(s, ';')) || e == s + 1) {
            er = -1;
        } else {
            int l = e - s + 1, c = 0;
#define IS(x)  (l == (int)strlen(x) && !memcmp(s, x, l))
            if (IS("&amp;")) e_c('&');
            else if (IS("&lt;")) e_c('<');
            else if (IS("&gt;")) e_c('>');
            else if (IS("&apos;")) e_c('\'');
            else if (IS("&quot;")) e_c('"');
            else if (s[1] == '#' && l <= 9 && l > 3) {
                bool x = s[2] == 'x';

                if (x && l == 4) {
                    return;
                }
                for (const char *q = s + 2 + x; q < e; q++) {
                    if (hexv(*q) < 0 || (!x && hexv(*q) > 9)) {
                        er = -1;
                        break;
                    }
                    c = c * (x ? 16 : 10) + hexv(*q);
                }
                if (er == 0) {
                    e_u(c);
                }
            } else if (s[1] == '#' && l == 3) {
                return;
            } else {
                er = -1;
            }
            i += l;
        }
    }
    if (er) {
        g_en = 0;
    }
    r = sb_add_xmlunescape(&g_sb, g_b, g_n);
    VP_CHECK("result", r == er);
    sb_is();
#endif
}
//@harness h_quot_slashes prop=C13 kind=bounded bound="20 bytes" bmc=no search=3 about=sb_add_slashes,sb_add_unslashes,sb_add_unquoted
VP_MAIN(h_quot_slashes)
{
#ifdef VP_NATIVE
    static const char *const from[] = { "\n\t\"", "$", "", "\\n", "\a\"\r\n" };
    static const char *const to[] = { "nt\"", "$", "", "\\n", "a\"rn" };
    int k = vp_range(0, countof(from) - 1), how = vp_range(0, 2);
    const char *p;
    sb_t back;

    mk(how == 2 ? "\\\\\\abntvfe\"'0174ux3Fg" : "\n\t\"$\\\\ana", BN);
    mk_sb();
    switch (how) {
      case 0:
        for (int i = 0; i < g_n; i++) {
            int c = g_b[i];

            if (c && (p = strchr(from[k], c))) {
                e_c('\\');
                e_c(to[k][p - from[k]]);
            } else if (c == '\\') {
                e_s("\\\\");
            } else {
                e_c(c);
            }
        }
        sb_add_slashes(&g_sb, g_b, g_n, from[k], to[k]);
        sb_is();
        sb_init(&back);
        sb_add_unslashes(&back, g_sb.data + g_pre, g_sb.len - g_pre, to[k],
                         from[k]);
        VP_CHECK("unslashes to the bytes", back.len == g_n
                 && !memcmp(back.data, g_b, g_n));
        break;
      case 1:
        for (int i = 0; i < g_n; i++) {
            if (g_b[i] == '\\' && i + 1 < g_n) {
                int c = g_b[i + 1];

                if (c && (p = strchr(to[k], c))) {
                    e_c(from[k][p - to[k]]);
                    i++;
                } else if (c == '\\') {
                    e_c(c);
                    i++;
                } else {
                    e_c('\\');
                }
            } else {
                e_c(g_b[i]);
            }
        }
        sb_add_unslashes(&g_sb, g_b, g_n, to[k], from[k]);
        sb_is();
        break;
      default:
        for (int i = 0; i < g_n; i++) {
            static const char nm[] = "abetnvfr\\\"'";
            static const char vl[] = "\a\b\033\t\n\v\f\r\\\"'";
            int c, h, l;

            if (g_b[i] != '\\' || i + 1 == g_n) {
                e_c(g_b[i]);
                continue;
            }
            c = g_b[i + 1];
            if (c && (p = strchr(nm, c))) {
                e_c(vl[p - nm]);
                i++;
            } else if (c >= '0' && c <= '7') {
                h = 0;
                for (l = 1; l <= 3 && i + l < g_n && g_b[i + l] >= '0'
                     && g_b[i + l] <= '7' && h * 8 <= 255; l++) {
                    h = h * 8 + g_b[i + l] - '0';
                }
                e_c(h);
                i += l - 1;
            } else if (c == 'x' && hex2(i + 2) >= 0) {
                e_c(hex2(i + 2));
                i += 3;
            } else if (c == 'u' && hex2(i + 2) >= 0 && hex2(i + 4) >= 0) {
                e_u(hex2(i + 2) << 8 | hex2(i + 4));
                i += 5;
            } else {
                e_c('\\');
            }
        }
        sb_add_unquoted(&g_sb, g_b, g_n);
        sb_is();
        break;
    }
#endif
}
//@harness h_quot_qp prop=C13 kind=bounded bound="260 bytes" bmc=no search=4 about=sb_add_qpe,sb_add_unqpe
VP_MAIN(h_quot_qp)
{
#ifdef VP_NATIVE
    bool enc = vp_bool();
    sb_t back;
    int col = 0;

    mk(enc ? "abcdefghijklmnopqrstuv.. =\r\n\n\t" : "==\r\n\r3Fa=gz", enc ? 260 : BN);
    if (enc) {
        if (vp_bool()) {
            for (int i = vp_range(0, 90); i < g_n; i++) {
                if (vp_range(0, 20)) {
                    g_b[i] = 'x';
                }
            }
        }
        for (int i = 0; i < g_n; i++) {
            g_b[i] = g_b[i] ?: 1;
        }
    }
    mk_sb();
    if (enc) {
        if (g_pre) {
            sb_set(&g_sb, "!!\r\n", 4);
            g_pre = 4;
        }
        sb_add_qpe(&g_sb, g_b, g_n);
        VP_CHECK("terminated", g_sb.len < g_sb.size && !g_sb.data[g_sb.len]);
        for (int i = g_pre; i < g_sb.len; i++) {
            int c = (uint8_t)g_sb.data[i];

            if (c == '\r' && i + 1 < g_sb.len && g_sb.data[i + 1] == '\n') {
                VP_CHECK("no blank ends a line", i == g_pre
                         || (g_sb.data[i - 1] != ' '
                             && g_sb.data[i - 1] != '\t'));
                col = 0;
                i++;
                continue;
            }
            VP_CHECK("no line is over 76 bytes", ++col <= 76);
            VP_CHECK("only printable characters", c == '\t'
                     || (c >= 32 && c <= 126));
        }
        VP_CHECK("ends with a line break", g_sb.len == g_pre
                 || g_sb.data[g_sb.len - 1] == '\n');
        sb_init(&back);
        sb_add_unqpe(&back, g_sb.data + g_pre, g_sb.len - g_pre);
        /* line breaks of the text are canonical: \r\n comes back as \n */
        for (int i = 0; i < g_n; i++) {
            if (!(g_b[i] == '\r' && i + 1 < g_n && g_b[i + 1] == '\n')) {
                e_c(g_b[i]);
            }
        }
        VP_CHECK("decodes to the text", back.len == g_en
                 && !memcmp(back.data, g_e, g_en));
        return;
    }
    for (int i = 0; i < g_n; i++) {
        int c = g_b[i];

        if (!c) {
            break;
        }
        if (c == '=' && i + 2 < g_n && g_b[i + 1] == '\r'
            && g_b[i + 2] == '\n') {
            i += 2;
        } else if (c == '=' && hex2(i + 1) >= 0) {
            e_c(hex2(i + 1));
            i += 2;
        } else if (c == '\r' && i + 1 < g_n && g_b[i + 1] == '\n') {
            e_c('\n');
            i++;
        } else {
            e_c(c);
        }
    }
    sb_add_unqpe(&g_sb, g_b, g_n);
    sb_is();
#endif
}
//@harness h_quot_env prop=C13 kind=bounded bound="20 bytes" bmc=no search=3 about=sb_add_expandenv
VP_MAIN(h_quot_env)
{
#ifdef VP_NATIVE
    int r, er = 0;

    mk("$$$A\\\\{{}}B$ /", BN);
    mk_sb();
    setenv("A", "one", 1);
    setenv("AA", "\\two$A", 1);
    setenv("B", "", 1);
    for (int i = 0; i < g_n && er == 0; i++) {
        int c = g_b[i], s, e;
        char nm[64];
        const char *v;

        if (c == '\\' && i + 1 < g_n
            && (g_b[i + 1] == '\\' || g_b[i + 1] == '$')) {
            e_c(g_b[++i]);
            continue;
        }
        if (c != '$') {
            e_c(c);
            continue;
        }
        s = i + 1;
        if (s < g_n && g_b[s] == '{') {
            s++;
            for (e = s; e < g_n && g_b[e] != '}'; e++) {
            }
            if (e == g_n) {
                er = -1;
                break;
            }
            i = e;
        } else {
            for (e = s; e < g_n && (isalnum(g_b[e]) || g_b[e] == '_'); e++) {
            }
            i = e - 1;
        }
        memcpy(nm, g_b + s, e - s);
        nm[e - s] = 0;
        v = e > s ? getenv(nm) : NULL;
        if (!v) {
            er = -1;
            break;
        }
        e_s(v);
    }
    if (er) {
        g_en = 0;
    }
    r = sb_add_expandenv(&g_sb, g_b, g_n);
    VP_CHECK("result", r == er);
    sb_is();
#endif
}
/* decoder of RFC 3492, section 6.2 */
//@harness h_quot_puny prop=C13 kind=bounded bound="16 characters, and 5000 now and then" bmc=no search=4 about=sb_add_punycode_vec,sb_add_punycode_str,punycode_adapt_bias
VP_MAIN(h_quot_puny)
{
#ifdef VP_NATIVE
    static uint32_t in[6000], out[6000];
    int n, at = 0, len = 0, b = -1, r;
    bool ascii = true, big = vp_range(0, 50) == 0;
    uint64_t nn = 0x80, i = 0, bias = 72;

    n = big ? vp_range(3000, 5000) : vp_range(1, 16);
    for (int k = 0; k < n; k++) {
        in[k] = big && k > 0 ? 'a' : vp_range(0, 2) == 0 ? vp_range('a', 'z')
            : vp_bool() ? vp_range(0x80, 0x100) : vp_range(0x80, 0x10ffff);
        ascii = ascii && in[k] < 0x80;
    }
    if (big) {
        in[0] = vp_range(0x10f000, 0x10ffff);
        ascii = false;
    }
    mk_sb();
    if (vp_bool() && !big) {
        g_en = 0;
        for (int k = 0; k < n; k++) {
            e_u(in[k]);
        }
        r = sb_add_punycode_str(&g_sb, (char *)g_e, g_en);
    } else {
        r = sb_add_punycode_vec(&g_sb, in, n);
        if (r < 0) {
            VP_CHECK("fails on overflow alone", big);
            return;
        }
    }
    VP_CHECK("succeeds", r == 0);
    for (int k = g_pre; k < g_sb.len; k++) {
        if (g_sb.data[k] == '-') {
            b = k;
        }
    }
    at = g_pre;
    if (b >= 0) {
        for (; at < b; at++) {
            out[len++] = g_sb.data[at];
        }
        at++;
    }
    while (at < g_sb.len) {
        uint64_t oldi = i, w = 1, delta;

        for (uint64_t k = 36;; k += 36) {
            uint64_t t, d;
            int c = at < g_sb.len ? g_sb.data[at++] : 0;

            d = c >= 'a' && c <= 'z' ? c - 'a' : c >= '0' && c <= '9'
                ? c - '0' + 26 : 99;
            VP_CHECK("a digit", d < 36);
            if (d >= 36) {
                return;
            }
            i += d * w;
            VP_CHECK("no overflow", i <= UINT32_MAX);
            t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias;
            if (d < t) {
                break;
            }
            w *= 36 - t;
        }
        len++;
        delta = i - oldi;
        delta /= oldi == 0 ? 700 : 2;
        delta += delta / len;
        bias = 0;
        while (delta > 455) {
            delta /= 35;
            bias += 36;
        }
        bias += 36 * delta / (delta + 38);
        nn += i / len;
        i %= len;
        for (int k = len - 1; k > (int)i; k--) {
            out[k] = out[k - 1];
        }
        out[i] = nn;
        i++;
        if (len > n) {
            break;
        }
    }
    VP_CHECK("decodes to the characters", len == n
             && !memcmp(in, out, n * sizeof(in[0])));
    (void)ascii;
#endif
}
//@harness h_quot_csv prop=C13 kind=bounded bound="20 bytes" bmc=no search=2 about=sb_add_csvescape
VP_MAIN(h_quot_csv)
{
#ifdef VP_NATIVE
    static const char al[] = "\"\"ab,;\t\n\r \0\xff";
    int sep = ",;\t|"[vp_range(0, 3)], n = vp_range(0, 20);
    char *b = (malloc)(n + !n);
    bool quote = false;

    mk_sb();
    g_en = 0;
    for (int i = 0; i < n; i++) {
        b[i] = vp_bool() ? al[vp_range(0, 11)] : vp_range('c', 'z');
        quote = quote || b[i] == '"' || b[i] == '\n' || b[i] == '\r'
            || b[i] == sep;
    }
    if (quote) {
        e_c('"');
    }
    for (int i = 0; i < n; i++) {
        if (b[i] == '"') {
            e_c('"');
        }
        e_c(b[i]);
    }
    if (quote) {
        e_c('"');
    }
    sb_add_csvescape(&g_sb, sep, b, n);
    sb_is();
    (free)(b);
#endif
}
#ifdef VP_NATIVE
static bool id_dot(uint32_t c)
{
    return c == '.' || c == 0x3002 || c == 0xff0e || c == 0xff61;
}
#endif
/* ToASCII of RFC 3490 on characters whose preparation is known */
//@harness h_quot_idna prop=C13 kind=bounded bound="names of at most 24 characters, labels of at most 70" bmc=no search=3 about=sb_add_idna_domain_name,idna_label_to_ascii,idna_nameprep
VP_MAIN(h_quot_idna)
{
#ifdef VP_NATIVE
    static const uint32_t al[] = {
        'a', 'z', 'A', 'Z', '0', '-', '.', '.', '_', ' ', 'x', 'n',
        0x3002, 0xff0e, 0xff61,
        0xe9, 0xc9, 0xdf, 0x4e2d, 0x3b1, 0x391, 0x431, 0x1d400, /* letters */
        0xad, 0x200b, 0xfe0f,           /* mapped to nothing */
        0xa0, 0x2028, 0xe000, 0xfffd,   /* prohibited */
        0x221, 0x560, 0x1ff5,           /* not assigned */
    };
    static uint32_t in[200], cps[200];
    unsigned flags = vp_range(0, 7);
    int n = vp_range(0, 24), at, r, er = 0, labels = 0, hi;
    sb_t ref;

    sb_init(&ref);
    mk_sb();
    g_en = 0;
    hi = vp_bool() ? 12 : vp_bool() ? 23 : 33;
    for (int i = 0; i < n; i++) {
        in[i] = vp_bool() ? vp_range('a', 'z') : al[vp_range(0, hi - 1)];
    }
    if (vp_range(0, 7) == 0) {
        /* xn-- in the name */
        in[0] = vp_bool() ? 'x' : 'X';
        in[1] = 'n';
        in[2] = in[3] = '-';
        n = MAX(n, 4);
    }
    if (vp_range(0, 7) == 0) {
        for (int k = vp_range(50, 70); k > 0; k--) {
            in[n++] = 'a';
        }
    }
    for (int i = 0; i < n; i++) {
        e_u(in[i]);
    }
    for (at = 0; er == 0; at++) {
        int from = at, nc = 0, start = ref.len;
        bool ascii = true, now = true;

        for (; at < n && !id_dot(in[at]); at++) {
            uint32_t c = in[at];

            if (c < 128) {
                if ((flags & IDNA_USE_STD3_ASCII_RULES) && !isalnum(c)
                    && c != '-')
                {
                    er = -1;
                }
                cps[nc++] = c;
                continue;
            }
            ascii = false;
            if (c == 0xad || c == 0x200b || c == 0xfe0f) {
                continue;
            }
            if (c == 0xa0 || c == 0x2028 || c == 0xe000 || c == 0xfffd) {
                er = -1;
            }
            if ((c == 0x221 || c == 0x560 || c == 0x1ff5)
                && !(flags & IDNA_ALLOW_UNASSIGNED))
            {
                er = -1;
            }
            now = false;
            cps[nc++] = c == 0xc9 ? 0xe9
                : unicode_tolower(c);
        }
        if (nc == 0) {
            er = -1;
        } else
        if ((flags & IDNA_USE_STD3_ASCII_RULES)
            && (cps[0] == '-' || cps[nc - 1] == '-'))
        {
            er = -1;
        } else
        if (ascii) {
            for (int i = from; i < at; i++) {
                sb_addc(&ref, (flags & IDNA_ASCII_TOLOWER) && in[i] >= 'A'
                        && in[i] <= 'Z' ? in[i] + 32 : in[i]);
            }
        } else {
            for (int i = 0; i < nc; i++) {
                if (cps[i] >= 'A' && cps[i] <= 'Z') {
                    cps[i] += 32;
                }
            }
            if (now) {
                for (int i = 0; i < nc; i++) {
                    sb_addc(&ref, cps[i]);
                }
            } else
            if (nc >= 4 && cps[0] == 'x' && cps[1] == 'n' && cps[2] == '-'
                && cps[3] == '-')
            {
                er = -1;
            } else {
                sb_adds(&ref, "xn--");
                sb_add_punycode_vec(&ref, cps, nc);
            }
        }
        if (ref.len - start > 63) {
            er = -1;
        }
        labels++;
        if (at >= n) {
            break;
        }
        sb_addc(&ref, '.');
    }
    if (labels < 2) {
        er = -1;
    }
    r = sb_add_idna_domain_name(&g_sb, (char *)g_e, g_en, flags);
    VP_CHECK("labels", r == (er ? -1 : labels));
    if (r >= 0) {
        VP_CHECK("name", g_sb.len - g_pre == ref.len
                 && !memcmp(g_sb.data + g_pre, ref.data, ref.len));
    }
    sb_wipe(&ref);
#endif
}
