/* Formatted output, against the C library's. */
//@trusted the C library's vsnprintf, as the oracle for the standard conversions
//@link src/core/str-dtoa.c src/core/str-conv.c src/core/str-ctype.c
#define VP_WANT_STUBS
#include "vp.h"
#ifdef VP_NATIVE
# include "vp_mem.h"
#endif
#include <lib-common/core.h>
#include <lib-common/thr.h>
#ifdef VP_NATIVE
struct thr_hooks thr_hooks_g = {
    .init_cbs = DLIST_INIT(thr_hooks_g.init_cbs),
    .exit_cbs = DLIST_INIT(thr_hooks_g.exit_cbs),
};
#endif
#include "src/core/str-iprintf.c"

/* {{{ digits: proofs */
//@harness h_fmt_hexoct prop=C15 unwind=23 solver=cadical about=convert_ulong,convert_uint
VP_MAIN(h_fmt_hexoct)
{
    char buf[24];
    uint64_t v = vp_u64();
    int how = vp_range(0, 3), i = vp_range(0, 21), sh, n;
    char *p;

    if (how < 2) {
        v = (uint32_t)v;
        p = convert_uint(buf + 24, v, how ? 16 : 8);
    } else {
        p = convert_ulong(buf + 24, v, how & 1 ? 16 : 8);
    }
    n = buf + 24 - p;
    sh = how & 1 ? 4 : 3;
    VP_CHECK("number of digits", n <= 22 && (n * sh >= 64 || v >> (n * sh) == 0)
             && (n == 0 ? v == 0 : v >> ((n - 1) * sh) != 0));
    VP_CHECK("each digit", i >= n
             || buf[23 - i] == (char)('0' + (v >> (i * sh) & ((1 << sh) - 1))));
    VP_REACH();
}
//@harness h_fmt_chunk prop=C15 about=fmt_output_chars
VP_MAIN(h_fmt_chunk)
{
    size_t size = vp_range(0, 64), count = vp_range(0, 80);
    char *str = vp_alloc(size);
    ssize_t n = (ssize_t)vp_range(0, 100) - 10;
    size_t k = vp_range(0, 63);
    char old = 0;
    int r;

    if (size) {
        VP_ASSUME(k < size);
        str[k] = old = 'o';
    }
    r = fmt_output_chars(NULL, str, size, count, 'x', n);
    VP_CHECK("counts all of them", (size_t)r == count + (n < 0 ? 0 : n));
    if (size) {
        VP_CHECK("pads what fits, and nothing else", str[k]
                 == (n > 0 && k >= count && k < count + n && k < size - 1
                     ? 'x' : old));
    }
    VP_REACH();
}
/* }}} */
#ifdef VP_NATIVE
static char g_fmt[128], g_o1[700], g_o2[700];
static int g_w, g_p, g_nstar, g_star[2];
static bool flag_ok(const char *conv, char f)
{
    switch (f) {
      case '#': return strchr("oxXeEfFgG", *conv);
      case '0': return strchr("diouxXeEfFgG", *conv);
      case '+': case ' ': return strchr("dieEfFgG", *conv);
    }
    return true;
}
/* %[flags][width][.prec][len]conv between two literals */
static void mk_fmt(const char *lm, const char *conv)
{
    int n = 0, k;

    g_nstar = 0;
    for (k = vp_range(0, 3); k > 0; k--) {
        g_fmt[n++] = "ab:"[k - 1];
    }
    g_fmt[n++] = '%';
    for (k = vp_range(0, 2); k > 0; k--) {
        char f = "-+ #0"[vp_range(0, 4)];

        if (flag_ok(conv, f)) {
            g_fmt[n++] = f;
        }
    }
    switch (vp_range(0, 3)) {
      case 0:
        n += (sprintf)(g_fmt + n, "%d", (int)vp_range(1, vp_bool() ? 9 : 120));
        break;
      case 1:
        g_fmt[n++] = '*';
        g_star[g_nstar++] = (int)vp_range(0, 60) - 30;
        break;
    }
    if (*conv != 'c' && *conv != 'p' && *conv != '%')
    switch (vp_range(0, 4)) {
      case 0:
        g_fmt[n++] = '.';
        n += (sprintf)(g_fmt + n, "%d", (int)vp_range(0, vp_bool() ? 9 : 60));
        break;
      case 1:
        g_fmt[n++] = '.';
        g_fmt[n++] = '*';
        g_star[g_nstar++] = (int)vp_range(0, 40) - 10;
        break;
      case 2:
        g_fmt[n++] = '.';
        break;
    }
    while (*lm) {
        g_fmt[n++] = *lm++;
    }
    g_fmt[n++] = *conv;
    for (k = vp_range(0, 2); k > 0; k--) {
        g_fmt[n++] = ".]"[k - 1];
    }
    g_fmt[n] = 0;
}
#ifdef DEBUG_FMT
# define DBG()  if (r_ != e_ || (sz_ == 700 && memcmp(b_, g_o1, e_))) { (fprintf)(stderr, "DBG fmt=[%s] %d %d want=[%s] got=[%.*s] %d %d\n", g_fmt, g_star[0], g_star[1], g_o1, (int)sz_, b_, e_, r_); } break
#else
# define DBG()
#endif
#define RUN(...)                                                             \
    do {                                                                     \
        size_t sz_ = vp_bool() ? 700 : vp_range(0, 40);                      \
        char *b_ = vp_alloc(sz_), *m_ = NULL;                                \
        size_t ml_;                                                          \
        FILE *f_;                                                            \
        int e_, r_;                                                          \
                                                                             \
        e_ = g_nstar == 0 ? (snprintf)(g_o1, 700, g_fmt, ##__VA_ARGS__)      \
          : g_nstar == 1 ? (snprintf)(g_o1, 700, g_fmt, g_star[0], ##__VA_ARGS__) \
          : (snprintf)(g_o1, 700, g_fmt, g_star[0], g_star[1], ##__VA_ARGS__); \
        r_ = g_nstar == 0 ? isnprintf(b_, sz_, g_fmt, ##__VA_ARGS__)         \
          : g_nstar == 1 ? isnprintf(b_, sz_, g_fmt, g_star[0], ##__VA_ARGS__) \
          : isnprintf(b_, sz_, g_fmt, g_star[0], g_star[1], ##__VA_ARGS__);  \
        DBG();                                                               \
        VP_CHECK("the length of the whole", r_ == e_);                       \
        if (sz_) {                                                           \
            int l_ = MIN(e_, (int)sz_ - 1);                                  \
            VP_CHECK("the text, cut where it does not fit",                  \
                     !memcmp(b_, g_o1, l_) && b_[l_] == 0);                  \
        }                                                                    \
        if (vp_range(0, 15) == 0) {                                          \
            f_ = open_memstream(&m_, &ml_);                                  \
            r_ = g_nstar == 0 ? ifprintf(f_, g_fmt, ##__VA_ARGS__)           \
              : g_nstar == 1 ? ifprintf(f_, g_fmt, g_star[0], ##__VA_ARGS__) \
              : ifprintf(f_, g_fmt, g_star[0], g_star[1], ##__VA_ARGS__);    \
            fclose(f_);                                                      \
            VP_CHECK("the same on a stream", r_ == e_ && (int)ml_ == e_      \
                     && !memcmp(m_, g_o1, e_));                              \
            (free)(m_);                                                      \
        }                                                                    \
    } while (0)
#endif
//@harness h_fmt_std prop=C15 kind=bounded bound="one conversion, width up to 120, precision up to 60" bmc=no search=6 about=fmt_output,isnprintf,ivsnprintf,ifprintf
VP_MAIN(h_fmt_std)
{
#ifdef VP_NATIVE
# pragma GCC diagnostic push
# pragma GCC diagnostic ignored "-Wformat-nonliteral"
# pragma GCC diagnostic ignored "-Wformat-security"
    static const char *const strs[] = { "", "a", "hello", "hello world, long" };
    int how = vp_range(0, 12);
    uint64_t v = vp_u64() >> vp_range(0, 63);
    const char ic[] = "diuxXo", fc[] = "eEfFgG", *conv = ic + vp_range(0, 5);
    const char *s;

    if (vp_range(0, 7) == 0) {
        v = -v;
    }
    switch (how) {
      case 0: mk_fmt("", conv); RUN((int)v); break;
      case 1: mk_fmt("l", conv); RUN((long)v); break;
      case 2: mk_fmt("ll", conv); RUN((long long)v); break;
      case 3: mk_fmt("h", conv); RUN((int)v); break;
      case 4: mk_fmt("hh", conv); RUN((int)v); break;
      case 5: mk_fmt("z", conv); RUN((size_t)v); break;
      case 6: mk_fmt("j", conv); RUN((intmax_t)v); break;
      case 7: mk_fmt("t", conv); RUN((ptrdiff_t)v); break;
      case 8: mk_fmt("", "c"); RUN((int)(v % 255 + 1)); break;
      case 9:
        s = strs[vp_range(0, 3)];
        mk_fmt("", "s");
        RUN(s);
        break;
      case 10: mk_fmt("", "p"); RUN((void *)(v | 1)); break;
      default: {
        union { double d; uint64_t u; } u = { .u = vp_u64() };
        conv = fc + vp_range(0, 5);

        switch (vp_range(0, 3)) {
          case 0:
            u.d = (double)(int64_t)(vp_u64() >> vp_range(0, 63));
            break;
          case 1:
            u.d = (double)(int64_t)(vp_u64() >> vp_range(30, 63)) / 1000;
            break;
          case 2:
            u.d = vp_range(0, 100) / 8.;
            break;
        }
        if (vp_range(0, 5) == 0) {
            u.d = -u.d;
        }
        if (isnan(u.d) || isinf(u.d)) {
            return;
        }
        mk_fmt("", conv);
        RUN(u.d);
      } break;
    }
# pragma GCC diagnostic pop
#endif
}
//@harness h_fmt_ext prop=C15 kind=bounded bound="40 bytes of memory, all 128-bit integers drawn" bmc=no search=3 about=fmt_output_hex,fmt_output_raw,fmt_output_lstr,fmt_output_int,fmt_output_uint,convert_uint128,convert_quoted_uint
VP_MAIN(h_fmt_ext)
{
#ifdef VP_NATIVE
    int how = vp_range(0, 7), n = vp_range(0, 20), e = 0, r = 0;
    uint8_t *b = vp_buf(n, 20);
    size_t sz = vp_bool() ? 100 : vp_range(0, 50);
    char *out = vp_alloc(sz);
    uint128_t v = (uint128_t)vp_u64() << 64 | vp_u64(), m;
    int128_t sv;
    char w[100];
    lstr_t s = LSTR_INIT_V((char *)b, n);
    int base = how == 5 || how == 6 ? 16 : 10;

    v >>= vp_range(0, 127);
    if (vp_range(0, 3) == 0) {
        v -= v % 10000000000000000000ULL;
        v += vp_range(0, 1000);
    }
    sv = vp_bool() ? (int128_t)v : -(int128_t)v;
    m = how == 3 && sv < 0 ? -(uint128_t)sv : how == 3 ? (uint128_t)sv : v;
    if (how == 7) {
        m = (uint64_t)v;
    }
    if (how < 2) {
        for (int i = 0; i < n; i++) {
            e += (sprintf)(w + e, how ? "%02X" : "%02x", b[i]);
        }
    } else if (how == 2) {
        memcpy(w, b, n);
        e = n;
    } else {
        char d[64];
        int l = 0;

        do {
            if (how == 7 && l % 4 == 3) {
                d[l++] = ',';
            }
            d[l++] = (how == 6 ? "0123456789ABCDEF" : "0123456789abcdef")[m % base];
            m /= base;
        } while (m);
        if (how == 3 && sv < 0) {
            d[l++] = '-';
        }
        while (l) {
            w[e++] = d[--l];
        }
    }
    switch (how) {
      case 0: r = isnprintf(out, sz, "%*px", n, b); break;
      case 1: r = isnprintf(out, sz, "%*pX", n, b); break;
      case 2: r = vp_bool() ? isnprintf(out, sz, "%*pM", n, b)
            : isnprintf(out, sz, "%pL", &s); break;
      case 3: r = isnprintf(out, sz, "%*pd", 16, &sv); break;
      case 4: r = isnprintf(out, sz, "%*pu", 16, &v); break;
      case 5: r = isnprintf(out, sz, "%*ph", 16, &v); break;
      case 6: r = isnprintf(out, sz, "%*pH", 16, &v); break;
      case 7: r = isnprintf(out, sz, "%'lu", (unsigned long)v); break;
    }
    VP_CHECK("the length of the whole", r == e);
    if (sz) {
        int l = MIN(e, (int)sz - 1);

        VP_CHECK("the text, cut where it does not fit",
                 !memcmp(out, w, l) && out[l] == 0);
    }
#endif
}
