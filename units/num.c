/* Numbers in text. */
//@trusted allocator model units/vp_mem.h
//@link src/core/str-buf.c src/core/str-ctype.c src/core/str-conv.c src/core/str-stream.c src/core/str.c src/container/qvector.blk
#define VP_WANT_STUBS
#define VP_TSTACK
#include "vp.h"
#ifndef VP_NATIVE
static int vp_errno;
# include <errno.h>
# undef errno
# define errno vp_errno
# include <ctype.h>
# undef isspace
# undef isdigit
# define isspace(c_)  ((c_) == ' ' || ((c_) >= 9 && (c_) <= 13))
# undef isalpha
# undef isalnum
# define isalpha(c_)  (((c_) >= 'a' && (c_) <= 'z') || ((c_) >= 'A' && (c_) <= 'Z'))
# define isalnum(c_)  (isalpha(c_) || isdigit(c_))
# define isdigit(c_)  ((c_) >= '0' && (c_) <= '9')
#endif
#include "vp_mem.h"
#include <lib-common/core.h>
#ifndef VP_NATIVE
# undef t_scope
# define t_scope
# undef t_dupz
# define t_dupz(p_, n_)  ((const char *)(p_))
#endif
#include "src/core/str-num.c"
#ifdef VP_NATIVE
# include "src/core/str-l.c"
#endif

/* {{{ the loop of memtoip and friends, for any length */
//@loop memtoip_impl 0
//  __CPROVER_assigns(s, _len)
//  __CPROVER_loop_invariant(_len >= 0 && __CPROVER_same_object(s, __CPROVER_loop_entry(s)) && __CPROVER_POINTER_OFFSET(s) + (size_t)_len == __CPROVER_loop_entry(_len))
//  __CPROVER_decreases(_len)
//@end
//@loop memtoip_impl 1
//  __CPROVER_assigns(s, _len, value, vp_errno)
//  __CPROVER_loop_invariant(_len >= 1 && __CPROVER_same_object(s, __CPROVER_loop_entry(s)) && __CPROVER_POINTER_OFFSET(s) + (size_t)_len == __CPROVER_POINTER_OFFSET(__CPROVER_loop_entry(s)) + __CPROVER_loop_entry(_len) && value <= 0 && value >= min)
//  __CPROVER_decreases(_len)
//@end
//@loop memtoip_impl 2
//  __CPROVER_assigns(s, _len, value, vp_errno)
//  __CPROVER_loop_invariant(_len >= 1 && __CPROVER_same_object(s, __CPROVER_loop_entry(s)) && __CPROVER_POINTER_OFFSET(s) + (size_t)_len == __CPROVER_POINTER_OFFSET(__CPROVER_loop_entry(s)) + __CPROVER_loop_entry(_len) && value >= 0 && value <= max)
//  __CPROVER_decreases(_len)
//@end

#define MTI(name_, fn_)                                                      \
VP_MAIN(name_)                                                               \
{                                                                            \
    int n = VP_LEN(100000, 24);                                              \
    uint8_t *s = vp_buf(n, 24);                                              \
    const byte *endp = NULL;                                                 \
                                                                             \
    fn_(s, n, &endp);                                                        \
    VP_CHECK("ends within the text", endp >= s && endp <= s + n);            \
    VP_REACH();                                                              \
}
//@harness h_num_memtoip prop=C14 loops=yes solver=sat about=memtoip_impl,memtoip
MTI(h_num_memtoip, memtoip)
//@harness h_num_memtollp prop=C14 loops=yes solver=sat about=memtoip_impl,memtollp
MTI(h_num_memtollp, memtollp)
//@harness h_num_ext prop=C14 about=str_apply_number_extension,str_read_number_extension
VP_MAIN(h_num_ext)
{
    static const uint64_t mul[] = {
        604800, 86400, 3600, 60, 1, 1ull << 40, 1ull << 30, 1 << 20, 1 << 10, 1
    };
    static const char nm[] = "wdhmsTGMK";
    int k = vp_range(0, 9), r, len = vp_range(0, 2);
    char b[2] = { k < 9 ? nm[k] : '.', vp_u8() };
    const void *p = b;
    uint64_t out = 7;

    r = str_read_number_extension(&p, len, &out);
    if (!len) {
        VP_CHECK("nothing to read", r == 0 && out == 1 && p == b);
    } else
    if (k == 9) {
        VP_CHECK("not an extension", r == 0 && out == 1 && p == b);
    } else
    if (len == 2 && ((b[1] >= '0' && b[1] <= '9') || (b[1] >= 'a' && b[1] <= 'z')
                     || (b[1] >= 'A' && b[1] <= 'Z'))) {
        VP_CHECK("more letters are refused", r < 0);
    } else {
        VP_CHECK("the multiplier", r == 1 && out == mul[k] && p == b + 1);
    }
    VP_REACH();
}
#define EXT(name_, m_)                                                       \
VP_MAIN(name_)                                                               \
{                                                                            \
    uint64_t v = vp_u64(), x = v;                                            \
    bool sg = vp_bool();                                                     \
    int r = str_apply_number_extension(m_, sg, &x);                          \
    __int128 e = (sg ? (__int128)(int64_t)v : (__int128)v) * (m_);           \
                                                                             \
    if (sg) {                                                                \
        VP_CHECK("fails when it does not fit", (r < 0)                       \
                 == (e > INT64_MAX || e < INT64_MIN));                       \
        VP_CHECK("the product, or the bound", (int64_t)x                     \
                 == (e > INT64_MAX ? INT64_MAX : e < INT64_MIN ? INT64_MIN   \
                     : (int64_t)e));                                         \
    } else {                                                                 \
        VP_CHECK("fails when it does not fit", (r < 0) == (e > UINT64_MAX)); \
        VP_CHECK("the product, or the bound", x                              \
                 == (e > UINT64_MAX ? UINT64_MAX : (uint64_t)e));            \
    }                                                                        \
    VP_REACH();                                                              \
}
//@harness h_num_ext_k prop=C14 solver=cadical about=str_apply_number_extension
EXT(h_num_ext_k, 1024)
//@harness h_num_ext_t prop=C14 solver=cadical about=str_apply_number_extension
EXT(h_num_ext_t, 1ll << 40)
//@harness h_num_ext_w prop=C14 solver=cadical kind=bounded bmc=no search=1 bound="drawn values" about=str_apply_number_extension
EXT(h_num_ext_w, 604800)

#ifdef VP_NATIVE
/* the number at the start of a text: its sign, magnitude (saturated), and how
 * many bytes it takes; 0 bytes: none */
static int number(const char *s, int n, int base, bool *neg, __int128 *mag)
{
    int i = 0, st, d;

    *neg = false;
    *mag = 0;
    while (i < n && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) {
        i++;
    }
    if (i < n && (s[i] == '-' || s[i] == '+')) {
        *neg = s[i++] == '-';
    }
#define D(i_)  ((i_) >= n ? 99 : s[i_] >= '0' && s[i_] <= '9' ? s[i_] - '0'    \
    : s[i_] >= 'a' && s[i_] <= 'z' ? s[i_] - 'a' + 10                        \
    : s[i_] >= 'A' && s[i_] <= 'Z' ? s[i_] - 'A' + 10 : 99)
    if ((base == 0 || base == 16) && D(i) == 0 && i + 1 < n
        && (s[i + 1] | 32) == 'x' && D(i + 2) < 16) {
        base = 16;
        i += 2;
    } else if (base == 0) {
        base = D(i) == 0 ? 8 : 10;
    }
    for (st = i; (d = D(i)) < base; i++) {
        *mag = *mag * base + d;
        if (*mag > (__int128)1 << 100) {
            *mag = (__int128)1 << 100;
        }
    }
    return i > st ? i : 0;
}
static char g_num[64];
static int mk_num(void)
{
    static const char *const near[] = {
        "2147483647", "2147483648", "9223372036854775807",
        "9223372036854775808", "18446744073709551615", "4294967295",
        "18446744073709551616", "9223372036854775809", "0", "10", "922337203685477581",
        "8388607", "8388608", "0x7f", "077", "99999999999999999999999",
    };
    int n = 0, k, i;

    for (k = vp_range(0, 2); k > 0 && vp_bool(); k--) {
        g_num[n++] = " \t\n"[vp_range(0, 2)];
    }
    if (vp_range(0, 2) == 0) {
        g_num[n++] = vp_bool() ? '-' : '+';
    }
    if (vp_bool()) {
        const char *s = near[vp_range(0, countof(near) - 1)];

        while (*s) {
            g_num[n++] = *s++;
        }
        if (vp_range(0, 3) == 0) {
            g_num[n - 1] = vp_range('0', '9');
        }
    } else {
        for (i = vp_range(0, 20); i > 0; i--) {
            g_num[n++] = vp_range('0', '9');
        }
    }
    if (vp_bool()) {
        for (i = vp_range(0, 3); i > 0; i--) {
            g_num[n++] = "wdhmsTGMK x.-9 \n"[vp_range(0, 15)];
        }
    }
    g_num[n] = 0;
    return n;
}
/* the text in a block of its own */
static const char *own(int n)
{
    char *p = vp_alloc(n);

    memcpy(p, g_num, n);
    return p;
}
#endif
//@harness h_num_int prop=C14 kind=bounded bound="30 bytes" bmc=no search=4 about=strtoip,memtoip,memtollp,memtoullp,lstr_to_int,lstr_to_int64,lstr_to_uint64,lstr_to_uint
VP_MAIN(h_num_int)
{
#ifdef VP_NATIVE
    int n, l, how = vp_range(0, 7), r;
    bool neg;
    __int128 m, v, lo, hi;
    const byte *endp = NULL;
    const char *p;
    lstr_t s;

    vp_t_reset();
    n = mk_num();
    p = own(n);
    l = number(p, n, 10, &neg, &m);
    v = neg ? -m : m;
    lo = how == 0 || how == 1 || how == 4 ? INT_MIN
        : how == 3 || how == 6 || how == 7 ? 0 : INT64_MIN;
    hi = how == 0 || how == 1 || how == 4 ? INT_MAX : how == 7 ? UINT32_MAX
        : how == 3 || how == 6 ? UINT64_MAX : INT64_MAX;
    errno = 0;
    if (how < 4) {
        __int128 got;

        got = how == 0 ? strtoip(g_num, (const char **)&endp)
            : how == 1 ? memtoip(p, n, &endp)
            : how == 2 ? (__int128)memtollp(p, n, &endp)
            : (__int128)memtoullp(p, n, &endp);
        if (l == 0) {
            VP_CHECK("no number is an error", errno == EINVAL
                     || (how == 3 && endp == (byte *)p));
            VP_CHECK("and is 0", got == 0);
            return;
        }
        VP_CHECK("out of range is an error", (errno == ERANGE)
                 == (v < lo || v > hi));
        VP_CHECK("the number", got == (v < lo ? lo : v > hi ? hi : v));
        VP_CHECK("ends after the number", (how == 3 && v < 0)
                 || (char *)endp - (how ? p : g_num) == l);
        return;
    }
    /* the whole of the text is a number, blanks aside */
    while (n && isspace((unsigned char)g_num[n - 1])) {
        n--;
    }
    s = LSTR_INIT_V(p, n);
    {
        bool ok = l && l == n && v >= lo && v <= hi;
        int i32 = 0;
        int64_t i64 = 0;
        uint64_t u64 = 0;
        uint32_t u32 = 0;

        r = how == 4 ? lstr_to_int(s, &i32) : how == 5 ? lstr_to_int64(s, &i64)
            : how == 6 ? lstr_to_uint64(s, &u64) : lstr_to_uint(s, &u32);
        VP_CHECK("accepts the numbers in range alone",
                 r == (ok ? 0 : -1) || (v == 0 && neg));
        VP_CHECK("the number", r < 0 || v == (how == 4 ? i32 : how == 5 ? i64
                 : how == 6 ? (__int128)u64 : u32));
        VP_CHECK("errors are told", r == 0 || errno == EINVAL
                 || errno == ERANGE);
    }
#endif
}
//@harness h_num_xll prop=C14 kind=bounded bound="30 bytes" bmc=no search=4 about=memtoll_ext,memtoull_ext,strtoll_ext,strtoull_ext,memtoxll_ext
VP_MAIN(h_num_xll)
{
#ifdef VP_NATIVE
    static const int bases[] = { 0, 10, 16, 2, 8, 10, 10 };
    static const char nm[] = "wdhmsTGMK";
    static const uint64_t mul[] = {
        604800, 86400, 3600, 60, 1, 1ull << 40, 1ull << 30, 1 << 20, 1 << 10
    };
    int n, l, how = vp_range(0, 3), r, base = bases[vp_range(0, 6)];
    bool neg, sg = how & 1, str = how & 2;
    __int128 m, v, lo, hi;
    const void *endp = NULL;
    const char *p, *q;
    int64_t out = 77;
    uint64_t uout = 77;

    vp_t_reset();
    n = mk_num();
    if (!str && vp_range(0, 3) == 0) {
        n = vp_range(0, n);
        /* the bytes that follow are not part of the text */
        p = g_num;
    } else {
        p = str ? g_num : own(n);
    }
    l = number(p, n, base, &neg, &m);
    v = neg ? -m : m;
    lo = sg ? INT64_MIN : 0;
    hi = sg ? (__int128)INT64_MAX : UINT64_MAX;
    r = how == 0 ? memtoull_ext(p, n, &uout, &endp, base)
        : how == 1 ? memtoll_ext(p, n, &out, &endp, base)
        : how == 2 ? strtoull_ext(p, &uout, (const char **)&endp, base)
        : strtoll_ext(p, &out, (const char **)&endp, base);
    if (n == 0 && !str) {
        VP_CHECK("nothing to read", r == 0 && (sg ? out : (int64_t)uout) == 0);
        return;
    }
    if (l == 0) {
        VP_CHECK("no number", r == -1 && errno == EINVAL);
        return;
    }
    if (v < lo || v > hi) {
        VP_CHECK("out of range", r == -1 && errno == ERANGE);
        return;
    }
    if (l < n && p[l] && (q = strchr(nm, p[l]))) {
        if (l + 1 < n && isalnum((unsigned char)p[l + 1])) {
            VP_CHECK("not an extension", r == -1 && errno == EDOM);
            return;
        }
        v *= mul[q - nm];
        l++;
        if (v < lo || v > hi) {
            VP_CHECK("out of range once multiplied",
                     r == -1 && errno == ERANGE);
            return;
        }
    } else
    if (l < n && isalpha((unsigned char)p[l])) {
        VP_CHECK("unknown extension", r == -1 && errno == EDOM);
        return;
    }
    VP_CHECK("the length read", r == l && endp == p + l);
    VP_CHECK("the number", v == (sg ? (__int128)out : (__int128)uout));
#endif
}
//@harness h_num_lp prop=C14 kind=bounded bound="30 bytes" bmc=no search=2 about=strtolp
VP_MAIN(h_num_lp)
{
#ifdef VP_NATIVE
    int n, l, r, flags = vp_range(0, 31), st = 0, e;
    long lo = (long)vp_range(0, 2000) - 1000, hi = lo + vp_range(0, 3000000000);
    long res = 99;
    bool neg, over, outr;
    __int128 m, v;
    const char *endp = NULL;

    n = mk_num();
    r = strtolp(g_num, &endp, 10, &res, flags, lo, hi);
    while (isspace((unsigned char)g_num[st])) {
        st++;
    }
    if (st && !(flags & STRTOLP_IGNORE_SPACES)) {
        VP_CHECK("leading blanks", r == -EINVAL);
        return;
    }
    l = number(g_num, n, 10, &neg, &m);
    v = neg ? -m : m;
    e = l ?: st;
    if (flags & STRTOLP_IGNORE_SPACES) {
        while (isspace((unsigned char)g_num[e])) {
            e++;
        }
    }
    VP_CHECK("ends", endp == g_num + e);
    if ((flags & STRTOLP_CHECK_END) && g_num[e]) {
        VP_CHECK("not the end", r == -EINVAL);
        return;
    }
    if (e == st && !(flags & STRTOLP_EMPTY_OK)) {
        VP_CHECK("empty", r == -EINVAL);
        return;
    }
    over = v > INT64_MAX || v < INT64_MIN;
    outr = v < lo || v > hi;
    if (over && !(flags & STRTOLP_CLAMP_RANGE)) {
        VP_CHECK("overflow", r == -ERANGE);
    } else
    if (outr && (flags & STRTOLP_CHECK_RANGE)) {
        VP_CHECK("out of range", r == -ERANGE);
    } else {
        VP_CHECK("succeeds", r == 0);
        VP_CHECK("the number", res == (!(flags & STRTOLP_CLAMP_RANGE) ? v
                 : v < lo ? lo : v > hi ? hi : v));
    }
#endif
}
//@harness h_num_parse prop=C14 kind=bounded bound="18 digits, 9 decimals" bmc=no search=2 about=parse_number
VP_MAIN(h_num_parse)
{
#ifdef VP_NATIVE
    static const char nm[] = "KMGTPkmgtp";
    uint64_t v = vp_bool() ? vp_range(0, 5000) : vp_u64() >> vp_range(1, 63);
    int k = vp_range(0, 12), l, d = vp_range(0, 9);
    uint64_t f = 0;
    __int128 mult = 1, e, den = 1;
    bool neg = vp_bool();
    char t[64];
    int64_t r;

    l = (snprintf)(t, sizeof(t), neg ? "-%llu" : "%llu",
                   (unsigned long long)v);
    if (d < 4) {
        t[l++] = '.';
        for (; d > 0; d--) {
            int c = vp_range(0, 9);

            t[l++] = '0' + c;
            f = f * 10 + c;
            den *= 10;
        }
    }
    if (k < 10) {
        t[l++] = nm[k];
        for (d = k % 5; d >= 0; d--) {
            mult *= k < 5 ? 1024 : 1000;
        }
    } else if (k == 11) {
        t[l++] = 'e';
        d = vp_range(0, 9);
        t[l++] = '0' + d;
        for (; d > 0; d--) {
            mult *= 10;
        }
    }
    t[l] = 0;
    e = (__int128)v * mult + (__int128)f * mult / den;
    /* "most overflow cases" only are detected within one unit of the limits */
    if (e > INT64_MAX - mult && e <= INT64_MAX + mult + 1) {
        return;
    }
    r = parse_number(t);
    VP_CHECK("the number, or INT64_MIN",
             r == (e > INT64_MAX ? INT64_MIN : neg ? -e : e));
#endif
}
