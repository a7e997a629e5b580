/* Fixed-width integers and floats in memory, streams and buffers: every
 * accessor of arith/endianess.h, arith/float.h and arith/str.h against the
 * byte-by-byte definition of the byte orders. */
//@trusted libc mempcpy/memcpy have their C semantics (cbmc's memcpy model)
//@trusted compiler built-ins __builtin_bswap16/32/64/128 swap bytes
#define VP_WANT_STUBS
#include "vp.h"
#include "vp_mem.h"
#include <lib-common/arith.h>
#include "src/core/str-buf.c"

/* {{{ model: n bytes at p as an unsigned number */

typedef unsigned __int128 u128;

static u128 val_be(const void *p, unsigned n)
{
    const uint8_t *b = p;
    u128 v = 0;

    for (unsigned i = 0; i < n; i++) {
        v = v << 8 | b[i];
    }
    return v;
}
static u128 val_le(const void *p, unsigned n)
{
    const uint8_t *b = p;
    u128 v = 0;

    for (unsigned i = 0; i < n; i++) {
        v |= (u128)b[i] << (8 * i);
    }
    return v;
}
static u128 low(u128 v, unsigned n)
{
    return n >= 16 ? v : v & (((u128)1 << (8 * n)) - 1);
}
static u128 vp_u128(void)
{
    u128 v = vp_u64();

    return v << 64 | vp_u64();
}

/* a buffer with `n` bytes at an arbitrary offset and guard bytes around */
static uint8_t *g_b;
static size_t g_at, g_probe;
static uint8_t g_was;
static uint8_t *mk(void)
{
    g_b = vp_buf(40, 40);
    g_at = vp_range(0, 24);
    g_probe = vp_range(0, 39);
    g_was = g_b[g_probe];
    return g_b + g_at;
}
/* n bytes, at the end of a block that starts with up to 24 others */
static uint8_t *mkr(unsigned n)
{
    g_at = vp_range(0, 24);
    g_b = vp_buf(g_at + n, 40);
    return g_b + g_at;
}
static bool framed(unsigned n)
{
    return (g_probe >= g_at && g_probe < g_at + n) || g_b[g_probe] == g_was;
}

/* }}} */
/* {{{ memory */

#define G(t, w, e) \
static inline t get_unaligned_##e##w(const void *p)                          \
    CONTRACT(REQUIRES(__CPROVER_r_ok(p, w / 8))                              \
             ASSIGNS()                                                       \
             ENSURES(RET == (t)val_##e(p, w / 8)));                          \
VP_MAIN(h_get_##e##w)                                                        \
{                                                                            \
    uint8_t *p = mkr(w / 8);                                                \
    t v = get_unaligned_##e##w(p);                                           \
                                                                             \
    VP_CHECK("value of the bytes", v == (t)val_##e(p, w / 8));               \
    VP_REACH();                                                              \
}
#define P(t, w, e) \
static inline void *put_unaligned_##e##w(void *p, t x)                       \
    CONTRACT(REQUIRES(__CPROVER_w_ok(p, w / 8))                              \
             ASSIGNS(UPTO(p, w / 8))                                         \
             ENSURES(val_##e(p, w / 8) == low(x, w / 8))                     \
             ENSURES(RET == (void *)((char *)p + w / 8)));                   \
VP_MAIN(h_put_##e##w)                                                        \
{                                                                            \
    uint8_t *p = mk();                                                       \
    t x = vp_u128();                                                         \
    void *r = put_unaligned_##e##w(p, x);                                    \
                                                                             \
    VP_CHECK("bytes of the value", val_##e(p, w / 8) == low(x, w / 8));      \
    VP_CHECK("returns the byte after", r == (void *)(p + w / 8));            \
    VP_CHECK("nothing else is written", framed(w / 8));                      \
    VP_REACH();                                                              \
}
#define val_cpu val_le

//@harness h_get_be16 prop=C01 enforce=cpu_to_be16pu unwind=17
G(uint16_t, 16, be)
//@harness h_get_be32 prop=C01 enforce=cpu_to_be32pu unwind=17
G(uint32_t, 32, be)
//@harness h_get_be64 prop=C01 enforce=cpu_to_be64pu unwind=17
G(uint64_t, 64, be)
//@harness h_get_be128 prop=C01 enforce=cpu_to_be128pu unwind=17
G(u128, 128, be)
//@harness h_get_be24 prop=C01 enforce=get_unaligned_be24 unwind=17
G(uint32_t, 24, be)
//@harness h_get_be48 prop=C01 enforce=get_unaligned_be48 unwind=17
G(uint64_t, 48, be)
//@harness h_get_le16 prop=C01 enforce=cpu_to_le16pu unwind=17
G(uint16_t, 16, le)
//@harness h_get_le32 prop=C01 enforce=cpu_to_le32pu unwind=17
G(uint32_t, 32, le)
//@harness h_get_le64 prop=C01 enforce=cpu_to_le64pu unwind=17
G(uint64_t, 64, le)
//@harness h_get_le128 prop=C01 enforce=cpu_to_le128pu unwind=17
G(u128, 128, le)
//@harness h_get_le24 prop=C01 enforce=get_unaligned_le24 unwind=17
G(uint32_t, 24, le)
//@harness h_get_le48 prop=C01 enforce=get_unaligned_le48 unwind=17
G(uint64_t, 48, le)
//@harness h_get_cpu16 prop=C01 enforce=get_unaligned_cpu16 unwind=17
G(uint16_t, 16, cpu)
//@harness h_get_cpu32 prop=C01 enforce=get_unaligned_cpu32 unwind=17
G(uint32_t, 32, cpu)
//@harness h_get_cpu64 prop=C01 enforce=get_unaligned_cpu64 unwind=17
G(uint64_t, 64, cpu)
//@harness h_get_cpu128 prop=C01 enforce=get_unaligned_cpu128 unwind=17
G(u128, 128, cpu)

//@harness h_put_be16 prop=C01 enforce=put_unaligned_be16 unwind=17
P(uint16_t, 16, be)
//@harness h_put_be24 prop=C01 enforce=put_unaligned_be24 unwind=17
P(uint32_t, 24, be)
//@harness h_put_be32 prop=C01 enforce=put_unaligned_be32 unwind=17
P(uint32_t, 32, be)
//@harness h_put_be48 prop=C01 enforce=put_unaligned_be48 unwind=17
P(uint64_t, 48, be)
//@harness h_put_be64 prop=C01 enforce=put_unaligned_be64 unwind=17
P(uint64_t, 64, be)
//@harness h_put_be128 prop=C01 enforce=put_unaligned_be128 unwind=17
P(u128, 128, be)
//@harness h_put_le16 prop=C01 enforce=put_unaligned_le16 unwind=17
P(uint16_t, 16, le)
//@harness h_put_le24 prop=C01 enforce=put_unaligned_le24 unwind=17
P(uint32_t, 24, le)
//@harness h_put_le32 prop=C01 enforce=put_unaligned_le32 unwind=17
P(uint32_t, 32, le)
//@harness h_put_le48 prop=C01 enforce=put_unaligned_le48 unwind=17
P(uint64_t, 48, le)
//@harness h_put_le64 prop=C01 enforce=put_unaligned_le64 unwind=17
P(uint64_t, 64, le)
//@harness h_put_le128 prop=C01 enforce=put_unaligned_le128 unwind=17
P(u128, 128, le)

/* the other direction, by value and by pointer */
#define CONV(t, w) \
    do {                                                                     \
        struct __attribute__((packed)) { uint8_t pad[3]; t v; } m;           \
        t x = vp_u128(), y;                                                  \
        y = cpu_to_be##w(x);                                                 \
        VP_CHECK("cpu_to_be" #w, val_be(&y, w / 8) == x);                    \
        VP_CHECK("be_to_cpu" #w, be_to_cpu##w(y) == x);                      \
        VP_CHECK("be_to_cpu" #w "p", be_to_cpu##w##p(&y) == x);              \
        VP_CHECK("cpu_to_be" #w "p", cpu_to_be##w##p(&x) == y);              \
        m.v = y;                                                             \
        VP_CHECK("be_to_cpu" #w "pu", be_to_cpu##w##pu(&m.v) == x);          \
        y = cpu_to_le##w(x);                                                 \
        VP_CHECK("cpu_to_le" #w, val_le(&y, w / 8) == x);                    \
        VP_CHECK("le_to_cpu" #w, le_to_cpu##w(y) == x);                      \
        VP_CHECK("le_to_cpu" #w "p", le_to_cpu##w##p(&y) == x);              \
        VP_CHECK("cpu_to_le" #w "p", cpu_to_le##w##p(&x) == y);              \
        m.v = y;                                                             \
        VP_CHECK("le_to_cpu" #w "pu", le_to_cpu##w##pu(&m.v) == x);          \
        y = bswap##w##_const(x);                                             \
        VP_CHECK("bswap" #w, y == bswap##w(x)                                \
                 && val_be(&y, w / 8) == val_le(&x, w / 8));                 \
        y = BE##w##_T(x);                                                    \
        VP_CHECK("BE" #w "_T", val_be(&y, w / 8) == x);                      \
        y = LE##w##_T(x);                                                    \
        VP_CHECK("LE" #w "_T", val_le(&y, w / 8) == x);                      \
    } while (0)
//@harness h_conv prop=C01 unwind=17 about=cpu_to_be16,cpu_to_be32,cpu_to_be64,cpu_to_be128,be_to_cpu16,be_to_cpu32,be_to_cpu64,be_to_cpu128,cpu_to_le16,cpu_to_le32,cpu_to_le64,cpu_to_le128,le_to_cpu16,le_to_cpu32,le_to_cpu64,le_to_cpu128,bswap16,bswap32,bswap64,bswap128,be_to_cpu64pu,le_to_cpu64pu
VP_MAIN(h_conv)
{
    CONV(uint16_t, 16);
    CONV(uint32_t, 32);
    CONV(uint64_t, 64);
    CONV(u128, 128);
    VP_REACH();
}

/* }}} */
/* {{{ streams */

#define PSG(t, w, e) \
static inline int ps_get_##e##w(pstream_t *ps, t *res)                       \
    CONTRACT(REQUIRES(ps->b == g_b + g_at && ps->b_end >= ps->b)             \
             ASSIGNS(*ps, *res)                                              \
             ENSURES((RET < 0) == (w / 8 > OLD(ps->b_end) - (g_b + g_at)))   \
             ENSURES(RET < 0 ? ps->b == g_b + g_at                           \
                     : RET == 0 && ps->b == g_b + g_at + w / 8               \
                       && *res == (t)val_##e(g_b + g_at, w / 8))             \
             ENSURES(ps->b_end == OLD(ps->b_end)));                          \
VP_MAIN(h_ps_get_##e##w)                                                     \
{                                                                            \
    size_t len = vp_range(0, 16);                                            \
    uint8_t *p = mkr(len);                                                   \
    pstream_t ps = ps_init(p, len);                                          \
    t v = 0;                                                                 \
    int r = ps_get_##e##w(&ps, &v);                                          \
                                                                             \
    VP_CHECK("fails exactly when too short", (r < 0) == (len < w / 8));      \
    VP_CHECK("the value of the first bytes, consumed",                       \
             r < 0 ? ps.b == p : v == (t)val_##e(p, w / 8)                   \
             && ps.b == p + w / 8);                                          \
    VP_CHECK("the end does not move", ps.b_end == p + len);                  \
    VP_REACH();                                                              \
}
//@harness h_ps_get_be16 prop=C01 enforce=ps_get_be16 unwind=17
PSG(uint16_t, 16, be)
//@harness h_ps_get_be24 prop=C01 enforce=ps_get_be24 unwind=17
PSG(uint32_t, 24, be)
//@harness h_ps_get_be32 prop=C01 enforce=ps_get_be32 unwind=17
PSG(uint32_t, 32, be)
//@harness h_ps_get_be48 prop=C01 enforce=ps_get_be48 unwind=17
PSG(uint64_t, 48, be)
//@harness h_ps_get_be64 prop=C01 enforce=ps_get_be64 unwind=17
PSG(uint64_t, 64, be)
//@harness h_ps_get_be128 prop=C01 enforce=ps_get_be128 unwind=17
PSG(u128, 128, be)
//@harness h_ps_get_le16 prop=C01 enforce=ps_get_le16 unwind=17
PSG(uint16_t, 16, le)
//@harness h_ps_get_le24 prop=C01 enforce=ps_get_le24 unwind=17
PSG(uint32_t, 24, le)
//@harness h_ps_get_le32 prop=C01 enforce=ps_get_le32 unwind=17
PSG(uint32_t, 32, le)
//@harness h_ps_get_le48 prop=C01 enforce=ps_get_le48 unwind=17
PSG(uint64_t, 48, le)
//@harness h_ps_get_le64 prop=C01 enforce=ps_get_le64 unwind=17
PSG(uint64_t, 64, le)
//@harness h_ps_get_le128 prop=C01 enforce=ps_get_le128 unwind=17
PSG(u128, 128, le)
//@harness h_ps_get_cpu16 prop=C01 enforce=ps_get_cpu16 unwind=17
PSG(uint16_t, 16, cpu)
//@harness h_ps_get_cpu32 prop=C01 enforce=ps_get_cpu32 unwind=17
PSG(uint32_t, 32, cpu)
//@harness h_ps_get_cpu64 prop=C01 enforce=ps_get_cpu64 unwind=17
PSG(uint64_t, 64, cpu)
//@harness h_ps_get_cpu128 prop=C01 enforce=ps_get_cpu128 unwind=17
PSG(u128, 128, cpu)

/* }}} */
/* {{{ floats: same bits, same bytes */

#define FLT(t, bt, w, name) \
    do {                                                                     \
        bt x = vp_u128(), y;                                                 \
        uint8_t *p = mk();                                                   \
        size_t len;                                                          \
        pstream_t ps;                                                        \
        t f, g;                                                              \
        int r;                                                               \
                                                                             \
        memcpy(&f, &x, sizeof(f));                                           \
        VP_CHECK("put be", put_unaligned_##name##_be(p, f) == (void *)(p + w / 8)); \
        VP_CHECK("bytes be", val_be(p, w / 8) == x && framed(w / 8));        \
        g = get_unaligned_##name##_be(p);                                    \
        VP_CHECK("get be", name##_is_identical(f, g));                       \
        len = vp_range(0, 40 - g_at);                                        \
        ps = ps_init(p, len);                                                \
        memset(&g, 0, sizeof(g));                                            \
        r = ps_get_##name##_be(&ps, &g);                                     \
        VP_CHECK("ps_get be", r < 0 ? len < w / 8 && ps.b == p               \
                 : len >= w / 8 && name##_is_identical(f, g)                 \
                   && ps.b == p + w / 8);                                    \
        VP_CHECK("put le", put_unaligned_##name##_le(p, f) == (void *)(p + w / 8)); \
        VP_CHECK("bytes le", val_le(p, w / 8) == x && framed(w / 8));        \
        g = get_unaligned_##name##_le(p);                                    \
        VP_CHECK("get le", name##_is_identical(f, g));                       \
        ps = ps_init(p, len);                                                \
        memset(&g, 0, sizeof(g));                                            \
        r = ps_get_##name##_le(&ps, &g);                                     \
        VP_CHECK("ps_get le", r < 0 ? len < w / 8 && ps.b == p               \
                 : len >= w / 8 && name##_is_identical(f, g)                 \
                   && ps.b == p + w / 8);                                    \
        y = name##_bits_cpu(f);                                              \
        VP_CHECK("bits cpu", y == x);                                        \
        y = name##_bits_be(f);                                               \
        VP_CHECK("bits be", val_be(&y, w / 8) == x);                         \
        g = bits_to_##name##_be(y);                                          \
        VP_CHECK("bits_to be", name##_is_identical(f, g));                   \
        y = name##_bits_le(f);                                               \
        VP_CHECK("bits le", val_le(&y, w / 8) == x);                         \
        g = bits_to_##name##_le(y);                                          \
        VP_CHECK("bits_to le", name##_is_identical(f, g));                   \
        g = bits_to_##name##_cpu(x);                                         \
        VP_CHECK("bits_to cpu", name##_is_identical(f, g));                  \
    } while (0)
//@harness h_float prop=C01 unwind=17 about=put_unaligned_float_be,put_unaligned_float_le,get_unaligned_float_be,get_unaligned_float_le,ps_get_float_be,ps_get_float_le,float_bits_be,float_bits_le,bits_to_float_be,bits_to_float_le
VP_MAIN(h_float)
{
    FLT(float, uint32_t, 32, float);
    VP_REACH();
}
//@harness h_double prop=C01 unwind=17 about=put_unaligned_double_be,put_unaligned_double_le,get_unaligned_double_be,get_unaligned_double_le,ps_get_double_be,ps_get_double_le,double_bits_be,double_bits_le,bits_to_double_be,bits_to_double_le
VP_MAIN(h_double)
{
    FLT(double, uint64_t, 64, double);
    VP_REACH();
}
/* }}} */
/* {{{ buffers */

#define SBA(t, w, e) \
VP_MAIN(h_sb_add_##e##w)                                                     \
{                                                                            \
    sb_t sb;                                                                 \
    size_t len = VP_LEN(4096, 20), k = vp_range(0, len ? len - 1 : 0);       \
    uint8_t *d;                                                              \
    uint8_t was;                                                             \
    t x = vp_u128();                                                         \
                                                                             \
    d = vp_buf(len + 1, 24);                                                 \
    d[len] = '\0';                                                           \
    was = d[k];                                                              \
    sb_init_full(&sb, d, len, len + 1, &mem_pool_libc);                      \
    sb_add_##e##w(&sb, x);                                                   \
    VP_CHECK("length", sb.len == (int)(len + w / 8));                        \
    VP_CHECK("appends the bytes",                                            \
             val_##e(sb.data + len, w / 8) == low(x, w / 8));                \
    VP_CHECK("keeps the contents", !len || (uint8_t)sb.data[k] == was);      \
    VP_CHECK("terminated", sb.data[sb.len] == '\0');                         \
    VP_REACH();                                                              \
}
//@harness h_sb_add_be16 prop=C01 about=sb_add_be16 unwind=17
SBA(uint16_t, 16, be)
//@harness h_sb_add_be24 prop=C01 about=sb_add_be24 unwind=17
SBA(uint32_t, 24, be)
//@harness h_sb_add_be32 prop=C01 about=sb_add_be32 unwind=17
SBA(uint32_t, 32, be)
//@harness h_sb_add_be48 prop=C01 about=sb_add_be48 unwind=17
SBA(uint64_t, 48, be)
//@harness h_sb_add_be64 prop=C01 about=sb_add_be64 unwind=17
SBA(uint64_t, 64, be)
//@harness h_sb_add_be128 prop=C01 about=sb_add_be128 unwind=17
SBA(u128, 128, be)
//@harness h_sb_add_le16 prop=C01 about=sb_add_le16 unwind=17
SBA(uint16_t, 16, le)
//@harness h_sb_add_le24 prop=C01 about=sb_add_le24 unwind=17
SBA(uint32_t, 24, le)
//@harness h_sb_add_le32 prop=C01 about=sb_add_le32 unwind=17
SBA(uint32_t, 32, le)
//@harness h_sb_add_le48 prop=C01 about=sb_add_le48 unwind=17
SBA(uint64_t, 48, le)
//@harness h_sb_add_le64 prop=C01 about=sb_add_le64 unwind=17
SBA(uint64_t, 64, le)
//@harness h_sb_add_le128 prop=C01 about=sb_add_le128 unwind=17
SBA(u128, 128, le)
//@harness h_sb_add_cpu32 prop=C01 about=sb_add_cpu32 unwind=17
SBA(uint32_t, 32, cpu)
//@harness h_sb_add_cpu64 prop=C01 about=sb_add_cpu64 unwind=17
SBA(uint64_t, 64, cpu)
/* }}} */
