/* Bit streams and bit buffers against the bit-sequence model: a stream is a
 * window [S, E) of the bits of a word array, a buffer is a bit sequence of
 * length len stored in size words with zeroes after it. */
#define VP_WANT_STUBS
#include "vp.h"
#include "vp_mem.h"
#include <lib-common/bit-buf.h>
#include <lib-common/bit-stream.h>
#include "src/core/bit-buf.c"
#ifdef VP_NATIVE
#include "src/core/bithacks.c"
#endif

#define PW  4096     /* words: the proofs take any size up to this */
#define BW  3

/* {{{ model */

static uint64_t *g_buf;        /* the words under the stream */
static size_t g_n;             /* how many */
static size_t g_S, g_E;        /* the window, in bits from g_buf */

static bool le_bit(const void *p, size_t i)
{
    const uint64_t *w = p;

    return (w[i / 64] >> (i % 64)) & 1;
}
static bool be_bit(const void *p, size_t i)
{
    const uint8_t *b = p;

    return (b[i / 8] >> (7 - i % 8)) & 1;
}

static size_t pos_of(const struct bit_ptroff *p)
{
    return (size_t)(p->p - g_buf) * 64 + p->offset;
}
static bool norm_ok(const struct bit_ptroff *p)
{
    return p->offset < 64 && p->p >= g_buf && p->p <= g_buf + g_n;
}
/* the stream is the window [s, e) of g_buf */
static bool win(const bit_stream_t *bs, size_t s, size_t e)
{
    return norm_ok(&bs->s) && norm_ok(&bs->e) && pos_of(&bs->s) == s
        && pos_of(&bs->e) == e;
}

static bit_stream_t mk_bs(void)
{
    bit_stream_t bs;

    g_n = 1 + VP_LEN(PW - 1, BW - 1);
    g_buf = (uint64_t *)vp_buf(g_n * 8, BW * 8);
    g_E = vp_range(0, g_n * 64);
    g_S = vp_range(0, g_E);
    bs.s.p = g_buf + g_S / 64;
    bs.s.offset = g_S % 64;
    bs.e.p = g_buf + g_E / 64;
    bs.e.offset = g_E % 64;
    return bs;
}

/* bit i of a value read from position at of the window */
static bool rd_ok(uint64_t v, size_t at, size_t blen, unsigned i, bool be)
{
    if (i >= blen) {
        return !((v >> i) & 1);
    }
    if (be) {
        return ((v >> (blen - 1 - i)) & 1) == be_bit(g_buf, at + i);
    }
    return ((v >> i) & 1) == le_bit(g_buf, at + i);
}

/* }}} */
/* {{{ reading */

static unsigned g_i;

#define READ_N(fn, be) \
static inline int fn(bit_stream_t *bs, size_t blen, uint64_t *out)           \
    CONTRACT(REQUIRES(win(bs, g_S, g_E))                                     \
             ASSIGNS(bs->s, *out)                                            \
             ENSURES((RET == -1) == (blen > 64 || blen > g_E - g_S))         \
             ENSURES(RET != -1 ==> RET == (int)blen)                         \
             ENSURES(win(bs, RET == -1 ? g_S : g_S + blen, g_E))             \
             ENSURES(RET == -1 || rd_ok(*out, g_S, blen, g_i, be)))          \
    ;                                                                        \
VP_MAIN(h_##fn)                                                              \
{                                                                            \
    bit_stream_t bs = mk_bs();                                               \
    size_t blen = vp_u64();                                                  \
    uint64_t out = 0;                                                        \
    int r;                                                                   \
                                                                             \
    g_i = vp_range(0, 63);                                                   \
    r = fn(&bs, blen, &out);                                                 \
    VP_CHECK("refused exactly when the bits are not there",                  \
             (r == -1) == (blen > 64 || blen > g_E - g_S));                  \
    VP_CHECK("returns the bit count", r == -1 || r == (int)blen);            \
    VP_CHECK("advances by what was read",                                    \
             win(&bs, r == -1 ? g_S : g_S + blen, g_E));                     \
    VP_CHECK("reads the bits of the window",                                 \
             r == -1 || rd_ok(out, g_S, blen, g_i, be));                     \
    VP_REACH();                                                              \
}

//@harness h_bs_get_bits prop=C02 enforce=bs_get_bits
READ_N(bs_get_bits, false)
//@harness h_bs_be_get_bits prop=C02 solver=cadical enforce=bs_be_get_bits unwind=10
READ_N(bs_be_get_bits, true)

#define LAST_N(fn, be) \
static inline int fn(bit_stream_t *bs, size_t blen, uint64_t *out)           \
    CONTRACT(REQUIRES(win(bs, g_S, g_E))                                     \
             ASSIGNS(bs->e, *out)                                            \
             ENSURES((RET == -1) == (blen > 64 || blen > g_E - g_S))         \
             ENSURES(RET != -1 ==> RET == (int)blen)                         \
             ENSURES(win(bs, g_S, RET == -1 ? g_E : g_E - blen))             \
             ENSURES(RET == -1 || rd_ok(*out, g_E - blen, blen, g_i, be)))   \
    ;                                                                        \
VP_MAIN(h_##fn)                                                              \
{                                                                            \
    bit_stream_t bs = mk_bs();                                               \
    size_t blen = vp_u64();                                                  \
    uint64_t out = 0;                                                        \
    int r;                                                                   \
                                                                             \
    g_i = vp_range(0, 63);                                                   \
    r = fn(&bs, blen, &out);                                                 \
    VP_CHECK("refused exactly when the bits are not there",                  \
             (r == -1) == (blen > 64 || blen > g_E - g_S));                  \
    VP_CHECK("returns the bit count", r == -1 || r == (int)blen);            \
    VP_CHECK("drops what was read",                                          \
             win(&bs, g_S, r == -1 ? g_E : g_E - blen));                     \
    VP_CHECK("reads the last bits of the window",                            \
             r == -1 || rd_ok(out, g_E - blen, blen, g_i, be));              \
    VP_REACH();                                                              \
}

//@harness h_bs_get_last_bits prop=C02 solver=cadical enforce=bs_get_last_bits
LAST_N(bs_get_last_bits, false)
//@harness h_bs_be_get_last_bits prop=C02 solver=cadical enforce=bs_be_get_last_bits unwind=10
LAST_N(bs_be_get_last_bits, true)

/* one bit, at either end; mv: does the stream move */
#define BIT_1(fn, cst, bitf, at, ns, ne) \
static inline int fn(cst bit_stream_t *bs)                                   \
    CONTRACT(REQUIRES(win(bs, g_S, g_E))                                     \
             ASSIGNS(bs->s, bs->e)                                           \
             ENSURES((RET == -1) == (g_S == g_E))                            \
             ENSURES(RET == -1 || RET == (int)bitf(g_buf, at))               \
             ENSURES(RET == -1 ? win(bs, g_S, g_E) : win(bs, ns, ne)))       \
    ;                                                                        \
VP_MAIN(h_##fn)                                                              \
{                                                                            \
    bit_stream_t bs = mk_bs();                                               \
    int r = fn(&bs);                                                         \
                                                                             \
    VP_CHECK("refused exactly when empty", (r == -1) == (g_S == g_E));       \
    VP_CHECK("is the bit of the window",                                     \
             r == -1 || r == (int)bitf(g_buf, at));                          \
    VP_CHECK("moves by one bit or not at all",                               \
             r == -1 ? win(&bs, g_S, g_E) : win(&bs, ns, ne));               \
    VP_REACH();                                                              \
}

//@harness h_bs_get_bit prop=C02 enforce=bs_get_bit
BIT_1(bs_get_bit, , le_bit, g_S, g_S + 1, g_E)
//@harness h_bs_peek_bit prop=C02 enforce=bs_peek_bit
BIT_1(bs_peek_bit, const, le_bit, g_S, g_S, g_E)
//@harness h_bs_get_last_bit prop=C02 enforce=bs_get_last_bit
BIT_1(bs_get_last_bit, , le_bit, g_E - 1, g_S, g_E - 1)
//@harness h_bs_peek_last_bit prop=C02 enforce=bs_peek_last_bit
BIT_1(bs_peek_last_bit, const, le_bit, g_E - 1, g_S, g_E)
//@harness h_bs_be_get_bit prop=C02 enforce=bs_be_get_bit
BIT_1(bs_be_get_bit, , be_bit, g_S, g_S + 1, g_E)
//@harness h_bs_be_peek_bit prop=C02 enforce=bs_be_peek_bit
BIT_1(bs_be_peek_bit, const, be_bit, g_S, g_S, g_E)
//@harness h_bs_be_get_last_bit prop=C02 enforce=bs_be_get_last_bit
BIT_1(bs_be_get_last_bit, , be_bit, g_E - 1, g_S, g_E - 1)
//@harness h_bs_be_peek_last_bit prop=C02 enforce=bs_be_peek_last_bit
BIT_1(bs_be_peek_last_bit, const, be_bit, g_E - 1, g_S, g_E)

/* }}} */
/* {{{ windows */

#define MOVE(fn, rv, ns, ne) \
static inline ssize_t fn(bit_stream_t *bs, size_t blen)                      \
    CONTRACT(REQUIRES(win(bs, g_S, g_E))                                     \
             ASSIGNS(bs->s, bs->e)                                           \
             ENSURES((RET == -1) == (blen > g_E - g_S))                      \
             ENSURES(RET == -1 ? win(bs, g_S, g_E)                           \
                     : RET == (ssize_t)(rv) && win(bs, ns, ne)))             \
    ;                                                                        \
VP_MAIN(h_##fn)                                                              \
{                                                                            \
    bit_stream_t bs = mk_bs();                                               \
    size_t blen = vp_u64();                                                  \
    ssize_t r = fn(&bs, blen);                                               \
                                                                             \
    VP_CHECK("refused exactly when too long", (r == -1) == (blen > g_E - g_S)); \
    VP_CHECK("sub-window", r == -1 ? win(&bs, g_S, g_E)                      \
             : r == (ssize_t)(rv) && win(&bs, ns, ne));                      \
    VP_REACH();                                                              \
}
//@harness h_bs_skip prop=C02 enforce=bs_skip
MOVE(bs_skip, blen, g_S + blen, g_E)
//@harness h_bs_shrink prop=C02 enforce=bs_shrink
MOVE(bs_shrink, blen, g_S, g_E - blen)
//@harness h_bs_clip prop=C02 enforce=bs_clip
MOVE(bs_clip, g_E - g_S - blen, g_S, g_S + blen)

static bit_stream_t g_out;

static inline int bs_get_bs(bit_stream_t *bs, size_t len, bit_stream_t *out)
    CONTRACT(REQUIRES(win(bs, g_S, g_E))
             ASSIGNS(bs->s, *out)
             ENSURES((RET == -1) == (len > g_E - g_S))
             ENSURES(RET == -1 ? win(bs, g_S, g_E)
                     : RET == 0 && win(bs, g_S + len, g_E)
                       && win(out, g_S, g_S + len)));
//@harness h_bs_get_bs prop=C02 enforce=bs_get_bs
VP_MAIN(h_bs_get_bs)
{
    bit_stream_t bs = mk_bs();
    size_t len = vp_u64();
    int r = bs_get_bs(&bs, len, &g_out);

    VP_CHECK("refused exactly when too long", (r == -1) == (len > g_E - g_S));
    VP_CHECK("splits the window", r == -1 ? win(&bs, g_S, g_E)
             : r == 0 && win(&bs, g_S + len, g_E)
               && win(&g_out, g_S, g_S + len));
    VP_REACH();
}

static pstream_t g_ps;
static bool ps_is(const pstream_t *ps, const void *p, size_t len)
{
    return ps->p == p && (size_t)(ps->b_end - ps->b) == len;
}

static inline int bs_get_bytes(bit_stream_t *bs, size_t len, pstream_t *ps)
    CONTRACT(REQUIRES(win(bs, g_S, g_E))
             ASSIGNS(bs->s, *ps)
             ENSURES((RET == -1) == (g_S % 8 != 0 || len > (g_E - g_S) / 8))
             ENSURES(RET == -1 ? win(bs, g_S, g_E)
                     : RET == 0 && win(bs, g_S + len * 8, g_E)
                       && ps_is(ps, (const byte *)g_buf + g_S / 8, len)));
//@harness h_bs_get_bytes prop=C02 enforce=bs_get_bytes
VP_MAIN(h_bs_get_bytes)
{
    bit_stream_t bs = mk_bs();
    size_t len = vp_u64();
    int r = bs_get_bytes(&bs, len, &g_ps);

    VP_CHECK("refused exactly when unaligned or too long",
             (r == -1) == (g_S % 8 != 0 || len > (g_E - g_S) / 8));
    VP_CHECK("the bytes are those of the window",
             r == -1 ? win(&bs, g_S, g_E)
             : r == 0 && win(&bs, g_S + len * 8, g_E)
               && ps_is(&g_ps, (const byte *)g_buf + g_S / 8, len));
    VP_REACH();
}

/* byte-pointer based cuts: p is any byte of the words, off any bit offset */
static size_t g_at;
#define CUT(fn, rt, args, call, ns, ne, rv, outcond, ...) \
static inline rt fn args                                                     \
    CONTRACT(REQUIRES(win(bs, g_S, g_E))                                     \
             ASSIGNS(__VA_ARGS__)                                            \
             ENSURES((RET == -1) == (g_at < g_S || g_at > g_E))              \
             ENSURES(RET == -1 ? win(bs, g_S, g_E)                           \
                     : RET == (ssize_t)(rv) && win(bs, ns, ne) && outcond)); \
VP_MAIN(h_##fn)                                                              \
{                                                                            \
    bit_stream_t bs_ = mk_bs();                                              \
    bit_stream_t *bs = &bs_;                                                 \
    bit_stream_t *out = &g_out;                                              \
    size_t pb = vp_range(0, g_n * 8);                                        \
    size_t off = vp_range(0, g_n * 64 - pb * 8);                             \
    const byte *p = (const byte *)g_buf + pb;                                \
    ssize_t r;                                                               \
                                                                             \
    g_at = pb * 8 + off;                                                     \
    r = call;                                                                \
    VP_CHECK("refused exactly when outside",                                 \
             (r == -1) == (g_at < g_S || g_at > g_E));                       \
    VP_CHECK("cuts the window there",                                        \
             r == -1 ? win(bs, g_S, g_E)                                     \
             : r == (ssize_t)(rv) && win(bs, ns, ne) && outcond);            \
    VP_REACH();                                                              \
}
//@harness h_bs_skip_upto prop=C02 enforce=bs_skip_upto
CUT(bs_skip_upto, ssize_t, (bit_stream_t *bs, const void *p, size_t off),
    bs_skip_upto(bs, p, off), g_at, g_E, g_at - g_S, true, bs->s)
//@harness h_bs_clip_at prop=C02 enforce=bs_clip_at
CUT(bs_clip_at, ssize_t, (bit_stream_t *bs, const void *p, size_t off),
    bs_clip_at(bs, p, off), g_S, g_at, g_E - g_at, true, bs->e)
//@harness h_bs_extract_after prop=C02 enforce=bs_extract_after
CUT(bs_extract_after, int, (const bit_stream_t *bs, const void *p, size_t off,
                            bit_stream_t *out),
    bs_extract_after(bs, p, off, out), g_S, g_E, 0, win(out, g_at, g_E), *out)
//@harness h_bs_get_bs_upto prop=C02 enforce=bs_get_bs_upto
CUT(bs_get_bs_upto, int, (bit_stream_t *bs, const void *p, size_t off,
                          bit_stream_t *out),
    bs_get_bs_upto(bs, p, off, out), g_at, g_E, 0, win(out, g_S, g_at),
    bs->s, *out)

//@harness h_bs_init prop=C02 solver=cadical about=bs_init,bs_init_ptroff,bs_init_ps,bs_len,bs_align
VP_MAIN(h_bs_init)
{
    bit_stream_t bs;
    size_t pb, len, off;
    pstream_t ps;
    ssize_t r;

    g_n = 1 + VP_LEN(PW - 1, BW - 1);
    g_buf = (uint64_t *)vp_buf(g_n * 8, BW * 8);
    pb = vp_range(0, g_n * 8);
    off = vp_range(0, g_n * 64 - pb * 8);
    len = vp_range(0, g_n * 64 - pb * 8 - off);
    bs = bs_init((byte *)g_buf + pb, off, len);
    VP_CHECK("bs_init: the window that was asked for",
             win(&bs, pb * 8 + off, pb * 8 + off + len));
    VP_CHECK("bs_init: length", bs_len(&bs) == len);
    VP_CHECK("bs_init: has", bs_has(&bs, len) && !bs_has(&bs, len + 1));
    VP_CHECK("bs_init: has bytes", bs_has_bytes(&bs, len / 8)
             && !bs_has_bytes(&bs, len / 8 + 1));
    VP_CHECK("bs_init: done", bs_done(&bs) == (len == 0));
    r = bs_align(&bs);
    VP_CHECK("bs_align: to the next byte, within the window",
             r == -1 ? ROUND_UP(off, 8) > off + len
             && win(&bs, pb * 8 + off, pb * 8 + off + len)
             : r == (ssize_t)(ROUND_UP(off, 8) - off)
             && win(&bs, pb * 8 + ROUND_UP(off, 8), pb * 8 + off + len));
    ps = ps_init((byte *)g_buf + pb, len / 8);
    bs = bs_init_ps(&ps, len / 8 ? off % 8 : 0);
    VP_CHECK("bs_init_ps: the bytes without the padding",
             win(&bs, pb * 8, pb * 8 + len / 8 * 8 - (len / 8 ? off % 8 : 0)));
    VP_REACH();
}

/* }}} */
/* {{{ bit buffers */

static bb_t g_bb;
static size_t g_len;            /* length before */
static size_t g_k;              /* any bit */
static bool g_old;              /* the bit before (0 from len on) */

/* bit k of the buffer */
static bool bb_bit(const bb_t *bb, size_t k, bool be)
{
    return be ? be_bit(bb->bytes, k) : le_bit(bb->data, k);
}

/* a buffer of g_n words, len bits used, zeroes after; room: bits that can be
 * added without growing */
static void mk_bb(bool be)
{
    size_t w, size;
    uint64_t *d;

    size = 1 + VP_LEN(PW - 1, BW - 1);
    d = (uint64_t *)vp_buf(size * 8, BW * 8);
    g_len = vp_range(0, size * 64);
    w = g_len / 64;
    if (w < size) {
        uint64_t m = g_len % 64 ? BITMASK_LT(uint64_t, g_len % 64) : 0;

        if (be) {
            /* whole bytes, then the high bits of the last one */
            m = BITMASK_LT(uint64_t, g_len % 64 & ~7);
            m |= ((0xff00ull >> g_len % 8) & 0xff) << (g_len % 64 & ~7);
        }
        d[w] &= m;
        memset(d + w + 1, 0, (size - w - 1) * 8);
    }
    memset(&g_bb, 0, sizeof(g_bb));
    g_bb.data = d;
    g_bb.len = g_len;
    g_bb.size = size;
    g_bb.alignment = 8;
}
/* same, with room for `room` more bits so that nothing is reallocated */
static void mk_bb_room(size_t room, bool be)
{
    mk_bb(be);
    VP_ASSUME(room < PW * 64
              && DIV_ROUND_UP(g_len + room, 64) < g_bb.size);
}
/* pick the bit to look at, among the `upto` first ones */
static void pick_bit(size_t upto, bool be)
{
    g_k = vp_range(0, upto);
    g_old = g_k < g_len ? bb_bit(&g_bb, g_k, be) : false;
}
static bool bb_inv(const bb_t *bb, size_t len)
{
    return bb->len == len && len <= bb->size * 64 && bb->alignment == 8;
}
/* every bit from len on is clear; bit k as expected */
static bool bit_is(const bb_t *bb, bool v, bool be)
{
    return g_k >= bb->size * 64 || bb_bit(bb, g_k, be) == v;
}

//@harness h_bb_add_bits prop=C02 about=bb_add_bits,bb_add_bit,bb_add_byte,bb_grow,__bb_grow
VP_MAIN(h_bb_add_bits)
{
    uint64_t bits = vp_u64();
    uint8_t blen = vp_range(0, 64);
    bool exp;

    mk_bb(false);
    pick_bit(g_len + 64 + 64, false);
    bb_add_bits(&g_bb, bits, blen);
    VP_CHECK("length grows by blen", bb_inv(&g_bb, g_len + blen));
    exp = g_k < g_len ? g_old
        : g_k < g_len + blen ? (bits >> (g_k - g_len)) & 1 : false;
    VP_CHECK("appends the low bits, keeps the rest", bit_is(&g_bb, exp, false));
    VP_REACH();
}
//@harness h_bb_be_add_bits prop=C02 solver=cadical about=bb_be_add_bits,bb_be_add_byte unwind=10
VP_MAIN(h_bb_be_add_bits)
{
    uint64_t bits = vp_u64();
    uint8_t blen = vp_range(0, 64);
    bool exp;

    mk_bb(true);
    pick_bit(g_len + 64 + 64, true);
    bb_be_add_bits(&g_bb, bits, blen);
    VP_CHECK("length grows by blen", bb_inv(&g_bb, g_len + blen));
    exp = g_k < g_len ? g_old
        : g_k < g_len + blen ? (bits >> (g_len + blen - 1 - g_k)) & 1 : false;
    VP_CHECK("appends the low bits, keeps the rest", bit_is(&g_bb, exp, true));
    VP_REACH();
}
//@harness h_bb_add_bit prop=C02 about=bb_add_bit
VP_MAIN(h_bb_add_bit)
{
    bool v = vp_bool();

    mk_bb(false);
    pick_bit(g_len + 64, false);
    bb_add_bit(&g_bb, v);
    VP_CHECK("length grows by one", bb_inv(&g_bb, g_len + 1));
    VP_CHECK("appends the bit, keeps the rest",
             bit_is(&g_bb, g_k == g_len ? v : g_old, false));
    VP_REACH();
}
//@harness h_bb_be_add_bit prop=C02 about=bb_be_add_bit
VP_MAIN(h_bb_be_add_bit)
{
    bool v = vp_bool();

    mk_bb(true);
    pick_bit(g_len + 64, true);
    bb_be_add_bit(&g_bb, v);
    VP_CHECK("length grows by one", bb_inv(&g_bb, g_len + 1));
    VP_CHECK("appends the bit, keeps the rest",
             bit_is(&g_bb, g_k == g_len ? v : g_old, true));
    VP_REACH();
}
//@harness h_bb_grow prop=C02 about=bb_grow,__bb_grow
VP_MAIN(h_bb_grow)
{
    size_t extra = VP_LEN(PW * 64, BW * 64);

    mk_bb(false);
    pick_bit(g_len + extra + 64, false);
    bb_grow(&g_bb, extra);
    VP_CHECK("makes room, keeps the length",
             bb_inv(&g_bb, g_len) && g_len + extra <= g_bb.size * 64);
    VP_CHECK("keeps the bits", bit_is(&g_bb, g_old, false));
    VP_REACH();
}
#define ADD01(name, be, one, call) \
VP_MAIN(name)                                                                \
{                                                                            \
    size_t len = VP_LEN(PW * 64, BW * 64);                                   \
                                                                             \
    mk_bb_room(len, be);                                                     \
    pick_bit(g_len + len + 64, be);                                          \
    call;                                                                    \
    VP_CHECK("length", bb_inv(&g_bb, g_len + len));                          \
    VP_CHECK("appends, keeps the rest", bit_is(&g_bb, g_k < g_len ? g_old    \
                                    : one && g_k < g_len + len, be));        \
    VP_REACH();                                                              \
}
//@harness h_bb_add0s prop=C02 about=bb_add0s,bb_growlen
ADD01(h_bb_add0s, false, false, bb_add0s(&g_bb, len))
//@harness h_bb_add1s prop=C02 about=bb_add1s
ADD01(h_bb_add1s, false, true, bb_add1s(&g_bb, len))
//@harness h_bb_align prop=C02 about=bb_align
ADD01(h_bb_align, false, false, VP_ASSUME(len < 8 && (g_len + len) % 8 == 0);
      bb_align(&g_bb))

/* {{{ bounded: loops over words or bits that reallocate (the loop havoc of a
 * reallocated pointer is out of the verifier's reach) */

//@harness h_bb_shift_left prop=C02 kind=bounded about=bb_shift_left,bb_reset bound="buffers of at most 3 words" bmc=no search=6
VP_MAIN(h_bb_shift_left)
{
    size_t shift;
    bool exp;

    mk_bb(false);
    pick_bit(g_len + 64, false);
    shift = vp_range(0, g_len + 9);
    exp = shift < g_len && g_k < g_len - shift
        ? le_bit(g_bb.data, g_k + shift) : false;
    bb_shift_left(&g_bb, shift);
    VP_CHECK("length", g_bb.len == (shift < g_len ? g_len - shift : 0));
    VP_CHECK("the bits from shift on, then zeroes",
             bit_is(&g_bb, exp, false));
    VP_REACH();
}

#define ADDBYTES(name, be, call) \
VP_MAIN(name)                                                                \
{                                                                            \
    size_t al = vp_range(0, 7);                                              \
    size_t len = VP_LEN(20, 20);                                             \
    byte *b = vp_buf(28, 28) + al;                                           \
    bool exp;                                                                \
                                                                             \
    mk_bb(be);                                                               \
    pick_bit(g_len + len * 8 + 64, be);                                      \
    exp = g_k < g_len ? g_old : g_k < g_len + len * 8                        \
        ? (be ? (b[(g_k - g_len) / 8] >> (7 - (g_k - g_len) % 8)) & 1        \
           : (b[(g_k - g_len) / 8] >> ((g_k - g_len) % 8)) & 1) : false;     \
    call;                                                                    \
    VP_CHECK("length", bb_inv(&g_bb, g_len + len * 8));                      \
    VP_CHECK("appends the bytes, keeps the rest", bit_is(&g_bb, exp, be));   \
}
//@harness h_bb_add_bytes prop=C02 kind=bounded about=bb_add_bytes bound="buffers of 3 words, 20 bytes at any alignment" bmc=no search=5
ADDBYTES(h_bb_add_bytes, false, bb_add_bytes(&g_bb, b, len))
//@harness h_bb_be_add_bytes prop=C02 kind=bounded about=bb_be_add_bytes bound="buffers of 3 words, 20 bytes at any alignment" bmc=no search=5
ADDBYTES(h_bb_be_add_bytes, true, bb_be_add_bytes(&g_bb, b, len))

#define ADDBS(name, be, call) \
VP_MAIN(name)                                                                \
{                                                                            \
    bit_stream_t bs = mk_bs();                                               \
    uint64_t *src = g_buf;                                                   \
    size_t len = g_E - g_S;                                                  \
    bool exp;                                                                \
                                                                             \
    mk_bb(be);                                                               \
    pick_bit(g_len + len + 64, be);                                          \
    exp = g_k < g_len ? g_old : g_k < g_len + len                            \
        ? (be ? be_bit(src, g_S + g_k - g_len)                               \
           : le_bit(src, g_S + g_k - g_len)) : false;                        \
    call;                                                                    \
    VP_CHECK("length", bb_inv(&g_bb, g_len + len));                          \
    VP_CHECK("appends the stream, keeps the rest", bit_is(&g_bb, exp, be));  \
    VP_CHECK("the stream is not consumed", win(&bs, g_S, g_E));              \
}
//@harness h_bb_add_bs prop=C02 kind=bounded about=bb_add_bs bound="streams and buffers of 3 words" bmc=no search=5
ADDBS(h_bb_add_bs, false, bb_add_bs(&g_bb, &bs))
//@harness h_bb_be_add_bs prop=C02 kind=bounded about=bb_be_add_bs bound="streams and buffers of 3 words" bmc=no search=5
ADDBS(h_bb_be_add_bs, true, bb_be_add_bs(&g_bb, &bs))

/* after any use, reset gives an empty buffer of zeroes */
//@harness h_bb_reset prop=C02 kind=bounded about=bb_reset,bb_init,bb_wipe,bb_init_full bound="buffers of 3 words" bmc=no search=3
VP_MAIN(h_bb_reset)
{
    mk_bb(vp_bool());
    pick_bit(g_bb.size * 64, false);
    bb_reset(&g_bb);
    VP_CHECK("empty", bb_inv(&g_bb, 0));
    VP_CHECK("all clear", bit_is(&g_bb, false, false));
    bb_add_bits(&g_bb, ~0ull, 5);
    VP_CHECK("reusable", bit_is(&g_bb, g_k < 5, false));
}

/* scans: up to / after the first (last) bit equal to v, within max bits */
#define SCAN(fn, call, last, ns, ne, rv, outc) \
VP_MAIN(h_##fn)                                                              \
{                                                                            \
    bit_stream_t bs = mk_bs();                                               \
    bool v = vp_bool();                                                      \
    ssize_t max = vp_bool() ? -1 : (ssize_t)vp_range(1, g_E - g_S + 2);      \
    size_t w = max < 0 || #fn[3] == 'g' || (size_t)max > g_E - g_S ? g_E - g_S : (size_t)max; \
    size_t at, k;                                                            \
    bool none = true;                                                        \
    ssize_t r;                                                               \
                                                                             \
    at = last ? g_E : g_S;                                                   \
    for (k = 0; k < w && none; k++) {                                        \
        at = last ? g_E - 1 - k : g_S + k;                                   \
        none = le_bit(g_buf, at) != v;                                       \
    }                                                                        \
    r = call;                                                                \
    VP_CHECK("fails exactly when there is none", (r == -1) == none);         \
    VP_CHECK("stops at the right one", r == -1 ? win(&bs, g_S, g_E)          \
             : r == (ssize_t)(rv) && win(&bs, ns, ne) && outc);              \
}
//@harness h_bs_skip_upto_bit prop=C02 kind=bounded about=bs_skip_upto_bit bound="streams of 3 words" bmc=no search=3
SCAN(bs_skip_upto_bit, bs_skip_upto_bit(&bs, v, max), false, at, g_E, at - g_S, true)
//@harness h_bs_skip_after_bit prop=C02 kind=bounded about=bs_skip_after_bit bound="streams of 3 words" bmc=no search=3
SCAN(bs_skip_after_bit, bs_skip_after_bit(&bs, v, max), false, at + 1, g_E, at + 1 - g_S, true)
//@harness h_bs_get_bs_bit prop=C02 kind=bounded about=bs_get_bs_bit bound="streams of 3 words" bmc=no search=3
SCAN(bs_get_bs_bit, bs_get_bs_bit(&bs, v, &g_out), false, at, g_E, 0,
     win(&g_out, g_S, at))
//@harness h_bs_shrink_downto_bit prop=C02 kind=bounded about=bs_shrink_downto_bit bound="streams of 3 words" bmc=no search=3
SCAN(bs_shrink_downto_bit, bs_shrink_downto_bit(&bs, v, max), true, g_S, at + 1, g_E - at - 1, true)
//@harness h_bs_shrink_before_bit prop=C02 kind=bounded about=bs_shrink_before_bit bound="streams of 3 words" bmc=no search=3
SCAN(bs_shrink_before_bit, bs_shrink_before_bit(&bs, v, max), true, g_S, at, g_E - at, true)

//@harness h_bs_equals prop=C02 kind=bounded about=bs_equals bound="streams of 3 words" bmc=no search=3
VP_MAIN(h_bs_equals)
{
    bit_stream_t a = mk_bs(), b, c;
    size_t len = g_E - g_S, off = vp_range(0, 70), flip, i;
    uint64_t *w = vp_alloc((g_n + 2) * 8);

    memset(w, 0, (g_n + 2) * 8);
    for (i = 0; i < len; i++) {
        w[(off + i) / 64] |= (uint64_t)le_bit(g_buf, g_S + i)
            << ((off + i) % 64);
    }
    b = bs_init(w, off, len);
    VP_CHECK("equal bits compare equal", bs_equals(a, b));
    if (len) {
        flip = vp_range(0, len - 1);
        c = bs_init(w, off, len - 1);
        VP_CHECK("lengths differ", !bs_equals(a, c));
        w[(off + flip) / 64] ^= 1ull << ((off + flip) % 64);
        VP_CHECK("one bit differs", !bs_equals(a, b));
    }
}
/* }}} */
