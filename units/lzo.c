/* LZO compression. */
#define VP_WANT_STUBS
#include "vp.h"
#define VP_NT 1
#include "vp_track.h"
#include <lib-common/core.h>
#include <lib-common/arith.h>
#include "src/core/qlzo-d.c"
#include "src/core/qlzo-c.c"

/* {{{ decoding steps: proofs */

#ifdef VP_CBMC
# define LZMAX  (1u << 20)
#else
# define LZMAX  40
#endif
static uint8_t *lz_buf(size_t n)
{
    uint8_t *p = malloc(n);

    VP_ASSUME(p != NULL);
#ifdef VP_NATIVE
    for (size_t i = 0; i < n; i++) {
        p[i] = vp_bool() ? 0 : vp_u8();
    }
#endif
    return p;
}
//@loop lzo_get_varlen 0
//  __CPROVER_assigns(b)
//  __CPROVER_loop_invariant(__CPROVER_same_object(b, in->b))
//  __CPROVER_loop_invariant(__CPROVER_POINTER_OFFSET(b) >= __CPROVER_POINTER_OFFSET(in->b) && __CPROVER_POINTER_OFFSET(b) < __CPROVER_POINTER_OFFSET(in->b_end))
//  __CPROVER_decreases(__CPROVER_POINTER_OFFSET(in->b_end) - __CPROVER_POINTER_OFFSET(b))
//@end
//@harness h_lz_varlen prop=C21 loops=yes solver=cadical about=lzo_get_varlen
VP_MAIN(h_lz_varlen)
{
    size_t n = vp_range(1, LZMAX);
    uint8_t *p = lz_buf(n), k = vp_range(0, 2);
    unsigned mask = k == 0 ? 7 : k == 1 ? 15 : 31, u;
    pstream_t ps = ps_init(p, n);
    int r;
    size_t l;

    u = p[0];
    r = lzo_get_varlen(&ps, u, mask);
    if (r < 0) {
        VP_CHECK("refused: zeroes up to the end", r == LZO_ERR_INPUT_OVERRUN
                 && (u & mask) == 0);
        return;
    }
    l = ps.b - p;
    VP_CHECK("reads at least one byte, within the input",
             l >= 1 && l <= n && ps.b_end == p + n);
    if (u & mask) {
        VP_CHECK("short length", l == 1 && r == (int)(u & mask));
    } else {
        VP_CHECK("long length", l >= 2 && p[l - 1] != 0
                 && r == (int)(mask + 255 * (l - 2) + p[l - 1]));
    }
    VP_REACH();
}
static struct {
    uint8_t *out, *in;
    size_t on, n, pos, k;
    uint8_t v;
} L;
/* The code computes addresses outside of the output before it compares them
 * to its ends, hence room around the output (never to be written to). */
#define LZ_ROOM  0x10000
#define LZ_TAIL  (LZMAX + 8)
#define LZ_OUT(os_)                                                          \
    L.on = vp_range(1, LZMAX);                                               \
    L.out = lz_buf(LZ_ROOM + L.on + LZ_TAIL);                                \
    L.out += LZ_ROOM;                                                        \
    L.pos = vp_range(0, LZMAX);                                              \
    VP_ASSUME(L.pos <= L.on);                                                \
    L.k = vp_range(0, LZ_ROOM + 2 * LZMAX + 7);                              \
    VP_ASSUME(L.k < LZ_ROOM + L.on + LZ_TAIL                                 \
              && (L.k < LZ_ROOM + L.pos || L.k >= LZ_ROOM + L.on));          \
    L.v = L.out[(ssize_t)L.k - LZ_ROOM];                                     \
    ostream_t os_ = { .b = L.out + L.pos, .b_end = L.out + L.on }
#define LZ_KEPT()                                                            \
    VP_CHECK("nothing is written before the position nor past the end",     \
             L.out[(ssize_t)L.k - LZ_ROOM] == L.v)

//@harness h_lz_copy_in prop=C21 solver=cadical about=lzo_copy_input,lzo_copy_input_small
VP_MAIN(h_lz_copy_in)
{
    bool small = vp_bool();
    size_t n = vp_range(0, LZMAX), sz = small ? vp_range(1, 3) : vp_range(1, LZMAX + 1), k;
    uint8_t *p = lz_buf(n), v;
    pstream_t ps = ps_init(p, n);
    int r;
    LZ_OUT(os);

    k = vp_range(0, LZMAX);
    VP_ASSUME(k < sz);
    v = k < n ? p[k] : 0;
    VP_TRACK(0, p + (k < n ? k : 0));
    r = small ? lzo_copy_input_small(&ps, &os, sz) : lzo_copy_input(&ps, &os, sz);
    VP_CHECK("fails exactly when one side is too short",
             r == (sz > n ? LZO_ERR_INPUT_OVERRUN
                   : sz > L.on - L.pos ? LZO_ERR_OUTPUT_OVERRUN : 0));
    if (r == 0) {
        VP_CHECK("both move by that size", ps.b == p + sz && os.b == L.out + L.pos + sz);
        VP_CHECK("the bytes are copied", L.out[L.pos + k] == v);
    }
    VP_CHECK("ends do not move", os.b_end == L.out + L.on && ps.b_end == p + n);
    LZ_KEPT();
    VP_REACH();
}
//@harness h_lz_back23 prop=C21 solver=cadical about=lzo_copy_backptr2,lzo_copy_backptr3
VP_MAIN(h_lz_back23)
{
    unsigned back = vp_range(1, 0xc000), sz = vp_range(2, 3), k;
    int r;
    LZ_OUT(os);

    k = vp_range(0, 2);
    VP_ASSUME(k < sz);
    r = sz == 2 ? lzo_copy_backptr2(&os, L.out, back) : lzo_copy_backptr3(&os, L.out, back);
    VP_CHECK("fails exactly when it is before the start or past the end",
             r == (back > L.pos ? LZO_ERR_BACKPTR_OVERRUN
                   : sz > L.on - L.pos ? LZO_ERR_OUTPUT_OVERRUN : 0));
    if (r == 0) {
        VP_CHECK("moves by that size", os.b == L.out + L.pos + sz);
        VP_CHECK("repeats the bytes", L.out[L.pos + k] == L.out[L.pos + k - back]);
    }
    LZ_KEPT();
    VP_REACH();
}
/* }}} */
/* {{{ round trip */

#ifdef VP_NATIVE
bool mem_tool_is_running(unsigned tools)
{
    return false;
}
#endif

#ifdef VP_NATIVE
static uint64_t rng_s;
static uint64_t rng(uint64_t n)
{
    rng_s = rng_s * 6364136223846793005ull + 1442695040888963407ull;
    return (rng_s >> 33) % n;
}
#define LZN  150000
static size_t lz_data(uint8_t *p)
{
    size_t n = 0, max = rng(4) == 0 ? rng(LZN) : rng(3) == 0 ? rng(5000) : rng(300);
    int alpha = rng(2) ? 256 : 1 + rng(6);

    while (n < max) {
        size_t l = rng(3) == 0 ? rng(2000) : rng(3) ? 1 + rng(12) : rng(300);

        l = MIN(l, max - n);
        if (rng(3) && n) {
            static const int offs[] = { 0x400, 0x800, 0x4000, 0xbfff, 0x801, 0x4001, 0xc000, 0x8000 };
            size_t b = rng(3) == 0 ? (size_t)(offs[rng(countof(offs))] + rng(3) - 1)
                     : rng(2) ? 1 + rng(20) : 1 + rng(n);

            b = MIN(MAX(b, 1), n);
            while (l-- > 0) {
                p[n] = p[n - b];
                n++;
            }
        } else {
            while (l-- > 0) {
                p[n++] = rng(alpha);
            }
        }
    }
    return n;
}
static uint32_t dict[LZO_BUF_MEM_SIZE / 4];
#endif
//@harness h_lz_round prop=C21 kind=bounded bound="data of at most 150000 bytes" bmc=no search=8 about=qlzo1x_compress,compress,lzo_put_varlen,lzo_put_m1,qlzo1x_decompress,qlzo1x_decompress_safe,decompress,lzo_copy_backptr
VP_MAIN(h_lz_round)
{
#ifdef VP_NATIVE
    static uint8_t in[LZN + 10], cmp[LZN * 17 / 16 + 100];
    uint8_t *i2, *o2, *c2;
    size_t n, cn;
    ssize_t r;

    rng_s = vp_u64();
    n = lz_data(in);
    if (rng(4) == 0) {
        /* any content of the work memory will do */
        for (int i = 0; i < countof(dict); i++) {
            dict[i] = rng(2) ? rng(n + 1) : rng(1ull << 31);
        }
    } else {
        p_clear(dict, countof(dict));
    }
    i2 = (malloc)(n + !n);
    memcpy(i2, in, n);
    c2 = (malloc)(lzo_cbuf_size(n));
    cn = qlzo1x_compress(c2, lzo_cbuf_size(n), ps_init(i2, n), dict);
    VP_CHECK("within the announced size", cn <= lzo_cbuf_size(n));
    VP_CHECK("the input is kept", !memcmp(in, i2, n));
    memcpy(cmp, c2, cn);
    (free)(c2);
    o2 = (malloc)(n + !n);
    c2 = (malloc)(cn + LZO_INPUT_PADDING);
    memcpy(c2, cmp, cn);
    memset(c2 + cn, rng(256), LZO_INPUT_PADDING);
    r = qlzo1x_decompress(o2, n, ps_init(c2, cn));
    VP_CHECK("decompresses to the input", r == (ssize_t)n && !memcmp(o2, in, n));
    (free)(c2);
    memset(o2, 0x5a, n);
    c2 = (malloc)(cn);
    memcpy(c2, cmp, cn);
    r = qlzo1x_decompress_safe(o2, n, ps_init(c2, cn));
    VP_CHECK("decompresses to the input", r == (ssize_t)n && !memcmp(o2, in, n));
    if (n) {
        size_t m = rng(n);
        uint8_t *o3 = (malloc)(m + !m);

        VP_CHECK("an output too small is refused",
                 qlzo1x_decompress_safe(o3, m, ps_init(c2, cn)) == LZO_ERR_OUTPUT_OVERRUN);
        (free)(o3);
        m = rng(cn);
        o3 = (malloc)(m + !m);
        memcpy(o3, cmp, m);
        VP_CHECK("a truncated input is refused",
                 qlzo1x_decompress_safe(o2, n, ps_init(o3, m)) < 0);
        (free)(o3);
    }
    (free)(c2);
    (free)(i2);
    (free)(o2);
#endif
    VP_REACH();
}
//@harness h_lz_bad prop=C21 kind=bounded bound="corrupted streams of at most 300 bytes" bmc=no search=8 about=qlzo1x_decompress_safe,decompress
VP_MAIN(h_lz_bad)
{
#ifdef VP_NATIVE
    static uint8_t in[LZN + 10], cmp[LZN * 17 / 16 + 100];
    uint8_t *o2, *c2;
    size_t n, cn, on;
    ssize_t r;

    rng_s = vp_u64();
    p_clear(dict, countof(dict));
    n = rng(300);
    for (size_t i = 0; i < n; i++) {
        in[i] = rng(4) && i ? in[rng(i)] : rng(256);
    }
    cn = qlzo1x_compress(cmp, sizeof(cmp), ps_init(in, n), dict);
    if (rng(4) == 0) {
        cn = rng(40);
        for (size_t i = 0; i < cn; i++) {
            cmp[i] = rng(2) ? rng(40) : rng(256);
        }
    } else {
        for (int k = rng(5); k > 0; k--) {
            cmp[rng(cn)] = rng(2) ? rng(40) : rng(256);
        }
        if (rng(2)) {
            cn = rng(cn + 1);
        }
    }
    c2 = (malloc)(cn + !cn);
    memcpy(c2, cmp, cn);
    on = rng(2) ? n : rng(1000);
    o2 = (malloc)(on + !on);
    r = qlzo1x_decompress_safe(o2, on, ps_init(c2, cn));
    VP_CHECK("an error, or a size that fits",
             (r >= 0 && r <= (ssize_t)on) || (r >= -4 && r < 0));
    (free)(c2);
    (free)(o2);
#endif
    VP_REACH();
}
/* }}} */
