/* HPACK (RFC 7541): integers, Huffman strings, header tables, headers. */
//@trusted allocator model units/vp_mem.h
//@trusted logging returns -1 and has no other effect; the temporary copy of a key is made with lstr_dup instead of the thread's stack pool
//@gen hpack-huff-enc.c python3 src/net/hpack-generate-huffman-tables.py for-encoding --rfc src/net/rfc7541-tables.txt --out {out}
//@gen hpack-huff-dec.c python3 src/net/hpack-generate-huffman-tables.py for-decoding --rfc src/net/rfc7541-tables.txt --out {out}
//@link src/container/qhash.c src/container/qvector.blk
#define VP_WANT_STUBS
#include "vp.h"
#include "vp_track.h"
static const uint8_t *g_s;
static size_t g_n;
static uint8_t *g_out;
#include "vp_mem.h"
#include <lib-common/core.h>
#include <lib-common/log.h>
#undef logger_error
#define logger_error(...)  (-1)
#undef t_scope
#define t_scope
#define t_lstr_dup  lstr_dup
#include "src/net/hpack.c"
#include "src/container/ring.c"
#include "src/core/str-l.c"
#include "src/core/str-ctype.c"
#include "src/core/str-stream.c"
#include "hpack-huff-enc.c"
#include "hpack-huff-dec.c"
#include "hpack_rfc.h"

/* {{{ integers */
/* RFC 7541 §5.1, within 8 bytes and 32 bits */
static int rfc_dec(const uint8_t *s, size_t n, int pfx, uint32_t *val)
{
    uint64_t v;
    uint32_t max = (1u << pfx) - 1;
    int i;

    if (!n) {
        return -1;
    }
    v = s[0] & max;
    if (v < max) {
        *val = v;
        return 1;
    }
    for (i = 1; i < 8; i++) {
        if ((size_t)i >= n) {
            return -1;
        }
        v += (uint64_t)(s[i] & 127) << (7 * (i - 1));
        if (s[i] < 128) {
            *val = v;
            return v <= UINT32_MAX ? i + 1 : -1;
        }
    }
    return -1;
}
//@harness h_hp_int_enc prop=C06 unwind=9 about=hpack_encode_int,hpack_decode_int
VP_MAIN(h_hp_int_enc)
{
    uint32_t val = vp_u32(), v = 0;
    int pfx = vp_range(1, 8), l;
    byte *out = vp_alloc(8);
    pstream_t ps;

    l = hpack_encode_int(val, pfx, out);
    VP_CHECK("1 to 6 bytes", l >= 1 && l <= 6);
    VP_CHECK("the prefix bits only", out[0] <= (1u << pfx) - 1);
    VP_CHECK("is the encoding of the value",
             rfc_dec(out, l, pfx, &v) == l && v == val);
    VP_CHECK("short values take one byte", l == 1
             || val >= (1u << pfx) - 1);
    VP_CHECK("no useless byte", l <= 2 || out[l - 1]);
    ps = ps_init(out, l);
    v = ~val;
    VP_CHECK("is read back", hpack_decode_int(&ps, pfx, &v) == 0 && v == val
             && ps_done(&ps));
    VP_REACH();
}
//@harness h_hp_int_dec prop=C06 unwind=9 about=hpack_decode_int
VP_MAIN(h_hp_int_dec)
{
    uint32_t v = 7, e = 7;
    int pfx = vp_range(1, 8), l, r;
    pstream_t ps;

    g_n = VP_LEN(100, 10);
    g_s = vp_buf(g_n, 10);
    ps = ps_init(g_s, g_n);
    l = rfc_dec(g_s, g_n, pfx, &e);
    r = hpack_decode_int(&ps, pfx, &v);
    VP_CHECK("accepted iff well formed", r == (l < 0 ? -1 : 0));
    VP_CHECK("the value", l < 0 || v == e);
    VP_CHECK("moves past it", l < 0 || ps.b == g_s + l);
    VP_CHECK("same end", ps.b_end == g_s + g_n && ps.b <= ps.b_end);
    VP_REACH();
}
/* }}} */
/* {{{ Huffman */
//@harness h_hp_huff_tab prop=C06 about=hpack_huffcode_tab_g
VP_MAIN(h_hp_huff_tab)
{
    int c = vp_range(0, 256);

    VP_CHECK("code of the RFC",
             hpack_huffcode_tab_g[c].codeword == rfc_huff[c].code
             && hpack_huffcode_tab_g[c].bitlen == rfc_huff[c].bits);
    VP_REACH();
}
//@harness h_hp_huff_enc prop=C06 kind=bounded bound="20 bytes" bmc=no search=3 about=hpack_encode_huffman,hpack_get_huffman_len
VP_MAIN(h_hp_huff_enc)
{
    int r, len;
    lstr_t str;

    g_n = VP_LEN(64, 20);
    g_s = vp_buf(g_n, 20);
    len = VP_LEN(64, 60);
    g_out = vp_alloc(len);
    str = LSTR_DATA_V(g_s, g_n);
    r = hpack_encode_huffman(str, g_out, len);
    VP_CHECK("at most len bytes", r >= 0 && r <= len);
#ifndef VP_PROOF
    {
        size_t bits = 0, i;

        for (i = 0; i < g_n; i++) {
            bits += rfc_huff[g_s[i]].bits;
        }
        VP_CHECK("all that fits", (size_t)r == MIN((bits + 7) / 8, len));
        VP_CHECK("length", hpack_get_huffman_len(str) == (bits + 7) / 8);
        bits = 0;
        for (i = 0; i < g_n; i++) {
            for (int b = rfc_huff[g_s[i]].bits - 1; b >= 0; b--, bits++) {
                VP_CHECK("the bits of the code", bits >= 8 * (size_t)r
                         || (g_out[bits / 8] >> (7 - bits % 8) & 1)
                         == (rfc_huff[g_s[i]].code >> b & 1));
            }
        }
        for (; bits < 8 * (size_t)r; bits++) {
            VP_CHECK("padded with ones",
                     g_out[bits / 8] >> (7 - bits % 8) & 1);
        }
    }
#endif
    VP_REACH();
}
/* bit by bit: the decoded length or -1 */
static int rfc_unhuff(const uint8_t *s, size_t n, uint8_t *out)
{
    uint32_t acc = 0;
    int nb = 0, l = 0;

    for (size_t i = 0; i < 8 * n; i++) {
        acc = acc << 1 | (s[i / 8] >> (7 - i % 8) & 1);
        nb++;
        for (int c = 0; c < 257; c++) {
            if (rfc_huff[c].bits == nb && rfc_huff[c].code == acc) {
                if (c == 256) {
                    return -1;
                }
                out[l++] = c;
                acc = 0;
                nb = 0;
                break;
            }
        }
        if (nb >= 30) {
            return -1;
        }
    }
    /* strictly less than 8 bits of padding, all ones */
    return nb < 8 && acc == (1u << nb) - 1 ? l : -1;
}
//@harness h_hp_huff_any prop=C06 kind=bounded bound="16 bytes" bmc=no search=4 about=hpack_decode_huffman,hpack_encode_huffman
VP_MAIN(h_hp_huff_any)
{
    static uint8_t e[64];
    int r, l;

    g_n = VP_LEN(16, 16);
    g_s = vp_buf(g_n, 16);
    if (vp_bool()) {
        lstr_t s = LSTR_DATA_V(g_s, g_n);
        uint8_t *p;

        l = hpack_get_huffman_len(s);
        p = vp_alloc(l);
        VP_CHECK("length of the code", hpack_encode_huffman(s, p, l) == l);
        g_out = vp_alloc(g_n);
        VP_CHECK("decodes to the same length",
                 hpack_decode_huffman(LSTR_DATA_V(p, l), g_out) == (int)g_n);
        VP_CHECK("decodes to the same bytes", !memcmp(g_out, g_s, g_n));
        if (l && vp_bool()) {
            p[vp_range(0, l - 1)] ^= 1 << vp_range(0, 7);
        }
        g_n = vp_bool() ? l : vp_range(0, l);
        g_s = p;
    } else {
        for (size_t i = 0; i < g_n; i++) {
            if (!vp_range(0, 2)) {
                ((uint8_t *)g_s)[i] = 0xff;
            }
        }
    }
    l = rfc_unhuff(g_s, g_n, e);
    VP_CHECK("expansion of at most 8/5", l <= (int)(g_n * 8 / 5));
    g_out = vp_alloc(g_n * 8 / 5);
    r = hpack_decode_huffman(LSTR_DATA_V(g_s, g_n), g_out);
    VP_CHECK("valid iff the RFC says so", r == l);
    VP_CHECK("decoded bytes", l < 0 || !memcmp(g_out, e, l));
}
/* }}} */
/* {{{ static table */
//@harness h_hp_stbl prop=C07 kind=bounded bound="keys and values within 28 bytes" bmc=no search=3 about=hpack_stbl_find_hdr
VP_MAIN(h_hp_stbl)
{
    int i = vp_range(0, 61), j = vp_range(0, 61), best = 0, part = 0, r;
    bool noval = vp_range(0, 5) == 0;
    lstr_t k, v;
    char *kb, *vb;

    kb = vp_alloc(strlen(rfc_stbl[i][0]));
    k = LSTR_DATA_V(kb, strlen(rfc_stbl[i][0]));
    memcpy(kb, rfc_stbl[i][0], k.len);
    if (vp_bool()) {
        j = i;
    }
    vb = vp_alloc(strlen(rfc_stbl[j][1]));
    v = LSTR_DATA_V(vb, strlen(rfc_stbl[j][1]));
    memcpy(vb, rfc_stbl[j][1], v.len);
    if (k.len && !vp_range(0, 3)) {
        kb[vp_range(0, k.len - 1)] ^= vp_bool() ? 0x20 : vp_u8();
    }
    if (v.len && !vp_range(0, 3)) {
        vb[vp_range(0, v.len - 1)] ^= vp_bool() ? 0x20 : vp_u8();
    }
    if (!vp_range(0, 7) && k.len) {
        k.len--;
    }
    if (noval) {
        v = LSTR_NULL_V;
    }
    for (i = 61; i > 0; i--) {
        lstr_t rk = LSTR(rfc_stbl[i][0]), rv = LSTR(rfc_stbl[i][1]);

        if (rk.len == k.len && !strncasecmp(rk.s, k.s, k.len)) {
            part = i;
            if (rv.len == v.len && !memcmp(rv.s, v.s, v.len)) {
                best = i;
            }
        }
    }
    r = hpack_stbl_find_hdr(k, v);
    VP_CHECK("key and value, else the key, else nothing",
             r == (noval ? part : best ? best : -part));
    for (i = 1; i <= 61; i++) {
        VP_CHECK("entry of the RFC",
                 lstr_equal(hpack_stbl_g[i].key, LSTR(rfc_stbl[i][0]))
                 && lstr_equal(hpack_stbl_g[i].val, LSTR(rfc_stbl[i][1])));
    }
}
/* }}} */
/* {{{ dynamic tables: the model */
#define HN  6
typedef struct {
    int key;            /* index of the key string */
    int val;
    uint16_t key_id, val_id;
    uint32_t sz;
} ment_t;
static ment_t m_e[64];
static int m_n;
static uint32_t m_limit;
static const char *const m_keys[] = { "x-a", "Cookie", "x-long-header", ":path",
    "x-a1" };
static const char *const m_vals[] = { "", "v", "/", "0123456789abcdef",
    "\xff\x00zzz" };
static uint32_t m_size(void)
{
    uint32_t s = 0;

    for (int i = 0; i < m_n; i++) {
        s += m_e[i].sz;
    }
    return s;
}
static void m_add(int key, int val, int ki, int vi)
{
    uint32_t sz = strlen(m_keys[key]) + strlen(m_vals[val]) + 32;

    while (m_n && m_size() + sz > m_limit) {
        m_n--;
    }
    if (sz <= m_limit) {
        memmove(m_e + 1, m_e, m_n * sizeof(*m_e));
        m_e[0] = (ment_t){ key, val, ki, vi, sz };
        m_n++;
    }
}
static void m_resize(uint32_t limit)
{
    m_limit = limit;
    while (m_size() > m_limit) {
        m_n--;
    }
}
static int m_find(int ki, int vi)
{
    int part = 0;

    for (int i = 0; i < m_n; i++) {
        if (m_e[i].key_id == ki) {
            if (!vi) {
                return i + 1;
            }
            if (m_e[i].val_id == vi) {
                return i + 1;
            }
            if (!part) {
                part = -(i + 1);
            }
        }
    }
    return part;
}
static lstr_t mkstr(const char *s)
{
    size_t n = strlen(s);
    char *p = vp_alloc(n);

    memcpy(p, s, n);
    return LSTR_DATA_V(p, n);
}
//@harness h_hp_hist prop=C07 kind=bounded bound="histories of 24 headers, 5 keys, 5 values" bmc=no search=6 about=hpack_encoder_write_hdr,hpack_encoder_write_dts_update,hpack_decoder_extract_hdr,hpack_decoder_write_hdr,hpack_decoder_read_dts_update_,hpack_enc_dtbl_add_hdr,hpack_enc_dtbl_find_hdr,hpack_enc_dtbl_evict_last_entry,hpack_enc_dtbl_resize,hpack_dec_dtbl_add_hdr,hpack_dec_dtbl_get_ent,hpack_dec_dtbl_evict_last_entry,hpack_dec_dtbl_resize
VP_MAIN(h_hp_hist)
{
    hpack_enc_dtbl_t enc;
    hpack_dec_dtbl_t dec;
    int n = vp_range(1, 24);
    uint32_t max = vp_range(30, 250);

    m_n = 0;
    m_limit = max;
    hpack_enc_dtbl_init(&enc);
    hpack_dec_dtbl_init(&dec);
    hpack_enc_dtbl_init_settings(&enc, max);
    hpack_dec_dtbl_init_settings(&dec, max);
    while (n-- > 0) {
        int ki = vp_range(0, 4), vi = vp_range(0, 4), l, r, x, keylen = -1;
        int kid = vp_range(0, 3) ? ki + 1 : 0;
        int vid = kid && vp_range(0, 3) ? vi + 1 : 0;
        unsigned flags = vp_bool() ? 0 : vp_range(0, 2047);
        lstr_t key = mkstr(m_keys[ki]), val = mkstr(m_vals[vi]);
        byte *buf, *in, *out;
        pstream_t ps;
        hpack_xhdr_t xhdr;
        bool lower;

        if (!vp_range(0, 9)) {
            uint32_t sz = vp_range(0, max);

            buf = vp_alloc(HPACK_BUFLEN_INT);
            l = hpack_encoder_write_dts_update(&enc, sz, buf);
            ps = ps_init(buf, l);
            VP_CHECK("size update is read",
                     hpack_decoder_read_dts_update(&dec, &ps) == 1
                     && ps_done(&ps));
            m_resize(sz);
        }
        l = hpack_buflen_to_write_hdr(key, val, flags);
        buf = vp_alloc(l);
        r = hpack_encoder_write_hdr(&enc, key, val, kid, vid, flags, buf);
        VP_CHECK("fits the announced size", r > 0 && r <= l);
        if ((buf[0] & 0xc0) == 0x40) {
            m_add(ki, vi, kid, vid);
        }
        VP_CHECK("never indexed when forbidden", (buf[0] & 0xc0) != 0x40
                 || !(flags & (HPACK_FLG_NVRADD_DTBL | HPACK_FLG_NOADD_DTBL))
                 || (flags & HPACK_FLG_ADD_DTBL));
        VP_CHECK("marked when never to be indexed", buf[0] & 0xc0
                 || ((buf[0] & 0x10) != 0)
                 == ((flags & HPACK_FLG_NVRADD_DTBL) != 0));
        in = vp_alloc(r);
        memcpy(in, buf, r);
        ps = ps_init(in, r);
        x = hpack_decoder_extract_hdr(&dec, &ps, &xhdr);
        VP_CHECK("is extracted", x >= 0 && ps_done(&ps));
        if (x < 0) {
            break;
        }
        out = vp_alloc(x + 4);
        r = hpack_decoder_write_hdr(&dec, &xhdr, out, &keylen);
        VP_CHECK("length of the line", r == key.len + val.len + 4
                 && keylen == key.len);
        if (r != key.len + val.len + 4) {
            break;
        }
        lower = false;
        for (int i = 0; i < key.len; i++) {
            lower |= key.s[i] != out[i];
        }
        VP_CHECK("the key, up to its case", !strncasecmp(key.s, out, key.len));
        VP_CHECK("the key as it is unless it is matched or lowered", !lower
                 || (flags & HPACK_FLG_LWR_KEY)
                 || !(flags & HPACK_FLG_SKIP_STBL) || kid);
        VP_CHECK("the separator", !memcmp(out + key.len, ": ", 2));
        VP_CHECK("the value", !memcmp(out + key.len + 2, val.s, val.len));
        VP_CHECK("the end of line",
                 !memcmp(out + key.len + 2 + val.len, "\r\n", 2));
        VP_CHECK("encoder and decoder agree", enc.tbl_size == dec.tbl_size
                 && enc.entries.len == dec.entries.len
                 && enc.tbl_size_limit == dec.tbl_size_limit);
        VP_CHECK("the size is the sum of the entries",
                 enc.tbl_size == m_size() && enc.entries.len == m_n);
        VP_CHECK("within the limit", enc.tbl_size <= enc.tbl_size_limit
                 && enc.tbl_size_limit == m_limit);
        for (int i = 0; i < m_n && i < dec.entries.len; i++) {
            hpack_dec_dtbl_entry_t *e = hpack_dec_dtbl_get_ent(&dec, i);

            VP_CHECK("entry", lstr_ascii_iequal(e->key, LSTR(m_keys[m_e[i].key]))
                     && lstr_equal(e->val, LSTR(m_vals[m_e[i].val])));
        }
        for (int k = 1; k <= 5; k++) {
            for (int v = 0; v <= 5; v++) {
                VP_CHECK("the most recent entry is found",
                         hpack_enc_dtbl_find_hdr(&enc, k, v) == m_find(k, v));
            }
        }
    }
    hpack_enc_dtbl_wipe(&enc);
    hpack_dec_dtbl_wipe(&dec);
}
/* {{{ any peer: every representation the RFC allows, and any bytes */
static byte g_m[512];
static int g_mn;
static void w_int(uint32_t v, int pfx, int mask)
{
    uint32_t max = (1u << pfx) - 1;

    if (v < max) {
        g_m[g_mn++] = mask | v;
        return;
    }
    g_m[g_mn++] = mask | max;
    for (v -= max; v >= 128; v >>= 7) {
        g_m[g_mn++] = 128 | v;
    }
    g_m[g_mn++] = v;
}
static void w_str(const char *s, bool huff)
{
    uint64_t acc = 0;
    int nb = 0, at = 0;
    byte t[128];

    if (!huff) {
        w_int(strlen(s), 7, 0);
        memcpy(g_m + g_mn, s, strlen(s));
        g_mn += strlen(s);
        return;
    }
    for (; *s; s++) {
        uint8_t c = *s;

        acc = acc << rfc_huff[c].bits | rfc_huff[c].code;
        nb += rfc_huff[c].bits;
        for (; nb >= 8; nb -= 8) {
            t[at++] = acc >> (nb - 8);
        }
    }
    if (nb) {
        t[at++] = acc << (8 - nb) | 0xff >> nb;
    }
    w_int(at, 7, 0x80);
    memcpy(g_m + g_mn, t, at);
    g_mn += at;
}
static char p_key[64][64], p_val[64][64];
static int p_n;
static uint32_t p_limit;
static uint32_t p_size(void)
{
    uint32_t s = 0;

    for (int i = 0; i < p_n; i++) {
        s += strlen(p_key[i]) + strlen(p_val[i]) + 32;
    }
    return s;
}
//@harness h_hp_dec prop=C07 kind=bounded bound="histories of 24 headers" bmc=no search=6 about=hpack_decoder_extract_hdr,hpack_decoder_write_hdr,hpack_dec_dtbl_add_hdr,hpack_dec_dtbl_get_ent,hpack_decoder_read_dts_update_
VP_MAIN(h_hp_dec)
{
    hpack_dec_dtbl_t dec;
    int n = vp_range(1, 24);
    uint32_t max = vp_range(30, 250);

    p_n = 0;
    p_limit = max;
    hpack_dec_dtbl_init(&dec);
    hpack_dec_dtbl_init_settings(&dec, max);
    while (n-- > 0) {
        char key[64], val[64];
        int form = vp_range(0, 2), idx, x, r, keylen = -1, kl;
        byte *in, *out;
        pstream_t ps;
        hpack_xhdr_t xhdr;

        if (!vp_range(0, 9)) {
            uint32_t sz = vp_range(0, max + 20);

            g_mn = 0;
            w_int(sz, 5, 0x20);
            in = vp_alloc(g_mn);
            memcpy(in, g_m, g_mn);
            ps = ps_init(in, g_mn);
            r = hpack_decoder_read_dts_update(&dec, &ps);
            VP_CHECK("size updates up to the maximum",
                     r == (sz <= max ? 1 : -1));
            if (sz <= max) {
                for (p_limit = sz; p_size() > p_limit; p_n--) {
                }
            }
        }
        g_mn = 0;
        if (!vp_range(0, 9)) {
            /* anything: memory safety only, on a copy of the table */
            int l = vp_range(1, 12);

            in = vp_buf(l, 12);
            if (vp_bool()) {
                in[0] = vp_bool() ? 0 : 0x40;
                in[l / 2] &= 0x87;
            }
            ps = ps_init(in, l);
            x = hpack_decoder_extract_hdr(&dec, &ps, &xhdr);
            VP_CHECK("within the input", ps.b >= in && ps.b_end == in + l
                     && ps.b <= ps.b_end);
            if (x < 0) {
                continue;
            }
            xhdr.flags &= ~XHDR_ADD_DTBL;
            out = vp_alloc(x + 4);
            r = hpack_decoder_write_hdr(&dec, &xhdr, out, &keylen);
            VP_CHECK("a line or a failure", r < 0 || (r <= x + 4
                     && keylen >= 0 && keylen <= r - 4
                     && out[keylen] == ':' && out[r - 1] == '\n'));
            continue;
        }
        idx = form == 0 ? vp_range(1, 61 + p_n)
            : vp_range(0, 3) ? vp_range(0, 61 + p_n)
            : p_n ? 61 + vp_range(1, p_n) : 0;
        if (idx > 61) {
            strcpy(key, p_key[idx - 62]);
            strcpy(val, p_val[idx - 62]);
        } else
        if (idx) {
            strcpy(key, rfc_stbl[idx][0]);
            strcpy(val, rfc_stbl[idx][1]);
        }
        if (form == 0) {
            w_int(idx, 7, 0x80);
        } else {
            w_int(idx, form == 1 ? 6 : 4,
                  form == 1 ? 0x40 : vp_bool() ? 0x10 : 0);
            if (!idx) {
                strcpy(key, m_keys[vp_range(0, 4)]);
                w_str(key, vp_bool());
            }
            strcpy(val, m_vals[vp_range(0, 4)]);
            w_str(val, vp_bool());
        }
        in = vp_alloc(g_mn);
        memcpy(in, g_m, g_mn);
        ps = ps_init(in, g_mn);
        x = hpack_decoder_extract_hdr(&dec, &ps, &xhdr);
        VP_CHECK("is extracted", x >= 0 && ps_done(&ps));
        if (x < 0) {
            break;
        }
        kl = strlen(key);
        out = vp_alloc(x + 4);
        r = hpack_decoder_write_hdr(&dec, &xhdr, out, &keylen);
        VP_CHECK("length of the line", r == kl + (int)strlen(val) + 4
                 && keylen == kl);
        if (r != kl + (int)strlen(val) + 4) {
            break;
        }
        VP_CHECK("the line", !memcmp(out, key, kl)
                 && !memcmp(out + kl, ": ", 2)
                 && !memcmp(out + kl + 2, val, strlen(val))
                 && !memcmp(out + r - 2, "\r\n", 2));
        if (form == 1) {
            uint32_t sz = kl + strlen(val) + 32;

            while (p_n && p_size() + sz > p_limit) {
                p_n--;
            }
            if (sz <= p_limit) {
                memmove(p_key + 1, p_key, p_n * sizeof(p_key[0]));
                memmove(p_val + 1, p_val, p_n * sizeof(p_val[0]));
                strcpy(p_key[0], key);
                strcpy(p_val[0], val);
                p_n++;
            }
        }
        VP_CHECK("the size is the sum of the entries",
                 dec.tbl_size == p_size() && dec.entries.len == p_n
                 && dec.tbl_size_limit == p_limit);
        for (int i = 0; i < p_n && i < dec.entries.len; i++) {
            hpack_dec_dtbl_entry_t *e = hpack_dec_dtbl_get_ent(&dec, i);

            VP_CHECK("entry", lstr_equal(e->key, LSTR(p_key[i]))
                     && lstr_equal(e->val, LSTR(p_val[i])));
        }
    }
    hpack_dec_dtbl_wipe(&dec);
}
/* }}} */
/* the extraction of a header stays within the input whatever the bytes, and
 * the estimate covers what is written */
//@harness h_hp_extract prop=C07 unwind=9 about=hpack_decoder_extract_hdr,hpack_decode_int
VP_MAIN(h_hp_extract)
{
    hpack_dec_dtbl_t dec;
    hpack_dec_dtbl_entry_t *tab;
    hpack_xhdr_t x;
    pstream_t ps;
    int r, size = VP_LEN(64, 3), kl = 0, vl = 0;
    uint32_t idx = 0;
    const uint8_t *p;

    p_clear(&x, 1);
    g_n = VP_LEN(64, 12);
    VP_ASSUME(g_n > 0);
    g_s = vp_buf(g_n, 12);
    hpack_dec_dtbl_init(&dec);
    tab = vp_alloc(size * sizeof(*tab));
    dec.entries.tab = tab;
    dec.entries.size = size;
    dec.entries.first = vp_range(0, size ? size - 1 : 0);
    dec.entries.len = vp_range(0, size);
    dec.tbl_size_max = vp_u32();
    dec.tbl_size_limit = vp_range(0, dec.tbl_size_max);
#ifndef VP_PROOF
    for (int i = 0; i < size; i++) {
        tab[i].key.len = vp_range(0, 5);
        tab[i].val.len = vp_range(0, 5);
    }
#else
    {
        /* any entry */
        int k = vp_range(0, size ? size - 1 : 0);

        if (size) {
            VP_ASSUME(tab[k].key.len >= 0 && tab[k].key.len < 10000);
            VP_ASSUME(tab[k].val.len >= 0 && tab[k].val.len < 10000);
        }
    }
#endif
    ps = ps_init(g_s, g_n);
    r = hpack_decoder_extract_hdr(&dec, &ps, &x);
    VP_CHECK("stays within the input", ps.b_end == g_s + g_n && ps.b <= ps.b_end
             && ps.b >= g_s);
    if (r != -1) {
        if (x.flags & XHDR_NEW_KEY) {
            VP_CHECK("a new key has a new value", x.flags & XHDR_NEW_VAL);
            VP_CHECK("the key is within the input", x.key.b >= g_s
                     && x.key.b <= x.key.b_end && x.key.b_end <= ps.b);
            kl = ps_len(&x.key) * (x.flags & XHDR_RAW_KEY ? 1 : 2);
        } else {
            VP_CHECK("an index of the tables", x.idx >= 1
                     && x.idx <= 61 + dec.entries.len);
        }
        if (x.flags & XHDR_NEW_VAL) {
            VP_CHECK("the value is within the input", x.val.b >= g_s
                     && x.val.b <= x.val.b_end && x.val.b_end <= ps.b);
            vl = ps_len(&x.val) * (x.flags & XHDR_RAW_VAL ? 1 : 2);
        }
        VP_CHECK("added to the table iff it says so",
                 ((x.flags & XHDR_ADD_DTBL) != 0)
                 == (g_s[0] >= 0x40 && g_s[0] < 0x80));
        VP_CHECK("a value unless it is indexed",
                 ((x.flags & XHDR_NEW_VAL) != 0) == (g_s[0] < 0x80));
        VP_CHECK("there is room for the new strings",
                 (x.flags & (XHDR_NEW_KEY | XHDR_NEW_VAL)) == 0
                 || !(x.flags & XHDR_NEW_KEY) || r >= kl + vl);
        VP_CHECK("there is room for the new value",
                 (x.flags & XHDR_NEW_KEY) || x.idx > 61
                 || r >= (int)hpack_stbl_g[x.idx].key.len + vl);
    }
    VP_REACH();
}
/* assumed here, checked within bounds by h_hp_huff_any */
int hpack_decode_huffman(lstr_t str, void *out_)
CONTRACT(
    REQUIRES(str.len >= 0 && __CPROVER_w_ok(out_, 2 * (size_t)str.len))
    ASSIGNS(UPTO(out_, 2 * (size_t)str.len))
    ENSURES(RET >= -1 && RET <= 2 * str.len)
);
void hpack_dec_dtbl_add_hdr(hpack_dec_dtbl_t *dtbl, lstr_t key, lstr_t val)
CONTRACT(
    ASSIGNS(dtbl->tbl_size)
);
lstr_t mp_lstr_dup(mem_pool_t *mp, const lstr_t s)
CONTRACT(
    REQUIRES(__CPROVER_r_ok(s.s, s.len))
    ASSIGNS()
    ENSURES(RET.len == s.len)
);
//@harness h_hp_write prop=C07 replace=hpack_decode_huffman,hpack_dec_dtbl_add_hdr,mp_lstr_dup solver=cadical unwind=8 about=hpack_decoder_write_hdr
VP_MAIN(h_hp_write)
{
    hpack_dec_dtbl_t dec;
    hpack_dec_dtbl_entry_t ent;
    hpack_xhdr_t x;
    int kl = VP_LEN(40, 6), vl = VP_LEN(40, 6), r, keylen = -1, est, ol, ek;
    const uint8_t *kb, *vb;

    p_clear(&x, 1);
    kb = vp_buf(kl, 6);
    vb = vp_buf(vl, 6);
    hpack_dec_dtbl_init(&dec);
    ent.key = LSTR_DATA_V(kb, kl);
    ent.val = LSTR_DATA_V(vb, vl);
    dec.entries.tab = &ent;
    dec.entries.size = 1;
    dec.entries.len = 1;
    est = kl + vl;
    ol = vl;
    ek = kl;
    x.flags = vp_range(0, 31);
    VP_ASSUME((x.flags & XHDR_NEW_VAL)
              || !(x.flags & (XHDR_ADD_DTBL | XHDR_NEW_KEY | XHDR_RAW_VAL)));
    VP_ASSUME((x.flags & XHDR_NEW_KEY) || !(x.flags & XHDR_RAW_KEY));
    if (x.flags & XHDR_NEW_KEY) {
        x.key = ps_init(kb, kl);
        if (!(x.flags & XHDR_RAW_KEY)) {
            est += kl;
            ek = -1;
        }
    } else {
        x.idx = vp_range(1, 62);
        if (x.idx <= 61) {
            ek = hpack_stbl_g[x.idx].key.len;
            ol = hpack_stbl_g[x.idx].val.len;
            est = ek + (x.flags & XHDR_NEW_VAL ? vl : ol);
        }
    }
    if (x.flags & XHDR_NEW_VAL) {
        ol = vl;
        x.val = ps_init(vb, vl);
        if (!(x.flags & XHDR_RAW_VAL)) {
            est += vl;
            ol = -1;
        }
    }
#ifdef VP_CBMC
    g_out = vp_alloc(est + 4);
#else
    g_out = vp_alloc(est + 4);
    hpack_dec_dtbl_init_settings(&dec, 0);
    dec.entries.len = 1;
#endif
    r = hpack_decoder_write_hdr(&dec, &x, g_out, &keylen);
    VP_CHECK("fails only on a bad Huffman string", r >= 0
             || ((x.flags & XHDR_NEW_KEY) && !(x.flags & XHDR_RAW_KEY))
             || ((x.flags & XHDR_NEW_VAL) && !(x.flags & XHDR_RAW_VAL)));
    if (r >= 0) {
        VP_CHECK("within the estimate", r <= est + 4);
        VP_CHECK("length of the key", keylen >= 0 && keylen <= r - 4
                 && (ek < 0 || keylen == ek));
        VP_CHECK("length of the value", ol < 0 || r == keylen + ol + 4);
        VP_CHECK("separators", g_out[keylen] == ':' && g_out[keylen + 1] == ' '
                 && g_out[r - 2] == '\r' && g_out[r - 1] == '\n');
    }
    VP_REACH();
}
