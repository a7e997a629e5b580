/* HTTP/2 header blocks: what is decoded into the header lines. */
//@trusted logging has no effect on the data
//@gen hpack-huff-enc.c python3 src/net/hpack-generate-huffman-tables.py for-encoding --rfc src/net/rfc7541-tables.txt --out {out}
//@gen hpack-huff-dec.c python3 src/net/hpack-generate-huffman-tables.py for-decoding --rfc src/net/rfc7541-tables.txt --out {out}
//@link src/container/qhash.c src/container/qvector.blk
#define VP_WANT_STUBS
#include "vp.h"
#include "vp_mem.h"
#include <lib-common/core.h>
#include <lib-common/log.h>
#undef __LOGGER_LOG
#define __LOGGER_LOG(Logger, Level, ...)  ((Level) <= LOG_WARNING ? -1 : 0)
#undef t_scope
#define t_scope
#define t_lstr_dup  lstr_dup
#include "src/net/http.c"
#include "src/net/hpack.c"
#include "src/container/ring.c"
#include "src/core/str-l.c"
#include "src/core/str-buf.c"
#include "src/core/str-ctype.c"
#include "src/core/str-stream.c"
#include "hpack-huff-enc.c"
#include "hpack-huff-dec.c"

//@harness h_h2_block prop=C07 kind=bounded bound="8 headers" bmc=no search=4 about=t_http2_conn_decode_header_block,http2_conn_pack_single_hdr
VP_MAIN(h_h2_block)
{
    static const char *const names[] = { "x-a", ":path", "content-length",
        "host", "x-0123456789", ":method", ":bad" };
    http2_conn_t w1, w2;
    http2_header_info_t info;
    sb_t blk, buf;
    SB_8k(exp);
    SB_1k(path);
    int n = vp_range(0, 8), r;
    unsigned fl = 0, reg = 0;
    size_t sz = vp_range(1, 160);
    byte *in;

    p_clear(&w1, 1);
    p_clear(&w2, 1);
    hpack_enc_dtbl_init(&w1.enc);
    hpack_dec_dtbl_init(&w2.dec);
    hpack_enc_dtbl_init_settings(&w1.enc, 256);
    hpack_dec_dtbl_init_settings(&w2.dec, 256);
    sb_init(&blk);
    while (n-- > 0) {
        lstr_t k = LSTR(names[vp_range(0, 6)]);
        lstr_t v = LSTR("/0123456789abcdefghijklmnopqrstuvwxyz");

        v.len = vp_range(1, v.len);
        http2_conn_pack_single_hdr(&w1, k, v, &blk);
        if (k.s[0] != ':') {
            sb_add_lstr(&exp, k);
            sb_adds(&exp, ": ");
            sb_add_lstr(&exp, v);
            sb_adds(&exp, "\r\n");
        }
    }
    in = vp_alloc(blk.len);
    memcpy(in, blk.data, blk.len);
    sb_init_full(&buf, vp_alloc(sz), 0, sz, &mem_pool_static);
    buf.data[0] = 0;
    r = t_http2_conn_decode_header_block(&w2, ps_init(in, blk.len), &info,
                                         &buf);
    VP_CHECK("is decoded", r == 0);
    VP_CHECK("the regular headers, in order", buf.len == exp.len
             && !memcmp(buf.data, exp.data, exp.len));
    VP_CHECK("terminated", !buf.data[buf.len]);
}
