/* Digests, checksums and ciphers. */
//@blk
//@link src/core/str-conv.c src/core/bithacks.c src/crypto/padlock.c src/core/str-ctype.c src/core/str-buf.c src/core/str-stream.c src/core/str-iprintf.c src/core/str-dtoa.c src/core/str-num.c
//@trusted md5_process,sha1_process,sha2_process,sha4_process (the block functions): in the proofs, only which block they are given matters; what they compute is compared with libcrypto in the bounded harnesses.
#define VP_WANT_STUBS
#include "vp.h"
#include "vp_mem.h"

/* The proofs follow one byte, at an arbitrary place of the message. */
uint64_t g_blocks, g_t;
uint8_t g_v;
const uint8_t *g_in;
uint64_t g_ilen, g_end;
#ifdef VP_PROOF
/* Assumed contract of memcpy to the block buffer of a digest, for the proofs:
 * of the buffer, only the byte g_k is known afterwards - the one copied, or
 * the one it was.  Weaker than the real function. */
uint8_t *g_buf;
size_t g_bs, g_k;
static inline void *vp_bufcpy(void *dst, const void *src, size_t n)
{
    size_t off = __CPROVER_POINTER_OFFSET(dst) - __CPROVER_POINTER_OFFSET(g_buf);
    uint8_t v = g_buf[g_k];

    __CPROVER_assert(n == 0 || __CPROVER_r_ok(src, n), "memcpy source");
    __CPROVER_assert(__CPROVER_same_object(dst, g_buf) && off <= g_bs
                     && n <= g_bs - off, "memcpy destination");
    if (g_k >= off && g_k - off < n) {
        v = ((const uint8_t *)src)[g_k - off];
    }
    if (g_bs == 64) {
        __CPROVER_havoc_slice(g_buf, 64);
    } else {
        __CPROVER_havoc_slice(g_buf, 128);
    }
    __CPROVER_assume(g_buf[g_k] == v);
    return dst;
}
# define memcpy(d, s, n)  vp_bufcpy(d, s, n)
# define VP_BUF(p_, n_)  ((void)(g_buf = (p_), g_bs = (n_), g_k = g_t % (n_)))
#else
# define VP_BUF(p_, n_)  ((void)0)
#endif

#include <lib-common/core.h>
#include <lib-common/thr.h>
#include "src/crypto/md5.c"
#undef S
#undef P
#undef F
#undef R
#undef K
#include "src/crypto/sha1.c"
#undef S
#undef P
#undef F
#undef R
#undef K
#include "src/crypto/sha2.c"
#undef S
#undef P
#undef F
#undef R
#undef K
#include "src/crypto/sha4.c"

#ifdef VP_CBMC
#define PROC(fn_, ctx_, bs_)                                                 \
static void fn_(ctx_ *ctx, const byte data[bs_])                             \
CONTRACT(REQUIRES(__CPROVER_r_ok(data, bs_))                                 \
         REQUIRES(g_blocks != g_t / bs_ || data[g_t % bs_] == g_v)           \
         ASSIGNS(g_blocks, ctx->state)                                       \
         ENSURES(g_blocks == __CPROVER_old(g_blocks) + 1))
PROC(md5_process, md5_ctx, 64);
PROC(sha1_process, sha1_ctx, 64);
PROC(sha2_process, sha2_ctx, 64);
PROC(sha4_process, sha4_ctx, 128);
#endif

//@loop md5_update 0
//  __CPROVER_assigns(ilen, input, g_blocks, __CPROVER_typed_target(ctx->state))
//  __CPROVER_loop_invariant(ilen >= 0 && ilen <= (ssize_t)g_ilen)
//  __CPROVER_loop_invariant(__CPROVER_same_object(input, g_in))
//  __CPROVER_loop_invariant(__CPROVER_POINTER_OFFSET(input) == g_ilen - ilen)
//  __CPROVER_loop_invariant(g_blocks <= g_end / 64 && g_blocks * 64 + left + ilen == g_end && left < 64)
//  __CPROVER_loop_invariant(left == 0 || ilen < (ssize_t)(64 - left))
//  __CPROVER_decreases(ilen)
//@end
//@loop sha1_update 0
//  __CPROVER_assigns(ilen, input, g_blocks, __CPROVER_typed_target(ctx->state))
//  __CPROVER_loop_invariant(ilen >= 0 && ilen <= (ssize_t)g_ilen)
//  __CPROVER_loop_invariant(__CPROVER_same_object(input, g_in))
//  __CPROVER_loop_invariant(__CPROVER_POINTER_OFFSET(input) == g_ilen - ilen)
//  __CPROVER_loop_invariant(g_blocks <= g_end / 64 && g_blocks * 64 + left + ilen == g_end && left < 64)
//  __CPROVER_loop_invariant(left == 0 || ilen < (ssize_t)(64 - left))
//  __CPROVER_decreases(ilen)
//@end
//@loop sha2_update 0
//  __CPROVER_assigns(ilen, input, g_blocks, __CPROVER_typed_target(ctx->state))
//  __CPROVER_loop_invariant(ilen >= 0 && ilen <= (ssize_t)g_ilen)
//  __CPROVER_loop_invariant(__CPROVER_same_object(input, g_in))
//  __CPROVER_loop_invariant(__CPROVER_POINTER_OFFSET(input) == g_ilen - ilen)
//  __CPROVER_loop_invariant(g_blocks <= g_end / 64 && g_blocks * 64 + left + ilen == g_end && left < 64)
//  __CPROVER_loop_invariant(left == 0 || ilen < (ssize_t)(64 - left))
//  __CPROVER_decreases(ilen)
//@end
//@loop sha4_update 0
//  __CPROVER_assigns(ilen, input, g_blocks, __CPROVER_typed_target(ctx->state))
//  __CPROVER_loop_invariant(ilen >= 0 && ilen <= (ssize_t)g_ilen)
//  __CPROVER_loop_invariant(__CPROVER_same_object(input, g_in))
//  __CPROVER_loop_invariant(__CPROVER_POINTER_OFFSET(input) == g_ilen - ilen)
//  __CPROVER_loop_invariant(g_blocks <= g_end / 128 && g_blocks * 128 + left + ilen == g_end && left < 128)
//  __CPROVER_loop_invariant(left == 0 || ilen < (ssize_t)(128 - left))
//  __CPROVER_decreases(ilen)
//@end

#define UPDATE(fn_, ctx_, bs_, sh_)                                          \
    ctx_ c;                                                                  \
    uint64_t len = vp_u64(), tot = vp_u64(), off;                            \
    uint8_t *in;                                                             \
                                                                             \
    VP_ASSUME(len <= VP_MAXLEN && tot < (1ull << 60));                       \
    in = malloc(len ?: 1);                                                   \
    VP_ASSUME(in != NULL);                                                   \
    VP_FILL(in, len);                                                        \
    VP_FILL(c.buffer, bs_);                                                  \
    VP_FILL(c.state, sizeof(c.state));                                       \
    c.total[0] = tot;                                                        \
    c.total[1] = sh_ == 32 ? tot >> 32 : 0;                                  \
    g_t = vp_u64();                                                          \
    VP_ASSUME(g_t >= tot / bs_ * bs_ && g_t < tot + len);                    \
    off = g_t - tot;                                                         \
    g_v = g_t < tot ? c.buffer[g_t % bs_] : in[off];                         \
    VP_BUF(c.buffer, bs_);                                                   \
    g_blocks = tot / bs_;                                                    \
    g_in = in;                                                               \
    g_ilen = len;                                                            \
    g_end = tot + len;                                                       \
    fn_(&c, in, len);                                                        \
    VP_CHECK("total length", c.total[0] == (sh_ == 32 ? (uint32_t)g_end : g_end) \
             && c.total[1] == (sh_ == 32 ? (uint32_t)(g_end >> 32) : 0));    \
    VP_CHECK("what is left is kept",                                         \
             g_t < g_end / bs_ * bs_ || c.buffer[g_t % bs_] == g_v);         \
    VP_CHECKB("each whole block is processed", g_blocks == g_end / bs_);     \
    VP_REACH()

#ifdef VP_CBMC
# define VP_MAXLEN  (1ull << 40)
# define VP_FILL(p_, n_)  ((void)0)
# define VP_CHECKB(l_, e_)  VP_CHECK(l_, e_)
#else
# define VP_MAXLEN  2000
# define VP_FILL(p_, n_)  vp_fill(p_, n_)
# define VP_CHECKB(l_, e_)  ((void)0)
static void vp_fill(void *p, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        ((uint8_t *)p)[i] = vp_u8();
    }
}
#endif
//@harness h_md5_update prop=C20 replace=md5_process loops=yes solver=cadical about=md5_update
VP_MAIN(h_md5_update)
{
    UPDATE(md5_update, md5_ctx, 64, 32);
}
//@harness h_sha1_update prop=C20 replace=sha1_process loops=yes solver=cadical about=sha1_update
VP_MAIN(h_sha1_update)
{
    UPDATE(sha1_update, sha1_ctx, 64, 32);
}
//@harness h_sha2_update prop=C20 replace=sha2_process loops=yes solver=cadical about=sha2_update
VP_MAIN(h_sha2_update)
{
    UPDATE(sha2_update, sha2_ctx, 64, 32);
}
//@harness h_sha4_update prop=C20 replace=sha4_process loops=yes solver=cadical about=sha4_update
VP_MAIN(h_sha4_update)
{
    UPDATE(sha4_update, sha4_ctx, 128, 64);
}

/* the padding */
#define FINISH(fn_, ctx_, bs_, sh_, is_, big_)                               \
    ctx_ c;                                                                  \
    uint64_t tot = vp_u64(), end, ls = bs_ / 8, n;                           \
    uint8_t out[64];                                                         \
                                                                             \
    VP_ASSUME(tot < (1ull << 60));                                           \
    end = (tot + 1 + ls + bs_ - 1) / bs_ * bs_;                              \
    VP_FILL(c.buffer, bs_);                                                  \
    VP_FILL(c.state, sizeof(c.state));                                       \
    is_;                                                                     \
    c.total[0] = tot;                                                        \
    c.total[1] = sh_ == 32 ? tot >> 32 : 0;                                  \
    g_t = vp_u64();                                                          \
    VP_ASSUME(g_t >= tot / bs_ * bs_ && g_t < end);                          \
    n = big_ ? end - 1 - g_t : g_t - (end - 8);                              \
    g_v = g_t < tot ? c.buffer[g_t % bs_] : g_t == tot ? 0x80                \
        : g_t < end - ls ? 0 : n >= 8 ? 0 : (tot * 8) >> (8 * n);            \
    VP_BUF(c.buffer, bs_);                                                   \
    g_blocks = tot / bs_;                                                    \
    fn_(&c, out);                                                            \
    VP_CHECKB("each block is processed, and nothing is left",                \
              g_blocks == end / bs_);                                        \
    VP_REACH()

//@harness h_md5_finish prop=C20 replace=md5_process unwind=4 solver=cadical about=md5_finish,md5_update
VP_MAIN(h_md5_finish)
{
    FINISH(md5_finish, md5_ctx, 64, 32, (void)0, false);
}
//@harness h_sha1_finish prop=C20 replace=sha1_process unwind=4 solver=cadical about=sha1_finish,sha1_update
VP_MAIN(h_sha1_finish)
{
    FINISH(sha1_finish, sha1_ctx, 64, 32, (void)0, true);
}
//@harness h_sha2_finish prop=C20 replace=sha2_process unwind=4 solver=cadical about=sha2_finish,sha2_update
VP_MAIN(h_sha2_finish)
{
    FINISH(sha2_finish, sha2_ctx, 64, 32, c.is224 = vp_bool(), true);
}
//@harness h_sha4_finish prop=C20 replace=sha4_process unwind=4 solver=cadical about=sha4_finish,sha4_update
VP_MAIN(h_sha4_finish)
{
    FINISH(sha4_finish, sha4_ctx, 128, 64, c.is384 = vp_bool(), true);
}

/* {{{ against libcrypto */

struct thr_hooks thr_hooks_g = {
    .init_cbs = DLIST_INIT(thr_hooks_g.init_cbs),
    .exit_cbs = DLIST_INIT(thr_hooks_g.exit_cbs),
};

#ifdef VP_NATIVE
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <crypt.h>
#define ND 6
static const EVP_MD *dg(int d)
{
    return d == 0 ? EVP_md5() : d == 1 ? EVP_sha1() : d == 2 ? EVP_sha224()
        : d == 3 ? EVP_sha256() : d == 4 ? EVP_sha384() : EVP_sha512();
}
static union {
    md5_ctx m; sha1_ctx s1; sha2_ctx s2; sha4_ctx s4;
} X;
static void d_starts(int d)
{
    memset(&X, 0xa5, sizeof(X));
    switch (d) {
      case 0: md5_starts(&X.m); break;
      case 1: sha1_starts(&X.s1); break;
      case 2: case 3: sha2_starts(&X.s2, d == 2); break;
      default: sha4_starts(&X.s4, d == 4); break;
    }
}
static void d_update(int d, const void *p, ssize_t n)
{
    switch (d) {
      case 0: md5_update(&X.m, p, n); break;
      case 1: sha1_update(&X.s1, p, n); break;
      case 2: case 3: sha2_update(&X.s2, p, n); break;
      default: sha4_update(&X.s4, p, n); break;
    }
}
static void d_finish(int d, uint8_t *out)
{
    switch (d) {
      case 0: md5_finish(&X.m, out); break;
      case 1: sha1_finish(&X.s1, out); break;
      case 2: case 3: sha2_finish(&X.s2, out); break;
      default: sha4_finish(&X.s4, out); break;
    }
}
static void d_one(int d, const void *p, ssize_t n, uint8_t *out)
{
    switch (d) {
      case 0: md5(p, n, out); break;
      case 1: sha1(p, n, out); break;
      case 2: case 3: sha2(p, n, out, d == 2); break;
      default: sha4(p, n, out, d == 4); break;
    }
}
static void d_hstarts(int d, const void *k, int n)
{
    memset(&X, 0xa5, sizeof(X));
    switch (d) {
      case 0: md5_hmac_starts(&X.m, k, n); break;
      case 1: sha1_hmac_starts(&X.s1, k, n); break;
      case 2: case 3: sha2_hmac_starts(&X.s2, k, n, d == 2); break;
      default: sha4_hmac_starts(&X.s4, k, n, d == 4); break;
    }
}
static void d_hupdate(int d, const void *p, ssize_t n)
{
    switch (d) {
      case 0: md5_hmac_update(&X.m, p, n); break;
      case 1: sha1_hmac_update(&X.s1, p, n); break;
      case 2: case 3: sha2_hmac_update(&X.s2, p, n); break;
      default: sha4_hmac_update(&X.s4, p, n); break;
    }
}
static void d_hfinish(int d, uint8_t *out)
{
    switch (d) {
      case 0: md5_hmac_finish(&X.m, out); break;
      case 1: sha1_hmac_finish(&X.s1, out); break;
      case 2: case 3: sha2_hmac_finish(&X.s2, out); break;
      default: sha4_hmac_finish(&X.s4, out); break;
    }
}
static void d_hone(int d, const void *k, int kn, const void *p, ssize_t n, uint8_t *out)
{
    switch (d) {
      case 0: md5_hmac(k, kn, p, n, out); break;
      case 1: sha1_hmac(k, kn, p, n, out); break;
      case 2: case 3: sha2_hmac(k, kn, p, n, out, d == 2); break;
      default: sha4_hmac(k, kn, p, n, out, d == 4); break;
    }
}
static const int dlen[ND] = { 16, 20, 28, 32, 48, 64 };
static uint64_t rng_s;
static uint64_t rng(uint64_t n)
{
    rng_s = rng_s * 6364136223846793005ull + 1442695040888963407ull;
    return (rng_s >> 33) % n;
}
static uint8_t *rbuf(size_t n)
{
    uint8_t *p = (malloc)(n ?: 1);

    for (size_t i = 0; i < n; i++) {
        p[i] = rng(256);
    }
    return p;
}
static size_t rlen(void)
{
    size_t b = 64 * rng(5);

    switch (rng(4)) {
      case 0: return rng(300);
      case 1: return b + rng(20);
      case 2: return b + 50 + rng(20);
      default: return rng(3) ? rng(140) : rng(3000);
    }
}
#endif
//@harness h_digest prop=C20 kind=bounded bound="messages of at most 3000 bytes, cut at random" bmc=no search=8 about=md5,md5_process,md5_starts,md5_hex,md5_hmac,md5_hmac_starts,md5_hmac_finish,sha1,sha1_process,sha1_starts,sha1_hex,sha1_hmac,sha2,sha2_process,sha2_starts,sha2_hex,sha2_hmac,sha4,sha4_process,sha4_starts,sha4_hmac
VP_MAIN(h_digest)
{
#ifdef VP_NATIVE
    int d = vp_range(0, ND - 1);
    bool hm = vp_bool();
    size_t n, kn, pos;
    uint8_t *p, *k, ref[64], out[65], one[65];
    unsigned rl;

    rng_s = vp_u64();
    n = rlen();
    p = rbuf(n);
    kn = rng(3) ? rng(80) : rng(200);
    k = rbuf(kn);
    memset(out, 0x77, sizeof(out));
    memset(one, 0x77, sizeof(one));
    if (hm) {
        HMAC(dg(d), k, kn, p, n, ref, &rl);
        d_hstarts(d, k, kn);
        d_hone(d, k, kn, p, n, one);
        d_hstarts(d, k, kn);
    } else {
        EVP_Digest(p, n, ref, &rl, dg(d), NULL);
        d_one(d, p, n, one);
        d_starts(d);
    }
    VP_CHECK("one call", !memcmp(one, ref, dlen[d]));
    VP_CHECK("nothing after the digest", one[dlen[d]] == 0x77 || d == 2 || d == 4);
    for (pos = 0; pos < n;) {
        size_t c = rng(3) ? rng(100) : rlen();

        c = MIN(c, n - pos);
        if (hm) {
            d_hupdate(d, p + pos, c);
        } else {
            d_update(d, p + pos, c);
        }
        pos += c;
    }
    if (hm) {
        d_hfinish(d, out);
    } else {
        d_finish(d, out);
    }
    VP_CHECK("in pieces", !memcmp(out, ref, dlen[d]));
    VP_CHECK("nothing after the digest", out[dlen[d]] == 0x77 || d == 2 || d == 4);
    if (!hm && d < 4) {
        char hex[80], rh[80];

        memset(hex, 0x55, sizeof(hex));
        for (int i = 0; i < dlen[d]; i++) {
            (sprintf)(rh + 2 * i, "%02x", ref[i]);
        }
        if (vp_bool()) {
            switch (d) {
              case 0: md5_hex(p, n, hex); break;
              case 1: sha1_hex(p, n, hex); break;
              default: sha2_hex(p, n, hex, d == 2); break;
            }
        } else {
            d_starts(d);
            d_update(d, p, n);
            switch (d) {
              case 0: md5_finish_hex(&X.m, hex); break;
              case 1: sha1_finish_hex(&X.s1, hex); break;
              default: sha2_finish_hex(&X.s2, hex); break;
            }
        }
        VP_CHECK("in hexadecimal", !(strcmp)(hex, rh));
    }
    (free)(p);
    (free)(k);
#endif
    VP_REACH();
}
//@harness h_digest_big prop=C20 kind=bounded tier=thorough bound="one update of 4 GiB and 10 bytes" bmc=no search=1 about=md5_update,sha1_update,sha2_update
VP_MAIN(h_digest_big)
{
#ifdef VP_NATIVE
    static int d;
    size_t n = (4ull << 30) + 10;
    uint8_t ref[64], out[64];
    unsigned rl;
    void *p;

    if (d >= 4) {
        return;
    }
    p = (mmap)(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    VP_ASSUME(p != MAP_FAILED);
    EVP_Digest(p, n, ref, &rl, dg(d), NULL);
    d_one(d, p, n, out);
    munmap(p, n);
    VP_CHECK("one call with more than 4 GiB", !memcmp(out, ref, dlen[d]));
    d++;
#endif
    VP_REACH();
}
//@harness h_crypt prop=C20 kind=bounded bound="passwords of at most 150 bytes, salts of at most 20, 1000 to 1020 rounds" bmc=no search=6 about=sha2_crypt,sha2_crypt_parse
VP_MAIN(h_crypt)
{
#ifdef VP_NATIVE
    char pw[200], salt[32], set[128];
    int n = vp_bool() ? vp_range(0, 40) : vp_range(0, 150), sn = vp_range(1, 20);
    int rounds = vp_range(1000, 1020), r2 = 0;
    struct crypt_data cd = { .initialized = 0 };
    const char *ref;
    pstream_t ps, ph;
    SB_1k(out);

    for (int i = 0; i < n; i++) {
        pw[i] = vp_range(1, 255);
    }
    pw[n] = 0;
    for (int i = 0; i < sn; i++) {
        salt[i] = "./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"[vp_range(0, 63)];
    }
    salt[sn] = 0;
    (snprintf)(set, sizeof(set), "$5$rounds=%d$%s$", rounds, salt);
    ref = crypt_r(pw, set, &cd);
    VP_ASSUME(ref && ref[0] == '$');
    sha2_crypt(pw, n, salt, sn, rounds, &out);
    VP_CHECK("crypt", !(strcmp)(ref, out.data) && (strlen)(ref) == (size_t)out.len);
    VP_CHECK("parsed back", sha2_crypt_parse(LSTR_SB_V(&out), &r2, &ps, &ph) == 0);
    VP_CHECK("checked only", sha2_crypt_parse(LSTR_SB_V(&out), NULL, NULL, NULL) == 0);
    sn = MIN(sn, 16);
    VP_CHECK("its parts", r2 == rounds && ps_len(&ps) == sn
             && !memcmp(ps.s, salt, sn) && ps_len(&ph) == 43
             && ph.s_end == out.data + out.len);
    out.data[vp_range(0, out.len - 44)] ^= 1 << vp_range(0, 6);
    sb_wipe(&out);
#endif
    VP_REACH();
}
/* }}} */
