/* Checksums, hashes and ciphers. */
//@blk
//@link src/crypto/padlock.c src/crypto/md5.c src/crypto/sha1.c src/crypto/sha2.c src/core/str-conv.c src/core/bithacks.c src/core/str-buf.c src/core/str-iprintf.c src/core/str-dtoa.c src/core/str-num.c src/core/str-ctype.c src/core/str-stream.c
#define VP_WANT_STUBS
#include "vp.h"
#include "vp_mem.h"
#include <lib-common/core.h>
#include <lib-common/thr.h>
#include <lib-common/hash.h>
#include "src/crypto/hash.c"
#include "src/crypto/crc32.c"
#include "src/crypto/crc64.c"
#undef A
#undef B
#undef C
#undef D
#include "src/crypto/aes.c"
#include "src/crypto/des.c"

/* {{{ CRC: the tables */

/* one bit at a time, as the polynomial says */
static uint32_t ref_crc32(uint32_t c, uint8_t b)
{
    c ^= b;
    for (int i = 0; i < 8; i++) {
        c = (c >> 1) ^ (c & 1 ? 0xedb88320u : 0);
    }
    return c;
}
static uint64_t ref_crc64(uint64_t c, uint8_t b)
{
    c ^= b;
    for (int i = 0; i < 8; i++) {
        c = (c >> 1) ^ (c & 1 ? 0xc96c5795d7870f42ull : 0);
    }
    return c;
}
//@harness h_crc32_tab prop=C20 unwind=10 solver=cadical about=naive_icrc32,crc32table
VP_MAIN(h_crc32_tab)
{
    uint32_t c = vp_u32(), k = vp_range(1, 7), i = vp_range(0, 255);
    uint8_t b = vp_u8();

    VP_CHECK("one byte", naive_icrc32(c, &b, 1) == ref_crc32(c, b));
    VP_CHECK("the tables of the next bytes",
             crc32table[k][i] == ref_crc32(crc32table[k - 1][i], 0));
    VP_REACH();
}
//@harness h_crc64_tab prop=C20 unwind=10 solver=cadical about=naive_icrc64,crc64table
VP_MAIN(h_crc64_tab)
{
    uint64_t c = vp_u64();
    uint32_t k = vp_range(1, 3), i = vp_range(0, 255);
    uint8_t b = vp_u8();

    VP_CHECK("one byte", naive_icrc64(c, &b, 1) == ref_crc64(c, b));
    VP_CHECK("the tables of the next bytes",
             crc64table[k][i] == ref_crc64(crc64table[k - 1][i], 0));
    VP_REACH();
}
/* }}} */
/* {{{ against references */

struct thr_hooks thr_hooks_g = {
    .init_cbs = DLIST_INIT(thr_hooks_g.init_cbs),
    .exit_cbs = DLIST_INIT(thr_hooks_g.exit_cbs),
};
#ifdef VP_NATIVE
#include <openssl/evp.h>
static uint64_t rng_s;
static uint64_t rng(uint64_t n)
{
    rng_s = rng_s * 6364136223846793005ull + 1442695040888963407ull;
    return (rng_s >> 33) % n;
}
static void rfill(uint8_t *p, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        p[i] = rng(256);
    }
}
static uint32_t rot32(uint32_t x, int n)
{
    return x << n | x >> (32 - n);
}
static uint64_t rot64(uint64_t x, int n)
{
    return x << n | x >> (64 - n);
}
static uint32_t mix32(uint32_t h)
{
    h = (h ^ h >> 16) * 0x85ebca6b;
    h = (h ^ h >> 13) * 0xc2b2ae35;
    return h ^ h >> 16;
}
static uint64_t mix64(uint64_t k)
{
    k = (k ^ k >> 33) * 0xff51afd7ed558ccdull;
    k = (k ^ k >> 33) * 0xc4ceb9fe1a85ec53ull;
    return k ^ k >> 33;
}
static uint32_t rd32(const uint8_t *p, int n)
{
    uint32_t v = 0;

    for (int i = 0; i < n && i < 4; i++) {
        v |= (uint32_t)p[i] << (8 * i);
    }
    return v;
}
static uint64_t rd64(const uint8_t *p, int n)
{
    uint64_t v = 0;

    for (int i = 0; i < n && i < 8; i++) {
        v |= (uint64_t)p[i] << (8 * i);
    }
    return v;
}
/* MurmurHash3, as published, one block at a time */
/* SuperFastHash (Paul Hsieh), on unsigned bytes */
static uint32_t ref_hsieh(const uint8_t *d, int len)
{
    uint32_t h = len, t;

    for (int i = len >> 2; i > 0; i--, d += 4) {
        h += d[0] | d[1] << 8;
        t = ((uint32_t)(d[2] | d[3] << 8) << 11) ^ h;
        h = (h << 16) ^ t;
        h += h >> 11;
    }
    if ((len & 3) == 3) {
        h += d[0] | d[1] << 8;
        h ^= h << 16;
        h ^= (uint32_t)d[2] << 18;
        h += h >> 11;
    } else
    if ((len & 3) == 2) {
        h += d[0] | d[1] << 8;
        h ^= h << 11;
        h += h >> 17;
    } else
    if ((len & 3) == 1) {
        h += d[0];
        h ^= h << 10;
        h += h >> 1;
    }
    h ^= h << 3;
    h += h >> 5;
    h ^= h << 4;
    h += h >> 17;
    h ^= h << 25;
    h += h >> 6;
    return h;
}
static uint32_t ref_m32(const uint8_t *p, size_t n, uint32_t h)
{
    for (size_t i = 0; i < n; i += 4) {
        int r = MIN(n - i, 4);

        h ^= rot32(rd32(p + i, r) * 0xcc9e2d51, 15) * 0x1b873593;
        if (r == 4) {
            h = rot32(h, 13) * 5 + 0xe6546b64;
        }
    }
    return mix32(h ^ n);
}
static void ref_m128(const uint8_t *p, size_t n, uint32_t seed, uint64_t out[2])
{
    uint64_t a = seed, b = seed, c1 = 0x87c37b91114253d5ull, c2 = 0x4cf5ad432745937full;

    for (size_t i = 0; i < n; i += 16) {
        int r = MIN(n - i, 16);

        if (r == 16) {
            a ^= rot64(rd64(p + i, 8) * c1, 31) * c2;
            a = (rot64(a, 27) + b) * 5 + 0x52dce729;
            b ^= rot64(rd64(p + i + 8, 8) * c2, 33) * c1;
            b = (rot64(b, 31) + a) * 5 + 0x38495ab5;
        } else {
            b ^= r > 8 ? rot64(rd64(p + i + 8, r - 8) * c2, 33) * c1 : 0;
            a ^= rot64(rd64(p + i, r) * c1, 31) * c2;
        }
    }
    a ^= n;
    b ^= n;
    a += b;
    b += a;
    a = mix64(a);
    b = mix64(b);
    a += b;
    b += a;
    out[0] = a;
    out[1] = b;
}
static void ref_m128_86(const uint8_t *p, size_t n, uint32_t seed, uint32_t h[4])
{
    static const uint32_t c[4] = { 0x239b961b, 0xab0e9789, 0x38b34ae5, 0xa1e38b93 };
    static const int r1[4] = { 15, 16, 17, 18 }, r2[4] = { 19, 17, 15, 13 };
    static const uint32_t m[4] = { 0x561ccd1b, 0x0bcaa747, 0x96cd1c35, 0x32ac3b17 };

    for (int j = 0; j < 4; j++) {
        h[j] = seed;
    }
    for (size_t i = 0; i < n; i += 16) {
        int r = MIN(n - i, 16);

        if (r == 16) {
            for (int j = 0; j < 4; j++) {
                h[j] ^= rot32(rd32(p + i + 4 * j, 4) * c[j], r1[j]) * c[(j + 1) % 4];
                h[j] = (rot32(h[j], r2[j]) + h[(j + 1) % 4]) * 5 + m[j];
            }
        } else {
            for (int j = 0; j < 4; j++) {
                if (r > 4 * j) {
                    h[j] ^= rot32(rd32(p + i + 4 * j, r - 4 * j) * c[j], r1[j]) * c[(j + 1) % 4];
                }
            }
        }
    }
    for (int j = 0; j < 4; j++) {
        h[j] ^= n;
    }
    h[0] += h[1] + h[2] + h[3];
    h[1] += h[0];
    h[2] += h[0];
    h[3] += h[0];
    for (int j = 0; j < 4; j++) {
        h[j] = mix32(h[j]);
    }
    h[0] += h[1] + h[2] + h[3];
    h[1] += h[0];
    h[2] += h[0];
    h[3] += h[0];
}
static uint32_t ref_jenkins(const uint8_t *p, size_t n, bool low)
{
    uint32_t h = 0;

    for (size_t i = 0; i < n; i++) {
        h += low && p[i] >= 'A' && p[i] <= 'Z' ? p[i] + 32 : p[i];
        h += h << 10;
        h ^= h >> 6;
    }
    h += h << 3;
    h ^= h >> 11;
    return h + (h << 15);
}
#define HN 700
#endif
//@harness h_hash prop=C20 kind=bounded bound="data of at most 700 bytes at any alignment, cut at random" bmc=no search=6 about=icrc32,icrc64,fast_icrc32,fast_icrc64,murmur_hash3_x86_32,murmur_hash3_x86_32_update,murmur_hash3_x86_32_finish,murmur_hash3_x86_128,murmur_hash3_x64_128,murmur_hash3_x64_128_update,murmur_hash3_x64_128_finish,jenkins_hash,jenkins_update,jenkins_finish,jenkins_hash_ascii_lower,jenkins_update_ascii_lower,mem_hash32
VP_MAIN(h_hash)
{
#ifdef VP_NATIVE
    size_t n, cut[12];
    int nc, off, kind;
    uint8_t *base, *p;
    uint32_t seed, c32;
    uint64_t c64;

    rng_s = vp_u64();
    n = rng(3) ? rng(100) : rng(HN);
    off = rng(16);
    base = (malloc)(n + off + !(n + off));
    p = base + off;
    rfill(p, n);
    seed = rng(2) ? rng(1ull << 31) * 2 + rng(2) : 0;
    nc = rng(12);
    cut[0] = 0;
    for (int i = 1; i < nc; i++) {
        size_t c = rng(2) ? rng(6) : rng(120);

        cut[i] = MIN(cut[i - 1] + c, n);
    }
    nc = MAX(nc, 1);
    kind = vp_range(0, 7);
    switch (kind) {
      case 0:
        c32 = ~seed;
        for (size_t i = 0; i < n; i++) {
            c32 = ref_crc32(c32, p[i]);
        }
        VP_CHECK("crc32", icrc32(seed, p, n) == ~c32);
        {
            uint32_t v = seed;

            for (int i = 0; i < nc; i++) {
                v = icrc32(v, p + cut[i], (i + 1 < nc ? cut[i + 1] : n) - cut[i]);
            }
            VP_CHECK("crc32 in pieces", v == ~c32);
        }
        break;
      case 1:
        c64 = seed * 0x100000001ull;
        {
            uint64_t v = c64;

            for (int i = 0; i < nc; i++) {
                v = icrc64(v, p + cut[i], (i + 1 < nc ? cut[i + 1] : n) - cut[i]);
            }
            c64 = ~c64;
            for (size_t i = 0; i < n; i++) {
                c64 = ref_crc64(c64, p[i]);
            }
            VP_CHECK("crc64 in pieces", v == ~c64);
            VP_CHECK("crc64", icrc64(seed * 0x100000001ull, p, n) == ~c64);
        }
        break;
      case 2: {
        murmur_hash3_x86_32_ctx x;
        uint32_t r = ref_m32(p, n, seed), o;

        VP_CHECK("murmur 32", murmur_hash3_x86_32(p, n, seed) == r);
        memset(&x, 0xee, sizeof(x));
        murmur_hash3_x86_32_starts(&x, seed);
        for (int i = 0; i < nc; i++) {
            murmur_hash3_x86_32_update(&x, p + cut[i], (i + 1 < nc ? cut[i + 1] : n) - cut[i]);
        }
        murmur_hash3_x86_32_finish(&x, (byte *)&o);
        VP_CHECK("murmur 32 in pieces", o == r);
        VP_CHECK("mem_hash32", mem_hash32(p, n) == ref_m32(p, n, 0xdeadc0de));
        break;
      }
      case 3: {
        murmur_hash3_x64_128_ctx_t x;
        uint64_t r[2], o[2];

        ref_m128(p, n, seed, r);
        murmur_hash3_x64_128(p, n, seed, (byte *)o);
        VP_CHECK("murmur 128", !memcmp(r, o, 16));
        memset(&x, 0xee, sizeof(x));
        murmur_hash3_x64_128_starts(&x, seed);
        for (int i = 0; i < nc; i++) {
            murmur_hash3_x64_128_update(&x, p + cut[i], (i + 1 < nc ? cut[i + 1] : n) - cut[i]);
        }
        murmur_hash3_x64_128_finish(&x, (byte *)o);
        VP_CHECK("murmur 128 in pieces", !memcmp(r, o, 16));
        break;
      }
      case 4: {
        uint32_t r[4], o[4];

        ref_m128_86(p, n, seed, r);
        murmur_hash3_x86_128(p, n, seed, (byte *)o);
        VP_CHECK("murmur 128, 32-bit variant", !memcmp(r, o, 16));
        break;
      }
      case 5: case 6: {
        jenkins_ctx x;
        uint32_t o;
        uint32_t r = ref_jenkins(p, n, kind == 6);

        VP_CHECK("jenkins", (kind == 6 ? jenkins_hash_ascii_lower(p, n)
                             : jenkins_hash(p, n)) == r);
        memset(&x, 0xee, sizeof(x));
        jenkins_starts(&x);
        for (int i = 0; i < nc; i++) {
            size_t l = (i + 1 < nc ? cut[i + 1] : n) - cut[i];

            if (kind == 6) {
                jenkins_update_ascii_lower(&x, p + cut[i], l);
            } else {
                jenkins_update(&x, p + cut[i], l);
            }
        }
        jenkins_finish(&x, (byte *)&o);
        VP_CHECK("jenkins in pieces", o == r);
        break;
      }
      default: {
        /* same content, same hash */
        uint8_t *q = (malloc)(n + 1);
        uint32_t a = hsieh_hash(p, n);

        memcpy(q, p, n);
        VP_CHECK("hsieh", hsieh_hash(q, n) == a && ref_hsieh(q, n) == a);
        (free)(q);
        break;
      }
    }
    (free)(base);
#endif
    VP_REACH();
}
//@harness h_cipher prop=C20 kind=bounded bound="messages of at most 320 bytes" bmc=no search=6 about=aes_setkey_enc,aes_setkey_dec,aes_crypt_ecb,aes_crypt_cbc,aes_crypt_cfb,des_setkey_enc,des_setkey_dec,des_crypt_ecb,des_crypt_cbc,des3_set2key_enc,des3_set2key_dec,des3_set3key_enc,des3_set3key_dec,des3_crypt_ecb,des3_crypt_cbc
VP_MAIN(h_cipher)
{
#ifdef VP_NATIVE
    uint8_t key[32], ek[32], iv[16], v[16], *in, *out, ref[400], back[400];
    int n, kb, l = 0, l2 = 0, kind = vp_range(0, 7), bs = 8;
    const EVP_CIPHER *c;
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
    bool inplace = vp_bool();
    aes_ctx a;
    des_ctx d;
    des3_ctx d3;

    rng_s = vp_u64();
    rfill(key, 32);
    rfill(iv, 16);
    memcpy(ek, key, 32);
    kb = 8 * (16 + 8 * rng(3));
    switch (kind) {
      case 0: c = kb == 128 ? EVP_aes_128_ecb() : kb == 192 ? EVP_aes_192_ecb() : EVP_aes_256_ecb(); bs = 16; break;
      case 1: c = kb == 128 ? EVP_aes_128_cbc() : kb == 192 ? EVP_aes_192_cbc() : EVP_aes_256_cbc(); bs = 16; break;
      case 2: c = kb == 128 ? EVP_aes_128_cfb128() : kb == 192 ? EVP_aes_192_cfb128() : EVP_aes_256_cfb128(); bs = 1; break;
      case 3: c = EVP_des_ede3_ecb(); memcpy(ek + 8, key, 8); memcpy(ek + 16, key, 8); break;
      case 4: c = EVP_des_ede3_cbc(); memcpy(ek + 8, key, 8); memcpy(ek + 16, key, 8); break;
      case 5: c = EVP_des_ede3_ecb(); break;
      case 6: c = EVP_des_ede3_cbc(); break;
      default: c = EVP_des_ede3_cbc(); memcpy(ek + 16, key, 8); break;
    }
    n = kind == 0 ? 16 : kind == 3 || kind == 5 ? 8 : bs * rng(20);
    in = (malloc)(n + !n);
    out = inplace ? in : (malloc)(n + !n);
    rfill(in, n);
    memcpy(back, in, n);
    EVP_EncryptInit_ex(x, c, NULL, ek, iv);
    EVP_CIPHER_CTX_set_padding(x, 0);
    EVP_EncryptUpdate(x, ref, &l, in, n);
    EVP_EncryptFinal_ex(x, ref + l, &l2);
    VP_ASSUME(l + l2 == n);
    EVP_CIPHER_CTX_free(x);
    memcpy(v, iv, 16);
    for (int dec = 0; dec < 2; dec++) {
        uint8_t *src = dec ? out : in, *dst = dec ? in : out;
        int iv_off = 0;

        memcpy(v, iv, 16);
        switch (kind) {
          case 0: case 1: case 2:
            if (dec && kind != 2) {
                aes_setkey_dec(&a, key, kb);
            } else {
                aes_setkey_enc(&a, key, kb);
            }
            if (kind == 0) {
                aes_crypt_ecb(&a, dec ? AES_DECRYPT : AES_ENCRYPT, src, dst);
            } else
            for (int pos = 0; pos < n;) {
                int s = kind == 1 ? 16 * rng(5) : rng(40);

                s = MIN(s, n - pos);
                if (kind == 1) {
                    aes_crypt_cbc(&a, dec ? AES_DECRYPT : AES_ENCRYPT, s, v, src + pos, dst + pos);
                } else {
                    aes_crypt_cfb(&a, dec ? AES_DECRYPT : AES_ENCRYPT, s, &iv_off, v, src + pos, dst + pos);
                }
                pos += s;
            }
            break;
          case 3: case 4:
            if (dec) {
                des_setkey_dec(&d, key);
            } else {
                des_setkey_enc(&d, key);
            }
            if (kind == 3) {
                des_crypt_ecb(&d, src, dst);
            } else
            for (int pos = 0; pos < n;) {
                int s = 8 * rng(5);

                s = MIN(s, n - pos);
                des_crypt_cbc(&d, dec ? DES_DECRYPT : DES_ENCRYPT, s, v, src + pos, dst + pos);
                pos += s;
            }
            break;
          default:
            if (kind == 7) {
                if (dec) {
                    des3_set2key_dec(&d3, key);
                } else {
                    des3_set2key_enc(&d3, key);
                }
            } else {
                if (dec) {
                    des3_set3key_dec(&d3, key);
                } else {
                    des3_set3key_enc(&d3, key);
                }
            }
            if (kind == 5) {
                des3_crypt_ecb(&d3, src, dst);
            } else
            for (int pos = 0; pos < n;) {
                int s = 8 * rng(5);

                s = MIN(s, n - pos);
                des3_crypt_cbc(&d3, dec ? DES_DECRYPT : DES_ENCRYPT, s, v, src + pos, dst + pos);
                pos += s;
            }
            break;
        }
        if (dec) {
            VP_CHECK("decrypts back", !memcmp(dst, back, n));
        } else {
            VP_CHECK("encrypts as defined", !memcmp(dst, ref, n));
        }
    }
    if (!inplace) {
        (free)(out);
    }
    (free)(in);
#endif
    VP_REACH();
}
/* }}} */
