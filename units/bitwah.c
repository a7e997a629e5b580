/* Compressed bitmaps. */
//@blk
//@link src/core/bithacks.c
#define VP_WANT_STUBS
#define VP_PANIC_FAILS
#define VP_TSTACK
#define VP_MEM_WORDS
#include "vp.h"
#include "vp_mem.h"
#include <lib-common/core.h>
#include "src/container/qvector.blk"
#include "src/core/bit-wah.c"

#ifdef VP_NATIVE
static uint64_t rng_s;
static uint64_t rng(uint64_t n)
{
    rng_s = rng_s * 6364136223846793005ull + 1442695040888963407ull;
    return (rng_s >> 33) % n;
}
#define NB  6000
#define NM  3
typedef struct m_t {
    wah_t    w;
    uint32_t len;
    uint8_t  b[NB];
} m_t;
static m_t M[NM];

static void m_same(const wah_t *w, const m_t *m, bool full)
{
    uint64_t act = 0, k = 0;

    for (uint32_t i = 0; i < m->len; i++) {
        act += m->b[i];
    }
    VP_CHECK("length", w->len == m->len);
    VP_CHECK("number of bits set", w->active == act);
    wah_for_each_1(en, w) {
        while (k < m->len && !m->b[k]) {
            k++;
        }
        VP_CHECK("set bits are enumerated in order, and only them",
                 k < m->len && en.key == k);
        k++;
    }
    while (k < m->len && !m->b[k]) {
        k++;
    }
    VP_CHECK("all the set bits are enumerated", k >= m->len);
    if (!full) {
        return;
    }
    k = 0;
    wah_for_each_0(en, w) {
        while (k < m->len && m->b[k]) {
            k++;
        }
        VP_CHECK("clear bits are enumerated in order, and only them",
                 k < m->len && en.key == k);
        k++;
    }
    while (k < m->len && m->b[k]) {
        k++;
    }
    VP_CHECK("all the clear bits are enumerated", k >= m->len);
    for (uint32_t i = 0; i < m->len + 70; i++) {
        VP_CHECK("random access", wah_get(w, i) == (i < m->len && m->b[i]));
    }
    /* skipping */
    for (int t = 0; t < 8; t++) {
        wah_bit_enum_t en;
        bool rev = rng(2);

        k = 0;
        en = wah_bit_enum_start(w, rev);
        for (;;) {
            uint64_t n = rng(3) ? rng(40) : rng(400);

            while (k < m->len && m->b[k] == rev) {
                k++;
            }
            if (k >= m->len) {
                VP_CHECK("nothing left", en.word_en.state == WAH_ENUM_END);
                break;
            }
            VP_CHECK("the enumerator is on the next bit",
                     en.word_en.state != WAH_ENUM_END && en.key == k);
            wah_bit_enum_skip1s(&en, n);
            while (n && k < m->len) {
                k++;
                n--;
                while (k < m->len && m->b[k] == rev) {
                    k++;
                }
            }
        }
    }
    /* by word */
    {
        wah_word_enum_t en = wah_word_enum_start(w, false);

        for (k = 0; k < m->len; k += 32) {
            uint32_t v = 0;

            for (uint32_t i = k; i < k + 32 && i < m->len; i++) {
                v |= (uint32_t)m->b[i] << (i - k);
            }
            VP_CHECK("words", en.state != WAH_ENUM_END && en.current == v);
            if (!rng(4)) {
                uint32_t n = wah_word_enum_skip0(&en), e = 0;

                for (uint32_t i = k; i < DIV_ROUND_UP(m->len, 32) * 32 && (i >= m->len || !m->b[i]); i++) {
                    e++;
                }
                VP_CHECK("words skipped", n == e / 32);
                if (n) {
                    k += (n - 1) * 32;
                    continue;
                }
            }
            wah_word_enum_next(&en);
        }
        VP_CHECK("no more words", en.state == WAH_ENUM_END);
    }
}
static uint32_t m_run(const m_t *m)
{
    uint32_t n = rng(4) == 0 ? rng(33) : rng(3) == 0 ? 32 * rng(40)
               : rng(2) ? rng(100) : rng(1500);

    return MIN(n, NB - 64 - m->len);
}
#endif
//@harness h_wah prop=C19 kind=bounded bound="histories of 60 operations over 3 bitmaps of at most 6000 bits, buckets of 2 words to the default size" bmc=no search=12 about=wah_add0s,wah_add1s,wah_add1_at,wah_add,wah_pad32,wah_and,wah_and_not,wah_not_and,wah_or,wah_not,wah_multi_or,wah_get,wah_copy,wah_dup,wah_bit_enum_start,wah_bit_enum_scan_word,wah_bit_enum_skip1s,wah_word_enum_start,wah_word_enum_next,wah_word_enum_skip0,mp_wah_init_from_data,mp_wah_get_storage_lstr,wah_get_storage,from_data_split_chunk
VP_MAIN(h_wah)
{
#ifdef VP_NATIVE
    uint64_t bib;

    rng_s = vp_u64();
    vp_t_reset();
    bib = rng(2) ? WAH_BITS_IN_BUCKET : 32 * (2 + rng(rng(2) ? 4 : 40));
    wah_set_bits_in_bucket(bib);
    for (int i = 0; i < NM; i++) {
        wah_init(&M[i].w);
        M[i].len = 0;
        p_clear(&M[i].b, 1);
    }
    for (int ops = 1 + rng(60); ops > 0; ops--) {
        int a = rng(NM), b = rng(NM), c = rng(NM);
        m_t *m = &M[a], *o = &M[b];
        uint32_t n, l;

        switch (rng(20)) {
          case 0: case 1: case 2: case 3:
            n = m_run(m);
            wah_add0s(&m->w, n);
            memset(m->b + m->len, 0, n);
            m->len += n;
            break;
          case 4: case 5: case 6: case 7:
            n = m_run(m);
            wah_add1s(&m->w, n);
            memset(m->b + m->len, 1, n);
            m->len += n;
            break;
          case 8: case 9: case 10: {
            uint8_t d[NB / 8 + 8], off = rng(4), kind;
            uint64_t *w;

            n = m_run(m);
            for (uint32_t i = 0; i < sizeof(d); i++) {
                if (i % 8 == off) {
                    kind = rng(3);
                }
                d[i] = i < off || kind == 0 ? rng(256) : kind == 1 ? 0 : 255;
            }
            /* a copy of the data, up to the end of its last 64-bit word: the
             * bit scans of bithacks.c read whole aligned words */
            w = (malloc)(ROUND_UP(DIV_ROUND_UP(n, 8) + off, 8));
            memcpy(w, d, DIV_ROUND_UP(n, 8) + off);
            wah_add(&m->w, (uint8_t *)w + off, n);
            (free)(w);
            for (uint32_t i = 0; i < n; i++) {
                m->b[m->len + i] = d[off + i / 8] >> (i % 8) & 1;
            }
            m->len += n;
            break;
          }
          case 11:
            n = m->len + m_run(m);
            if (n >= NB - 64) {
                break;
            }
            wah_add1_at(&m->w, n);
            m->b[n] = 1;
            if (n >= m->len) {
                memset(m->b + m->len, 0, n - m->len);
                m->len = n + 1;
            }
            break;
          case 12:
            if (m->len >= NB - 100) {
                break;
            }
            n = m->len;
            wah_pad32(&m->w);
            VP_CHECK("padded to words", m->w.len % 32 == 0 && m->w.len >= n
                     && m->w.len <= n + 32);
            m->len = m->w.len;
            memset(m->b + n, 0, m->len - n);
            break;
          case 13:
            if (a == b) {
                break;
            }
            /* not both: no public function does this */
            n = rng(3);
            if (rng(2)) {
                wah_and_(&m->w, &o->w, n & 1, n & 2);
            } else
            if (n == 0) {
                wah_and(&m->w, &o->w);
            } else
            if (n == 1) {
                wah_not_and(&m->w, &o->w);
            } else
            {
                wah_and_not(&m->w, &o->w);
            }
            l = MAX(m->len, o->len);
            for (uint32_t i = 0; i < l; i++) {
                m->b[i] = ((i < m->len && m->b[i]) ^ (n & 1))
                        & ((i < o->len && o->b[i]) ^ (n >> 1));
            }
            m->len = l;
            break;
          case 14:
            if (a == b) {
                break;
            }
            wah_or(&m->w, &o->w);
            l = MAX(m->len, o->len);
            for (uint32_t i = 0; i < l; i++) {
                m->b[i] = (i < m->len && m->b[i]) | (i < o->len && o->b[i]);
            }
            m->len = l;
            break;
          case 15: {
            const wah_t *src[4];
            int k = rng(4);
            int idx[4];

            l = 0;
            for (int i = 0; i < k; i++) {
                idx[i] = rng(NM);
                if (idx[i] == c) {
                    idx[i] = (c + 1) % NM;
                }
                src[i] = &M[idx[i]].w;
                l = MAX(l, M[idx[i]].len);
            }
            if (rng(2)) {
                wah_multi_or(src, k, &M[c].w);
            } else {
                wah_t *t = wah_multi_or(src, k, NULL);

                wah_copy(&M[c].w, t);
                wah_pool_release(&t);
            }
            for (uint32_t i = 0; i < l; i++) {
                M[c].b[i] = 0;
                for (int j = 0; j < k; j++) {
                    M[c].b[i] |= i < M[idx[j]].len && M[idx[j]].b[i];
                }
            }
            M[c].len = l;
            m_same(&M[c].w, &M[c], true);
            break;
          }
          case 16:
            wah_not(&m->w);
            for (uint32_t i = 0; i < m->len; i++) {
                m->b[i] ^= 1;
            }
            break;
          case 17:
            if (a != b) {
                if (rng(2)) {
                    wah_copy(&m->w, &o->w);
                } else {
                    wah_t *t = wah_dup(&o->w);

                    m_same(t, o, false);
                    wah_copy(&m->w, t);
                    wah_delete(&t);
                }
                memcpy(m->b, o->b, NB);
                m->len = o->len;
            }
            break;
          case 18:
            if (rng(4) == 0) {
                wah_reset_map(&m->w);
                m->len = 0;
            }
            break;
          default:
            /* storage round trip, possibly with other buckets */
            if (m->len % 32 == 0) {
                lstr_t s;
                wah_t *t, r;

                s = mp_wah_get_storage_lstr(NULL, &m->w);
                VP_CHECK("storage length", (size_t)s.len
                         == wah_get_storage_len(&m->w) * sizeof(wah_word_t));
                if (rng(2)) {
                    wah_set_bits_in_bucket(32 * (1 + rng(12)));
                }
                t = wah_new_from_data(ps_init(s.s, s.len));
                VP_CHECK("storage is accepted", t != NULL);
                m_same(t, m, true);
                wah_delete(&t);
                VP_CHECK("partial words are refused",
                         !wah_init_from_data(&r, ps_init(s.s, s.len - 1 - rng(3))));
                (free)((void *)s.s);
                wah_set_bits_in_bucket(bib);
            }
            break;
        }
        m_same(&m->w, m, rng(4) == 0);
    }
    for (int i = 0; i < NM; i++) {
        m_same(&M[i].w, &M[i], true);
        wah_wipe(&M[i].w);
    }
#endif
    VP_REACH();
}
