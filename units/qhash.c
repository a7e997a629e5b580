/* Hash tables: sets and maps. */
//@blk
//@link src/core/bithacks.c src/core/str-conv.c src/crypto/hash.c
#define VP_WANT_STUBS
#define VP_PANIC_FAILS
#include "vp.h"
#include "vp_mem.h"
#include <lib-common/core.h>
#include <lib-common/hash.h>
#include <lib-common/container-qhash.h>
#include <lib-common/container-qhugehash.h>
#include "src/container/qvector.blk"
#include "src/container/qhash.c"

/* {{{ slots: proofs */
//@harness h_qh_slot prop=C17 unwind=5 solver=cadical about=qhash_slot_inv_flags,qhash_slot_get_flags,qhash_slot_is_set
VP_MAIN(h_qh_slot)
{
    size_t bits[4];
    uint32_t size = vp_range(1, 127), pos = vp_range(0, 140), o = vp_range(0, 127);
    qhash_hdr_t hdr = { .bits = bits, .size = size };
    size_t f0, fo;

    for (int i = 0; i < 4; i++) {
        bits[i] = vp_u64();
    }
    VP_CHECK("no slot after the last one",
             pos < size || !qhash_slot_is_set(&hdr, pos));
    VP_ASSUME(pos < size && o != pos);
    f0 = qhash_slot_get_flags(bits, pos);
    fo = qhash_slot_get_flags(bits, o);
    VP_CHECK("two bits", f0 == (bits[pos / 32] >> (pos % 32 * 2) & 3));
    VP_CHECK("set", !!qhash_slot_is_set(&hdr, pos) == (f0 & 1));
    qhash_slot_inv_flags(bits, pos);
    VP_CHECK("set and deleted are swapped",
             qhash_slot_get_flags(bits, pos) == (f0 ^ 3));
    VP_CHECK("no other slot", qhash_slot_get_flags(bits, o) == fo);
    VP_REACH();
}
//@harness h_qh_size prop=C17 unwind=33 solver=cadical about=qhash_get_size
VP_MAIN(h_qh_size)
{
    uint64_t t = vp_range(1, INT32_MAX - 1ull);
    uint32_t s = qhash_get_size(t), i = vp_range(0, 31);

    VP_CHECK("large enough", s >= t);
    VP_CHECK("the smallest of the sizes", prime_list[i] < t || prime_list[i] >= s);
    VP_REACH();
}
//@harness h_qh_scan prop=C17 unwind=7 solver=cadical about=qhash_scan
VP_MAIN(h_qh_scan)
{
    /* at most 97 slots, in both the new and the old table */
    size_t nb[4], ob[4];
    uint32_t sizes[] = { 11, 23, 53, 97 };
    uint32_t ns = sizes[vp_range(0, 3)], os = sizes[vp_range(0, 3)], ol;
    qhash_hdr_t old;
    qhash_t qh;
    uint32_t pos = vp_range(0, 97), r, k = vp_range(0, 97);
    bool in, both = vp_bool();

    memset(&qh, 0, sizeof(qh));
    memset(&old, 0, sizeof(old));
    for (int i = 0; i < 4; i++) {
        nb[i] = vp_u64();
        ob[i] = vp_u64();
    }
    /* the guard bits, nothing after them */
    VP_ASSUME((nb[2 * ns / 64] >> (2 * ns % 64)) == 1);
    VP_ASSUME((ob[2 * os / 64] >> (2 * os % 64)) == 1);
    /* old->len: 32 slots at a time, slots after it moved */
    ol = vp_range(0, 97);
    VP_ASSUME(ol == os || (ol <= os && ol % 32 == 0 && ol > 0));
    VP_ASSUME(pos <= (both ? MAX(ns, ol) : ns));
    qh.hdr.bits = nb;
    qh.hdr.size = ns;
    if (both) {
        old.bits = ob;
        old.size = os;
        old.len = ol;
        /* the slots from old->len on were moved */
        VP_ASSUME(ol > k || k >= os || !((ob[k / 32] >> (k % 32 * 2)) & 1));
        qh.old = &old;
    }
    r = qhash_scan(&qh, pos);
    in = (k < ns && (nb[k / 32] >> (k % 32 * 2) & 1))
      || (both && k < ol && (ob[k / 32] >> (k % 32 * 2) & 1));
    VP_CHECK("skips no slot in use", !in || k < pos || k >= r);
    if (r != UINT32_MAX) {
        VP_CHECK("from the position asked", r >= pos);
        VP_CHECK("a slot of the table", r < ns || (both && r < os));
        if (k == r) {
            VP_CHECK("a slot in use", in);
        }
    }
    VP_REACH();
}
/* }}} */
#ifdef VP_NATIVE
#define DOM  3000
typedef struct vk_t { uint32_t a; char s[7]; } __attribute__((packed)) vk_t;
static vk_t g_vk[DOM];
static uint32_t g_mul, g_hm;
static uint64_t g_val[DOM];
static bool g_in[DOM];
static int g_n;
static uint64_t g_r;
static uint32_t rnd_(void)
{
    g_r ^= g_r << 13;
    g_r ^= g_r >> 7;
    g_r ^= g_r << 17;
    return g_r >> 20;
}
static uint32_t vk_hash(const qhash_t *qh, const vk_t *k)
{
    return k->a % g_hm * 2654435761u;
}
static bool vk_eq(const qhash_t *qh, const vk_t *a, const vk_t *b)
{
    return a->a == b->a && !memcmp(a->s, b->s, 7);
}
qm_k32_t(t32, uint64_t);
qm_k64_t(t64, uint8_t);
qm_k128_t(t128, uint32_t);
qm_kvec_t(tvec, vk_t, uint16_t, vk_hash, vk_eq);
qm_kptr_t(tptr, vk_t, uint64_t, vk_hash, vk_eq);
qm_khptr_t(thp, vk_t, uint32_t);
qh_k32_t(s32);
qh_kvec_t(svec, vk_t, vk_hash, vk_eq);
#define KEY_t32(i)   ((i) * g_mul)
#define KEY_t64(i)   ((uint64_t)(i) * g_mul * 0x100000001ull)
#define KEY_t128(i)  ((uint128_t)(i) << 90 | (i) * g_mul)
#define KEY_tvec(i)  (&g_vk[i])
#define KEY_tptr(i)  (&g_vk[i])
#define KEY_thp(i)   (&g_vk[i])
#define KEY_s32(i)   KEY_t32(i)
#define KEY_svec(i)  (&g_vk[i])
#define GK_t32(k_)   (k_)
#define GK_t64(k_)   (k_)
#define GK_t128(k_)  (k_)
#define GK_tvec(k_)  (&(k_))
#define GK_tptr(k_)  (k_)
#define GK_thp(k_)   (k_)
static void model_reset(void)
{
    memset(g_in, 0, sizeof(g_in));
    g_n = 0;
    g_mul = vp_bool() ? 1 : (uint32_t)vp_range(1, 200) * 11 | 1;
    g_hm = vp_bool() ? 1000003 : vp_range(20, 4000);
    g_r = vp_u64() | 1;
    for (int i = 0; i < DOM; i++) {
        g_vk[i].a = i * g_mul;
        memcpy(g_vk[i].s, &i, 4);
    }
}
/* all keys, by lookups that move nothing, and by iteration */
static int g_wk, g_wv;
#define K_WIPE(p_)  ((void)*(p_), g_wk++)
#define V_WIPE(p_)  ((void)*(p_), g_wv++)
#define M_VERIFY(n, t, qh)                                                   \
    do {                                                                     \
        int bad_ = 0, c_ = 0;                                                \
        uint64_t s_ = 0, s1_ = 0, s2_ = 0, s3_ = 0;                          \
        VP_CHECK("the number of keys", qm_len(n, qh) == g_n);                \
        for (int i_ = 0; i_ < DOM; i_++) {                                   \
            uint32_t h_ = qm_hash(n, qh, KEY_##n(i_));                       \
            int32_t p_ = i_ & 1 ? qm_find_safe(n, qh, KEY_##n(i_))           \
                       : qm_find_safe_h(n, qh, h_, KEY_##n(i_));             \
            t v_ = 0;                                                        \
            bad_ += (p_ >= 0) != g_in[i_]                                    \
                || (p_ >= 0 && (qh)->values[p_] != (t)g_val[i_]);            \
            bad_ += (qm_fetch_safe(n, qh, KEY_##n(i_), &v_, 77) >= 0)        \
                != g_in[i_] || v_ != (g_in[i_] ? (t)g_val[i_] : 77);         \
            bad_ += qm_get_def_safe(n, qh, KEY_##n(i_), 78)                  \
                != (g_in[i_] ? (t)g_val[i_] : 78);                           \
            bad_ += qm_get_def_safe_h(n, qh, h_, KEY_##n(i_), 79)            \
                != (g_in[i_] ? (t)g_val[i_] : 79);                           \
            if (g_in[i_]) {                                                  \
                s_ += (t)g_val[i_];                                          \
                bad_ += qm_get_safe(n, qh, KEY_##n(i_)) != (t)g_val[i_]      \
                     || *qm_get_p_safe_h(n, qh, h_, KEY_##n(i_))             \
                        != (t)g_val[i_];                                     \
            }                                                                \
        }                                                                    \
        VP_CHECK("each key with its value, and no other key", !bad_);        \
        qm_for_each_pos(n, p_, qh) {                                         \
            c_++;                                                            \
            s1_ += (qh)->values[p_];                                         \
        }                                                                    \
        VP_CHECK("iteration yields each key once", c_ == g_n && s1_ == s_);  \
        qm_for_each_value(n, v_, qh) {                                       \
            s2_ += v_;                                                       \
        }                                                                    \
        qm_for_each_key_value_p(n, k_, v_, qh) {                             \
            s3_ += *v_;                                                      \
            bad_ += qm_get_safe(n, qh, GK_##n(k_)) != *v_;                   \
        }                                                                    \
        VP_CHECK("iteration on the values and on the keys",                  \
                 s2_ == s_ && s3_ == s_ && !bad_);                           \
    } while (0)
#define M_RUN(n, t)                                                          \
    do {                                                                     \
        qm_t(n) qh_, *qh = &qh_;                                             \
        long live = vp_live;                                                 \
        memset(&qh_, 0xa5, sizeof(qh_));                                     \
        if (vp_bool()) { qm_init(n, qh); } else { qm_init_cached(n, qh); }   \
        for (int k = vp_range(1, 12); k > 0; k--) {                          \
            int op = vp_range(0, 9), cnt = 0, i, r;                          \
            switch (op) {                                                    \
              case 0: case 1: case 2: cnt = vp_range(0, 40); op = 0; break;  \
              case 3: cnt = vp_range(0, 1800); op = 0; break;                \
              case 4: cnt = vp_range(0, 40); break;                          \
              case 5: cnt = vp_range(0, 2000); op = 4; break;                \
              case 6: cnt = vp_range(0, 100); break;                         \
            }                                                                \
            while (cnt-- > 0) {                                              \
                uint64_t v = rnd_();                                         \
                int how = rnd_() % 4, hh = rnd_() % 5 == 0;                  \
                uint32_t h;                                                  \
                i = rnd_() % DOM;                                            \
                h = qm_hash(n, qh, KEY_##n(i));                              \
                g_wk = g_wv = 0;                                             \
                if (op == 0) {                                               \
                    if (how < 2) {                                           \
                        r = hh ? qm_add_h(n, qh, h, KEY_##n(i), (t)v)        \
                          : qm_add(n, qh, KEY_##n(i), (t)v);                 \
                        VP_CHECK("added when new", (r < 0) == g_in[i]);      \
                        if (g_in[i]) v = g_val[i];                           \
                    } else if (how == 2) {                                   \
                        r = hh ? qm_replace_h(n, qh, h, KEY_##n(i), (t)v)    \
                          : qm_replace(n, qh, KEY_##n(i), (t)v);             \
                        VP_CHECK("replaced when there", (r < 0) == g_in[i]); \
                    } else {                                                 \
                        uint32_t p = qm_put(n, qh, KEY_##n(i), (t)v, 0);     \
                        VP_CHECK("collides when there",                      \
                                 !!(p & QHASH_COLLISION) == g_in[i]);        \
                        if (g_in[i]) v = g_val[i];                           \
                        VP_CHECK("the value of the collision",               \
                            qh->values[p & ~QHASH_COLLISION] == (t)v);       \
                    }                                                        \
                    g_n += !g_in[i]; g_in[i] = true; g_val[i] = v;           \
                } else if (op == 4) {                                        \
                    if (hh) {                                                \
                        switch (how) {                                       \
                          case 0: r = qm_deep_del_key(n, qh, KEY_##n(i),     \
                                              K_WIPE, V_WIPE); break;        \
                          case 1: r = qm_deep_del_key_h(n, qh, h,            \
                                   KEY_##n(i), K_WIPE, V_WIPE); break;       \
                          case 2: r = qm_deep_del_key_safe(n, qh,            \
                                   KEY_##n(i), K_WIPE, V_WIPE); break;       \
                          default: r = qm_deep_del_key_safe_h(n, qh, h,      \
                                   KEY_##n(i), K_WIPE, V_WIPE); break;       \
                        }                                                    \
                        VP_CHECK("wiped when deleted",                       \
                                 g_wk == g_in[i] && g_wv == g_in[i]);        \
                    } else                                                   \
                    switch (how) {                                           \
                      case 0: r = qm_del_key(n, qh, KEY_##n(i)); break;      \
                      case 1: r = qm_del_key_h(n, qh, h, KEY_##n(i)); break; \
                      case 2: r = qm_del_key_safe(n, qh, KEY_##n(i)); break; \
                      default: r = qm_del_key_safe_h(n, qh, h, KEY_##n(i));  \
                    }                                                        \
                    VP_CHECK("deleted when there", (r >= 0) == g_in[i]);     \
                    g_n -= g_in[i]; g_in[i] = false;                         \
                } else {                                                     \
                    t d = 0, *dp = &d;                                       \
                    r = how & 1 ? qm_find(n, qh, KEY_##n(i))                 \
                      : qm_find_h(n, qh, h, KEY_##n(i));                     \
                    VP_CHECK("found when there", (r >= 0) == g_in[i]         \
                        && (r < 0 || qh->values[r] == (t)g_val[i]));         \
                    r = qm_fetch_p(n, qh, KEY_##n(i), &dp, NULL);            \
                    VP_CHECK("fetched when there", (r >= 0) == g_in[i]       \
                        && (dp ? *dp == (t)g_val[i] && r >= 0 : r < 0));     \
                    dp = qm_get_def_p(n, qh, KEY_##n(i), &d);                \
                    VP_CHECK("its value, or the default",                    \
                        g_in[i] ? *dp == (t)g_val[i] : dp == &d);            \
                }                                                            \
            }                                                                \
            if (op == 7 && vp_bool()) {                                      \
                g_wk = g_wv = 0;                                             \
                if (vp_bool()) {                                             \
                    qm_deep_clear(n, qh, K_WIPE, V_WIPE);                    \
                    VP_CHECK("each key and value is wiped once",             \
                             g_wk == g_n && g_wv == g_n);                    \
                } else {                                                     \
                    qm_clear(n, qh);                                         \
                }                                                            \
                memset(g_in, 0, sizeof(g_in)); g_n = 0;                      \
            }                                                                \
            if (op == 8) {                                                   \
                qm_set_minsize(n, qh, vp_range(0, 300));                     \
            }                                                                \
            if (op == 9) {                                                   \
                qm_seal(n, qh);                                              \
                M_VERIFY(n, t, qh);                                          \
                qm_unseal(n, qh);                                            \
            }                                                                \
            M_VERIFY(n, t, qh);                                              \
        }                                                                    \
        qm_wipe(n, qh);                                                      \
        VP_CHECK("all the memory is given back", vp_live == live);           \
    } while (0)
#define S_RUN(n)                                                             \
    do {                                                                     \
        qh_t(n) qh_, *qh = &qh_;                                             \
        long live = vp_live;                                                 \
        memset(&qh_, 0xa5, sizeof(qh_));                                     \
        if (vp_bool()) { qh_init(n, qh); } else { qh_init_cached(n, qh); }   \
        for (int k = vp_range(1, 12); k > 0; k--) {                          \
            int op = vp_range(0, 3), i, r, c = 0, bad = 0;                   \
            int cnt = vp_bool() ? vp_range(0, 40) : vp_range(0, 1500);       \
            while (cnt-- > 0) {                                              \
                uint32_t h;                                                  \
                i = rnd_() % DOM;                                            \
                h = qh_hash(n, qh, KEY_##n(i));                              \
                if (op < 2) {                                                \
                    switch (rnd_() % 5) {                                    \
                      case 0: r = qh_add_h(n, qh, h, KEY_##n(i)); break;     \
                      case 1: r = qh_replace_h(n, qh, h, KEY_##n(i)); break; \
                      case 2: r = qh_replace(n, qh, KEY_##n(i)); break;      \
                      default: r = qh_add(n, qh, KEY_##n(i)); break;         \
                    }                                                        \
                    VP_CHECK("added when new", (r < 0) == g_in[i]);          \
                    g_n += !g_in[i]; g_in[i] = true;                         \
                } else {                                                     \
                    switch (rnd_() % 5) {                                    \
                      case 0: r = qh_del_key_h(n, qh, h, KEY_##n(i)); break; \
                      case 1: r = qh_del_key_safe(n, qh, KEY_##n(i)); break; \
                      case 2: r = qh_del_key_safe_h(n, qh, h, KEY_##n(i));   \
                              break;                                         \
                      case 3: g_wk = 0;                                      \
                              r = qh_deep_del_key(n, qh, KEY_##n(i), K_WIPE); \
                              VP_CHECK("wiped when deleted",                 \
                                       g_wk == g_in[i]); break;              \
                      default: r = qh_del_key(n, qh, KEY_##n(i)); break;     \
                    }                                                        \
                    VP_CHECK("deleted when there", (r >= 0) == g_in[i]);     \
                    g_n -= g_in[i]; g_in[i] = false;                         \
                }                                                            \
            }                                                                \
            for (i = 0; i < DOM; i++) {                                      \
                uint32_t h = qh_hash(n, qh, KEY_##n(i));                     \
                bad += (qh_find_safe(n, qh, KEY_##n(i)) >= 0) != g_in[i];    \
                bad += (qh_find_safe_h(n, qh, h, KEY_##n(i)) >= 0)           \
                    != g_in[i];                                              \
            }                                                                \
            VP_CHECK("exactly the keys added", !bad && qh_len(n, qh) == g_n); \
            qh_for_each_pos(n, p, qh) { c++; }                               \
            VP_CHECK("iteration yields each key once", c == g_n);            \
        }                                                                    \
        qh_wipe(n, qh);                                                      \
        VP_CHECK("all the memory is given back", vp_live == live);           \
    } while (0)
#endif
//@harness h_qh_maps prop=C17 kind=bounded bound="histories of up to 20000 operations over 3000 keys" bmc=no search=6 about=__qhash_put*,qhash_get*,qhash_safe_get*,qhash_move*,qhash_resize_do*,qhash_resize_start,qhash_resize_done,qhash_del_at,qhash_seal*,qhash_clear,qhash_set_minsize
VP_MAIN(h_qh_maps)
{
#ifdef VP_NATIVE
    model_reset();
    switch (vp_range(0, 5)) {
      case 0: M_RUN(t32, uint64_t); break;
      case 1: M_RUN(t64, uint8_t); break;
      case 2: M_RUN(t128, uint32_t); break;
      case 3: M_RUN(tvec, uint16_t); break;
      case 4: M_RUN(tptr, uint64_t); break;
      case 5: M_RUN(thp, uint32_t); break;
    }
#endif
}
//@harness h_qh_sets prop=C17 kind=bounded bound="histories of up to 18000 operations over 3000 keys" bmc=no search=3 about=qh_add,qh_replace,qh_del_key,qh_find_safe,qh_for_each_pos
VP_MAIN(h_qh_sets)
{
#ifdef VP_NATIVE
    model_reset();
    if (vp_bool()) {
        S_RUN(s32);
    } else {
        S_RUN(svec);
    }
#endif
}
