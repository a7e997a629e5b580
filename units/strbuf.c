/* sb_t against the byte-sequence model: contents are data[0..len), a NUL
 * follows, data - skip is the start of a block of size + skip bytes. */
//@trusted libc memcpy/memmove/memset/strlen have their C semantics (cbmc's models)
//@trusted allocator model units/vp_mem.h (its entry points are under contract in unit mem)
#define VP_WANT_STUBS
#include "vp.h"
#define VP_TRACK_MEMSET
#include "vp_track.h"
#include "vp_mem.h"
#include <lib-common/core.h>
#include "src/core/str-buf.c"

#ifndef PN
# define PN  70000
#endif
#define BN  40

static sb_t g_sb;
static int g_len;               /* length before */
static int g_k;                 /* any position */
static uint8_t g_old;           /* its byte before */

static bool sb_inv(const sb_t *sb)
{
    if (sb->data == __sb_slop) {
        return sb->len == 0 && sb->size == 1 && sb->skip == 0;
    }
    return sb->len >= 0 && sb->skip >= 0 && sb->len < sb->size
        && sb->data[sb->len] == '\0'
#ifdef VP_CBMC
        && __CPROVER_POINTER_OFFSET(sb->data) == sb->skip
        && __CPROVER_OBJECT_SIZE(sb->data) == (size_t)sb->size + sb->skip
#endif
        ;
}

/* any reachable shape: empty slop, libc block, caller-provided block; skip.
 * The proofs take one shape each (SHAPE 0, 1, 2). */
#if defined(VP_PROOF) && defined(SHAPE)
# define ISSLOP   (SHAPE == 0)
# define ISLIBC   (SHAPE == 1)
#else
# undef SHAPE
# define ISSLOP   vp_bool()
# define ISLIBC   vp_bool()
#endif
#if defined(VP_PROOF) && defined(HOW_)
# define HOW(n)   HOW_
#else
# define HOW(n)   vp_range(0, (n) - 1)
#endif
static void mk_sb(void)
{
    int blk, skip;
    char *d;

    if (ISSLOP) {
        sb_init(&g_sb);
        g_len = 0;
        g_k = 0;
        return;
    }
    blk = 1 + VP_LEN(PN, BN);
    skip = vp_range(0, blk - 1);
    g_len = vp_range(0, blk - 1 - skip);
    d = (char *)vp_buf(blk, BN + 1);
    g_sb.data = d + skip;
    g_sb.skip = skip;
    g_sb.size = blk - skip;
    g_sb.len = g_len;
    g_sb.data[g_len] = '\0';
    g_sb.mp = ISLIBC ? &mem_pool_libc : &mem_pool_static;
    g_k = vp_range(0, g_len ? g_len - 1 : 0);
    g_old = g_sb.data[g_k];
    VP_TRACK(0, g_sb.data + g_k);
}
#define KEPT(at)  (g_k >= g_len || (uint8_t)g_sb.data[at] == g_old)

/* bytes to add */
static uint8_t *g_src;
static int g_n, g_j;
static void mk_src(void)
{
    g_n = VP_LEN(PN, BN);
    g_src = vp_buf(g_n + 1, BN + 1);
    g_j = vp_range(0, g_n ? g_n - 1 : 0);
    VP_TRACK(1, g_src + g_j);
}
#define ADDED(at)  (g_j >= g_n || (uint8_t)g_sb.data[(at) + g_j] == g_src[g_j])

//@harness h_sb_add prop=C03 about=sb_add,sb_growlen,__sb_grow,sb_destroy_skip
VP_MAIN(h_sb_add)
{
    mk_sb();
    mk_src();
    sb_add(&g_sb, g_src, g_n);
    VP_CHECK("well formed, terminated", sb_inv(&g_sb));
    VP_CHECK("length", g_sb.len == g_len + g_n);
    VP_CHECK("keeps the contents", KEPT(g_k));
    VP_CHECK("appends the bytes", ADDED(g_len));
    VP_REACH();
}
//@harness h_sb_addsb prop=C03 defs=HOW_=0 about=sb_addsb
//@harness h_sb_add_lstr prop=C03 defs=HOW_=1 about=sb_add_lstr
static void add_lstr(void)
{
    sb_t sb2;

    mk_sb();
    mk_src();
    if (HOW(2)) {
        sb_add_lstr(&g_sb, LSTR_DATA_V(g_src, g_n));
    } else {
        g_src[g_n] = 0;
        sb_init_full(&sb2, g_src, g_n, g_n + 1, &mem_pool_static);
        sb_addsb(&g_sb, &sb2);
        VP_CHECK("source untouched", sb2.len == g_n && sb2.data == (char *)g_src);
    }
    VP_CHECK("well formed, terminated", sb_inv(&g_sb));
    VP_CHECK("length", g_sb.len == g_len + g_n);
    VP_CHECK("keeps the contents", KEPT(g_k));
    VP_CHECK("appends the bytes", ADDED(g_len));
    VP_REACH();
}
VP_MAIN(h_sb_addsb)
{
    add_lstr();
}
VP_MAIN(h_sb_add_lstr)
{
    add_lstr();
}
//@harness h_sb_addc prop=C03 defs=HOW_=0 about=sb_addc
//@harness h_sb_add0s prop=C03 defs=HOW_=1 about=sb_add0s
//@harness h_sb_addnc prop=C03 defs=HOW_=2 about=sb_addnc
#define ADDNC(name) \
VP_MAIN(name)                                                                \
{                                                                            \
    uint8_t c = vp_u8();                                                     \
    int how = HOW(3), n, j;                                                  \
                                                                             \
    mk_sb();                                                                 \
    n = VP_LEN(PN, BN);                                                      \
    if (how == 0) {                                                          \
        n = 1;                                                               \
    }                                                                        \
    j = vp_range(0, n ? n - 1 : 0);                                          \
    VP_TRACK_MSI(j);                                                         \
    if (how == 1) {                                                          \
        c = 0;                                                               \
        sb_add0s(&g_sb, n);                                                  \
    } else                                                                   \
    if (how == 2) {                                                          \
        sb_addnc(&g_sb, n, c);                                               \
    } else {                                                                 \
        sb_addc(&g_sb, c);                                                   \
    }                                                                        \
    VP_CHECK("well formed, terminated", sb_inv(&g_sb));                      \
    VP_CHECK("length", g_sb.len == g_len + n);                               \
    VP_CHECK("keeps the contents", KEPT(g_k));                               \
    VP_CHECK("appends the bytes", !n || (uint8_t)g_sb.data[g_len + j] == c); \
    VP_REACH();                                                              \
}
ADDNC(h_sb_addc)
ADDNC(h_sb_add0s)
ADDNC(h_sb_addnc)
//@harness h_sb_grow prop=C03 about=sb_grow,sb_optimize,__sb_optimize,__sb_grow
VP_MAIN(h_sb_grow)
{
    int extra = VP_LEN(PN, BN);
    char *r;

    mk_sb();
    VP_TRACK(1, g_sb.data + g_len);
    r = sb_grow(&g_sb, extra);
    VP_CHECK("well formed, terminated", sb_inv(&g_sb));
    VP_CHECK("same length", g_sb.len == g_len);
    VP_CHECK("room for extra bytes", g_sb.len + extra < g_sb.size);
    VP_CHECK("the end", r == g_sb.data + g_len);
    VP_CHECK("keeps the contents", KEPT(g_k));
    VP_REACH();
}
//@harness h_sb_skip prop=C03 about=sb_skip,sb_skip_upto,sb_reset,__sb_reset
VP_MAIN(h_sb_skip)
{
    int n;

    mk_sb();
    n = vp_range(0, g_len);
    if (vp_bool()) {
        sb_skip(&g_sb, n);
    } else {
        sb_skip_upto(&g_sb, g_sb.data + n);
    }
    VP_CHECK("well formed, terminated", sb_inv(&g_sb));
    VP_CHECK("length", g_sb.len == g_len - n);
    VP_CHECK("keeps the other bytes", g_k < n || KEPT(g_k - n));
    VP_REACH();
}
//@harness h_sb_clip prop=C03 about=sb_clip,sb_shrink,sb_shrink_upto
VP_MAIN(h_sb_clip)
{
    int n, how = vp_range(0, 2);

    mk_sb();
    n = vp_range(0, g_len);
    if (how == 0) {
        sb_clip(&g_sb, n);
    } else
    if (how == 1) {
        sb_shrink(&g_sb, g_len - n);
    } else {
        sb_shrink_upto(&g_sb, g_sb.data + n);
    }
    VP_CHECK("well formed, terminated", sb_inv(&g_sb));
    VP_CHECK("length", g_sb.len == n);
    VP_CHECK("keeps the other bytes", g_k >= n || KEPT(g_k));
    VP_REACH();
}
//@harness h_sb_reset prop=C03 about=sb_reset,sb_wipe,sb_reset_keep_mem,__sb_reset
VP_MAIN(h_sb_reset)
{
    int how = vp_range(0, 2);

    mk_sb();
    if (how == 0) {
        sb_reset(&g_sb);
    } else
    if (how == 1) {
        sb_wipe(&g_sb);
    } else {
        sb_reset_keep_mem(&g_sb);
    }
    VP_CHECK("well formed, terminated", sb_inv(&g_sb));
    VP_CHECK("empty", g_sb.len == 0 && g_sb.skip == 0);
    sb_addc(&g_sb, 'x');
    VP_CHECK("usable again", sb_inv(&g_sb) && g_sb.len == 1
             && g_sb.data[0] == 'x');
    VP_REACH();
}
/* with blocks under 8192 bytes nothing is shrunk, and the first two cases do
 * not grow: shown by the precondition `false` at the calls */
void __sb_optimize(sb_t *sb, size_t len) CONTRACT(REQUIRES(false) ASSIGNS());
#ifdef NOGROW
void __sb_grow(sb_t *sb, int extra) CONTRACT(REQUIRES(false) ASSIGNS());
#endif
//@harness h_sb_splice_shrink prop=C03 solver=cadical timeout=300 defs=SHAPE=1,PN=8000,NOGROW replace=__sb_optimize,__sb_grow about=__sb_splice,sb_splice
//@harness h_sb_splice_skip prop=C03 solver=cadical defs=SHAPE=1,PN=8000,NOGROW replace=__sb_optimize,__sb_grow about=__sb_splice,sb_splice
//@harness h_sb_splice_grow prop=C03 tier=thorough timeout=900 defs=SHAPE=1,PN=8000 replace=__sb_optimize about=__sb_splice,sb_splice
#define SPLICE(name, cond) \
VP_MAIN(name)                                                                \
{                                                                            \
    int pos, rm, n;                                                          \
    char *r;                                                                 \
                                                                             \
    mk_sb();                                                                 \
    n = VP_LEN(PN, BN);                                                      \
    pos = vp_range(0, g_len);                                                \
    rm = vp_range(0, g_len - pos);                                           \
    VP_ASSUME(cond);                                                         \
    r = __sb_splice(&g_sb, pos, rm, n);                                      \
    VP_CHECK("well formed, terminated", sb_inv(&g_sb));                      \
    VP_CHECK("length", g_sb.len == g_len - rm + n);                          \
    VP_CHECK("returns the place", r == g_sb.data + pos);                     \
    VP_CHECK("keeps the head", g_k >= pos || KEPT(g_k));                     \
    VP_CHECK("keeps the tail", g_k < pos + rm || KEPT(g_k - rm + n));        \
    VP_REACH();                                                              \
}
SPLICE(h_sb_splice_shrink, n <= rm)
SPLICE(h_sb_splice_skip, n > rm && n - rm <= g_sb.skip)
SPLICE(h_sb_splice_grow, n > rm && n - rm > g_sb.skip)

//@harness h_sb_prepend prop=C03 kind=bounded bound="40 bytes" bmc=no search=3 about=sb_prepends,sb_prepend_lstr,sb_prependc,sb_splicenc,sb_splice0s,sb_splice_lstr,sb_adds,sb_sets
VP_MAIN(h_sb_prepend)
{
    int how = vp_range(0, 6), i, pos, rm;

    mk_sb();
    mk_src();
    for (i = 0; i < g_n; i++) {
        g_src[i] |= 1;
    }
    g_src[g_n] = 0;
    pos = vp_range(0, g_len);
    rm = vp_range(0, g_len - pos);
    switch (how) {
      case 0:
        pos = rm = 0;
        sb_prepends(&g_sb, (char *)g_src);
        break;
      case 1:
        pos = rm = 0;
        sb_prepend_lstr(&g_sb, LSTR_DATA_V(g_src, g_n));
        break;
      case 2:
        pos = rm = 0;
        if (g_n > 1) g_n = 1;
        g_j = 0;
        if (g_n) sb_prependc(&g_sb, g_src[0]);
        break;
      case 3:
        memset(g_src, g_src[0], g_n);
        sb_splicenc(&g_sb, pos, rm, g_n, g_src[0]);
        break;
      case 4:
        memset(g_src, 0, g_n);
        sb_splice0s(&g_sb, pos, rm, g_n);
        break;
      case 5:
        sb_splice_lstr(&g_sb, pos, rm, LSTR_DATA_V(g_src, g_n));
        break;
      default:
        pos = g_len; rm = 0;
        sb_adds(&g_sb, (char *)g_src);
        break;
    }
    VP_CHECK("well formed, terminated", sb_inv(&g_sb));
    VP_CHECK("length", g_sb.len == g_len - rm + g_n);
    VP_CHECK("keeps the head", g_k >= pos || KEPT(g_k));
    VP_CHECK("keeps the tail", g_k < pos + rm || KEPT(g_k - rm + g_n));
    VP_CHECK("inserts the bytes", ADDED(pos));
}
//@harness h_sb_detach prop=C03 about=sb_detach
VP_MAIN(h_sb_detach)
{
    int len = -1;
    char *s;

    mk_sb();
    VP_TRACK(1, g_sb.data + g_len);
    s = sb_detach(&g_sb, &len);
    VP_CHECK("length", len == g_len);
    VP_CHECK("the contents", g_k >= g_len || (uint8_t)s[g_k] == g_old);
    VP_CHECK("terminated", s[g_len] == '\0');
    VP_CHECK("the buffer is empty", sb_inv(&g_sb) && g_sb.len == 0);
    sb_addc(&g_sb, 'x');
    VP_CHECK("the buffer no longer shares the memory", g_sb.data != s
             && (g_k >= g_len || (uint8_t)s[g_k] == g_old));
    VP_REACH();
}
//@harness h_sb_rewind prop=C03 about=__sb_rewind_adds
VP_MAIN(h_sb_rewind)
{
    sb_t orig;
    int r;

    mk_sb();
    mk_src();
    orig = g_sb;
    sb_add(&g_sb, g_src, g_n);
    r = __sb_rewind_adds(&g_sb, &orig);
    VP_CHECK("returns -1", r == -1);
    VP_CHECK("as before the additions", sb_inv(&g_sb) && g_sb.len == g_len
             && KEPT(g_k));
    VP_REACH();
}
/* trims: the class of characters is arbitrary */
//@harness h_sb_trim prop=C03 kind=bounded bound="40 bytes" bmc=no search=3 about=sb_ltrim_ctype,sb_rtrim_ctype,sb_trim_ctype
VP_MAIN(h_sb_trim)
{
    ctype_desc_t d;
    int i, a, z, how = vp_range(0, 2);
    char copy[BN + 2];

    memset(&d, 0, sizeof(d));
    for (i = 0; i < 8; i++) {
        d.tab[i] = vp_u64();
    }
    mk_sb();
    memcpy(copy, g_sb.data, g_len);
    a = 0; z = g_len;
    if (how != 1) {
        while (a < z && ctype_desc_contains(&d, copy[a])) a++;
    }
    if (how != 0) {
        while (a < z && ctype_desc_contains(&d, copy[z - 1])) z--;
    }
    if (how == 0) sb_ltrim_ctype(&g_sb, &d);
    if (how == 1) sb_rtrim_ctype(&g_sb, &d);
    if (how == 2) sb_trim_ctype(&g_sb, &d);
    VP_CHECK("well formed, terminated", sb_inv(&g_sb));
    VP_CHECK("what remains", g_sb.len == z - a
             && !memcmp(g_sb.data, copy + a, z - a));
}
/* any history of operations on one buffer agrees with an array */
//@harness h_sb_history prop=C03 kind=bounded bound="16 operations, 600 bytes each" bmc=no search=6 about=sb_t
VP_MAIN(h_sb_history)
{
    static uint8_t m[40000];
    static uint8_t src[1024];
    int mlen = 0, ops = vp_range(0, 16);
    sb_t sb;
    char stackbuf[64];

    if (vp_bool()) {
        sb_init(&sb);
    } else {
        sb_init_full(&sb, stackbuf, 0, 64, &mem_pool_static);
    }
    for (int i = 0; i < ops; i++) {
        int n = vp_range(0, vp_bool() ? 600 : 12), pos, rm, j;
        uint8_t c = vp_u8();

        for (j = 0; j < n; j++) {
            src[j] = c + j * 7;
        }
        switch (vp_range(0, 6)) {
          case 0:
          case 1:
            sb_add(&sb, src, n);
            memcpy(m + mlen, src, n);
            mlen += n;
            break;
          case 2:
            pos = vp_range(0, mlen);
            sb_skip(&sb, pos);
            memmove(m, m + pos, mlen - pos);
            mlen -= pos;
            break;
          case 3:
            pos = vp_range(0, mlen);
            sb_clip(&sb, pos);
            mlen = pos;
            break;
          case 4:
            pos = vp_range(0, mlen);
            rm = vp_range(0, mlen - pos);
            sb_splice(&sb, pos, rm, src, n);
            memmove(m + pos + n, m + pos + rm, mlen - pos - rm);
            memcpy(m + pos, src, n);
            mlen += n - rm;
            break;
          case 5:
            sb_grow(&sb, n * 20);
            break;
          default:
            sb_addnc(&sb, n, c);
            memset(m + mlen, c, n);
            mlen += n;
            break;
        }
        VP_CHECK("history", sb_inv(&sb) && sb.len == mlen
                 && !memcmp(sb.data, m, mlen));
    }
    sb_wipe(&sb);
}
