/* outbuf_t: what is written is what was added, in order, whatever the partial
 * writes. */
//@trusted allocator model units/vp_mem.h, libc writev/mmap
//@link src/core/str-buf.c
#define VP_WANT_STUBS
#include "vp.h"
#include "vp_track.h"
#include "vp_mem.h"
#include <lib-common/core.h>
#include "src/core/str-outbuf.c"

/* {{{ consumption: proved for a chunk between any two parts of the string
 * buffer (the loop does the same for each chunk) */

void sb_wipe_not_mempool(void *ptr, size_t size) { }
#define PN 60000
static outbuf_t g_ob;
static uint8_t g_data[4];
/* proved by C03 (h_sb_skip) */
static inline void sb_skip(sb_t *sb, int len)
CONTRACT(
    REQUIRES(len >= 0 && len <= sb->len)
    ASSIGNS(sb->len)
    ENSURES(sb->len == OLD(sb->len) - len)
);
static inline void ob_chunk_delete(outbuf_chunk_t **p)
CONTRACT(
    REQUIRES(*p != NULL)
    ASSIGNS(*p)
);
static outbuf_chunk_t g_ch[2];
static outbuf_chunk_t *chunk(int i, int maxlead)
{
#ifdef VP_PROOF
    outbuf_chunk_t *c = &g_ch[i];
#else
    outbuf_chunk_t *c = p_new(outbuf_chunk_t, 1);
#endif

    c->on_wipe = OUTBUF_DO_NOTHING;
    c->length = vp_range(1, 1 << 24);
    c->offset = vp_range(0, c->length - 1);
    c->sb_leading = vp_range(0, maxlead);
    c->u.p = g_data;
    return c;
}
//@harness h_ob_consume prop=C12 unwind=4 solver=cadical replace=sb_skip,ob_chunk_delete about=ob_consume,ob_add_chunk,htlist_pop
VP_MAIN(h_ob_consume)
{
    int n, a, la, rest, len;
    outbuf_chunk_t *ca;

    vp_mem_init();
    VP_ASSUME(__sb_slop[0] == '\0');
    ob_init(&g_ob);
    /* the string buffer part */
    n = VP_LEN(PN, 40);
#ifdef VP_PROOF
    g_ob.sb.len = n;
#else
    sb_init_full(&g_ob.sb, vp_buf(n + 1, 41), 0, n + 1, &mem_pool_libc);
    __sb_fixlen(&g_ob.sb, n);
#endif
    ca = chunk(0, n);
    la = ca->sb_leading;
    a = ca->length - ca->offset;
    g_ob.sb_trailing = la;
    g_ob.length = la;
    ob_add_chunk(&g_ob, ca);
    VP_CHECK("chunk comes after what is there", ca->sb_leading == la
             && g_ob.sb_trailing == 0 && g_ob.length == la + a);
    rest = n - la;
    g_ob.sb_trailing = rest;
    g_ob.length += rest;
    len = vp_range(0, g_ob.length);
    ob_consume(&g_ob, len);
    VP_CHECK("length after", g_ob.length == la + a + rest - len);
    if (len < la) {
        VP_CHECK("before the chunk", g_ob.chunks_list.head == &ca->chunks_link
                 && ca->sb_leading == la - len
                 && ca->length - ca->offset == a && g_ob.sb.len == n - len
                 && g_ob.sb_trailing == rest);
    } else
    if (len < la + a) {
        VP_CHECK("in the chunk", g_ob.chunks_list.head == &ca->chunks_link
                 && ca->sb_leading == 0
                 && ca->length - ca->offset == a - (len - la)
                 && g_ob.sb.len == rest && g_ob.sb_trailing == rest);
    } else {
        VP_CHECK("after the chunk", htlist_is_empty(&g_ob.chunks_list)
                 && g_ob.sb.len == g_ob.sb_trailing
                 && g_ob.sb_trailing == rest - (len - la - a));
    }
    VP_REACH();
}
/* }}} */
/* {{{ histories (drawn) */

#ifdef VP_NATIVE
static uint8_t *m_b, *o_b;
static size_t m_n, m_w;
static uint8_t g_bytes[1 << 20];
static int g_max, g_fail;
static ssize_t wr(int fd, const struct iovec *iov, int cnt, void *priv)
{
    size_t done = 0;
    size_t lim = g_max < 0 ? SIZE_MAX : (size_t)g_max;

    VP_CHECK("private argument and file", priv == &g_max && fd == 42);
    VP_CHECK("the kernel accepts the vector", cnt > 0 && cnt <= IOV_MAX);
    for (int i = 0; i < cnt; i++) {
        size_t n = MIN(iov[i].iov_len, lim - done);

        VP_CHECK("writes what was added", m_w + done + n <= m_n
                 && !memcmp(iov[i].iov_base, m_b + m_w + done, n));
        done += n;
        if (done == lim) {
            break;
        }
    }
    if (g_fail) {
        return -1;
    }
    m_w += done;
    return done;
}
static const uint8_t *src(int len)
{
    /* some bytes; the model appends them */
    const uint8_t *p = g_bytes + vp_range(0, 997);

    memcpy(m_b + m_n, p, len);
    m_n += len;
    return p;
}
#endif
//@harness h_ob_history prop=C12 kind=bounded bmc=no search=4 bound="30 operations, partial writes" about=ob_add,ob_add_memchunk,ob_add_memmap,ob_add_chunk,ob_merge,ob_merge_wipe,ob_write_with,ob_consume,ob_reserve,ob_check_invariants,ob_wipe
VP_MAIN(h_ob_history)
{
#ifdef VP_NATIVE
    outbuf_t ob, o2;
    int nops = vp_range(1, 30);
    bool many = vp_range(0, 60) == 0;

    if (!m_b) {
        m_b = malloc(64 << 20);
        for (size_t i = 0; i < sizeof(g_bytes); i++) {
            g_bytes[i] = (i * 2654435761u) >> 13;
        }
    }
    m_n = m_w = 0;
    ob_init(&ob);
    for (int op = 0; op < nops; op++) {
        int n = vp_range(0, 3) ? vp_range(0, 40) : vp_range(0, 40000);
        outbuf_t *o = &ob;
        bool merge = vp_range(0, 5) == 0;
        int m = 1;
        uint8_t *p;
        const uint8_t *c;

        if (merge) {
            o = ob_init(&o2);
            m = vp_range(0, 3);
        }
        while (m-- > 0) {
            switch (vp_range(0, 6)) {
              case 0: c = src(n); ob_add(o, c, n); break;
              case 1: c = src(n); ob_add_memchunk(o, c, n, true); break;
              case 2:
                p = malloc(n + 1);
                memcpy(p, src(n), n);
                ob_add_memchunk(o, p, n, false);
                break;
              case 3:
                if (n) {
                    p = mmap(NULL, n, PROT_READ | PROT_WRITE,
                             MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                    memcpy(p, src(n), n);
                    ob_add_memmap(o, p, n);
                }
                break;
              case 4:
                {
                    int pos = ob_reserve(o, n);

                    memcpy(o->sb.data + pos, src(n), n);
                }
                break;
              default:
                for (int i = 0; i < (many ? 1100 : 1); i++) {
                    outbuf_chunk_t *obc = p_new(outbuf_chunk_t, 1);

                    n = MIN(n, 20) + 1;
                    obc->u.p = src(n);
                    obc->length = n;
                    ob_add_chunk(o, obc);
                }
                break;
            }
        }
        ob_check_invariants(o);
        if (merge) {
            if (vp_bool()) {
                ob_merge(&ob, &o2);
                VP_CHECK("merged one is empty", ob_is_empty(&o2));
                ob_check_invariants(&o2);
                ob_wipe(&o2);
            } else {
                ob_merge_wipe(&ob, &o2);
            }
        }
        ob_check_invariants(&ob);
        VP_CHECK("length", (size_t)ob.length == m_n - m_w);
        if (vp_bool()) {
            g_max = vp_bool() ? -1 : vp_bool() ? vp_range(0, 50) : vp_range(0, 40000);
            g_fail = vp_range(0, 9) == 0;
            if (ob_write_with(&ob, 42, &wr, &g_max) < 0) {
                VP_CHECK("fails as the writer does", g_fail);
            } else {
                VP_CHECK("fails as the writer does", !g_fail || m_n == m_w);
            }
            ob_check_invariants(&ob);
            VP_CHECK("length", (size_t)ob.length == m_n - m_w);
        }
    }
    g_max = -1;
    g_fail = 0;
    for (int i = 0; ob.length && i < 5000; i++) {
        ob_write_with(&ob, 42, &wr, &g_max);
    }
    VP_CHECK("everything is written", m_w == m_n && ob_is_empty(&ob));
    ob_wipe(&ob);
#endif
}
/* }}} */
