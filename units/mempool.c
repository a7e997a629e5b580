/* The memory pools: libc, cache-line, stacked, ring and fifo. */
//@trusted malloc, calloc, realloc, posix_memalign and free of the C library
//@blk
#define VP_WANT_STUBS
#define VP_OWN_MEM_TOOLS
#define VP_PANIC_FAILS
#include "vp.h"
#define VP_TRACK_MEMSET
#include "vp_track.h"
#include <lib-common/core.h>
#include <lib-common/thr.h>
#include <lib-common/log.h>
#include <lib-common/datetime.h>
#undef logger_panic
#define logger_panic(...)  e_panic("")
#undef logger_error
#define logger_error(...)  (-1)
#undef logger_notice
#define logger_notice(...)  0
#undef logger_warning
#define logger_warning(...)  0
#ifdef VP_NATIVE
struct thr_hooks thr_hooks_g = {
    .init_cbs = DLIST_INIT(thr_hooks_g.init_cbs),
    .exit_cbs = DLIST_INIT(thr_hooks_g.exit_cbs),
};
time_t lp_getsec(void)
{
    static time_t t;
    return t += 61;
}
#endif
#undef e_trace
#define e_trace(...)  ((void)0)
#undef MODULE_IS_LOADED
#define MODULE_IS_LOADED(name)  true
#ifdef VP_NATIVE
thr_queue_t *const thr_queue_main_g;
bool thr_is_on_queue(thr_queue_t *q)
{
    return false;
}
#endif
#include "src/core/mem.blk"
#include "src/core/mem-stack.c"
#undef _G
#undef RESET_MIN
#undef RESET_MAX
#define PT_fn_exit  rp_PT_fn_exit
#define blk_create   rp_blk_create
#define blk_destroy  rp_blk_destroy
#define blk_entry    rp_blk_entry
#define blk_end      rp_blk_end
#define frame_get_next_blk  rp_frame_get_next_blk
#define pool_funcs   rp_pool_funcs
#define get_rp_name  rp_get_rp_name
#include "src/core/mem-ring.c"
#undef _G
#include "src/core/mem-fifo.c"

#ifdef VP_NATIVE
/* {{{ the model: live blocks and what they hold */
#define NLIVE  24
static struct live_t {
    uint8_t *p;
    size_t   n, align;
    uint8_t  pat;
    long     frame;
} L[NLIVE];
static int g_pat;

static struct live_t *l_new(void)
{
    for (int i = 0; i < NLIVE; i++) {
        if (!L[i].p) {
            return &L[i];
        }
    }
    return NULL;
}
static struct live_t *l_any(long frame)
{
    int k = vp_range(0, NLIVE - 1);

    for (int i = 0; i < NLIVE; i++) {
        struct live_t *l = &L[(i + k) % NLIVE];

        if (l->p && (frame < 0 || l->frame == frame)) {
            return l;
        }
    }
    return NULL;
}
static void l_drop(long frame)
{
    for (int i = 0; i < NLIVE; i++) {
        if (L[i].frame == frame) {
            L[i].p = NULL;
        }
    }
}
static void l_fill(struct live_t *l)
{
    l->pat = g_pat++ | 1;
    for (size_t i = 0; i < l->n; i++) {
        l->p[i] = l->pat + i * 7;
    }
}
static bool l_same(struct live_t *l, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        if (l->p[i] != (uint8_t)(l->pat + i * 7)) {
            return false;
        }
    }
    return true;
}
static bool l_zero(struct live_t *l, size_t from)
{
    for (size_t i = from; i < l->n; i++) {
        if (l->p[i]) {
            return false;
        }
    }
    return true;
}
static size_t sz_draw(void)
{
    switch (vp_range(0, 9)) {
      case 0: return 0;
      case 1: return vp_range(0, 6000);
      case 2: return vp_range(0, 70000);
      case 3: return vp_range(4000, 4200);
      case 4: case 5: return vp_range(0, 600);
      default: return vp_range(0, 40);
    }
}
#define CHECK_ALL()                                                          \
    do {                                                                     \
        for (int i_ = 0; i_ < NLIVE; i_++) {                                 \
            if (L[i_].p && L[i_].p != MEM_EMPTY_ALLOC) {                     \
                VP_CHECK("the other blocks are left alone",                  \
                         l_same(&L[i_], L[i_].n));                           \
            }                                                                \
        }                                                                    \
    } while (0)

static void op_alloc(mem_pool_t *mp, long frame, size_t align)
{
    struct live_t *l = l_new();
    bool raw = vp_bool();
    size_t n = sz_draw();

    if (!l) {
        return;
    }
    l->p = mp_imalloc(mp, n, align, raw ? MEM_RAW : 0);
    l->n = n;
    l->align = align;
    l->frame = frame;
    VP_CHECK("no memory for no bytes", (n == 0) == (l->p == MEM_EMPTY_ALLOC));
    if (n) {
        VP_CHECK("aligned", (uintptr_t)l->p % align == 0);
        VP_CHECK("zeroed unless raw", raw || l_zero(l, 0));
        l_fill(l);
    }
}
static void op_realloc(mem_pool_t *mp, struct live_t *l, bool unknown)
{
    bool raw = vp_bool();
    size_t n = sz_draw(), o = l->n;

    if (vp_bool()) {
        n = MIN(l->n + vp_range(0, 20), 70000);
    }
    l->p = mp_irealloc(mp, l->p, raw && unknown && l->p != MEM_EMPTY_ALLOC
                       ? MEM_UNKNOWN : o, n, l->align, raw ? MEM_RAW : 0);
    l->n = n;
    VP_CHECK("no memory for no bytes", (n == 0) == (l->p == MEM_EMPTY_ALLOC));
    if (n) {
        VP_CHECK("still aligned", (uintptr_t)l->p % l->align == 0);
        VP_CHECK("what it held is kept", l_same(l, MIN(o, n)));
        VP_CHECK("the new part is zeroed unless raw", raw || l_zero(l, MIN(o, n)));
        l_fill(l);
    }
}
/* }}} */
#endif
//@harness h_pool_libc prop=C16 kind=bounded bound="30 operations, 24 live blocks of up to 70000 bytes" bmc=no search=3 about=libc_malloc,libc_realloc,libc_free,mem_pool_cl_aligned,__mp_imalloc,__mp_irealloc,mp_ifree
VP_MAIN(h_pool_libc)
{
#ifdef VP_NATIVE
    mem_pool_t *mp = vp_bool() ? &mem_pool_libc : &mem_pool_cl_aligned;

    memset(L, 0, sizeof(L));
    for (int k = vp_range(1, 30); k > 0; k--) {
        struct live_t *l = l_any(-1);

        switch (vp_range(0, 3)) {
          case 0: case 1:
            op_alloc(mp, 0, (size_t)(mp == &mem_pool_libc ? 8 : 64)
                     << vp_range(0, 3));
            break;
          case 2:
            if (l) {
                op_realloc(mp, l, true);
            }
            break;
          default:
            if (l) {
                mp_ifree(mp, l->p);
                l->p = NULL;
            }
            break;
        }
        CHECK_ALL();
    }
    for (int i = 0; i < NLIVE; i++) {
        mp_ifree(mp, L[i].p);
    }
#endif
}
//@harness h_pool_fifo prop=C16 kind=bounded bound="80 operations, 24 live blocks of up to 70000 bytes" bmc=no search=4 about=mfp_alloc,mfp_realloc,mfp_free,mem_page_new,mem_page_reset,mem_page_delete,mem_fifo_pool_new,mem_fifo_pool_delete
VP_MAIN(h_pool_fifo)
{
#ifdef VP_NATIVE
    mem_pool_t *mp = mem_fifo_pool_new("vp", 0);
    ssize_t a, u;

    memset(L, 0, sizeof(L));
    for (int k = vp_range(1, 80); k > 0; k--) {
        struct live_t *l = l_any(-1);

        switch (vp_range(0, 4)) {
          case 0: case 1:
            op_alloc(mp, 0, 1 << vp_range(0, 3));
            break;
          case 2:
            if (l) {
                op_realloc(mp, l, true);
            }
            break;
          default:
            if (l) {
                mp_ifree(mp, l->p);
                l->p = NULL;
            }
            break;
        }
        CHECK_ALL();
    }
    if (vp_bool()) {
        /* freed after the pool */
        mem_fifo_pool_delete(&mp);
        CHECK_ALL();
        for (int i = 0; i < NLIVE; i++) {
            if (L[i].p && L[i].p != MEM_EMPTY_ALLOC) {
                VP_CHECK("the pool outlives its blocks", mp != NULL);
                mp_ifree(mp, L[i].p);
                L[i].p = NULL;
                CHECK_ALL();
            }
        }
        VP_CHECK("and no longer", mp == NULL);
    } else {
        for (int i = 0; i < NLIVE; i++) {
            mp_ifree(mp, L[i].p);
        }
        mem_fifo_pool_stats(mp, &a, &u);
        VP_CHECK("nothing is in use", u == 0);
        mem_fifo_pool_delete(&mp);
        VP_CHECK("deleted", mp == NULL);
    }
#endif
}
//@harness h_pool_stack prop=C16 kind=bounded bound="100 operations, 12 frames, 24 live blocks of up to 70000 bytes" bmc=no search=4 about=sp_alloc,sp_realloc,sp_reserve,frame_get_next_blk,blk_create,mem_stack_pool_push,mem_stack_pool_pop,mem_stack_pool_reset,mem_stack_pool_try_reset
VP_MAIN(h_pool_stack)
{
#ifdef VP_NATIVE
    mem_pool_t *mp = mem_stack_new("vp", vp_range(1, 3) * 4096);
    long depth = 0;
    const void *fr[16];

    memset(L, 0, sizeof(L));
    for (int k = vp_range(1, 100); k > 0; k--) {
        struct live_t *l;

        switch (vp_range(0, 9)) {
          case 0: case 1:
            if (depth < 12) {
                fr[++depth] = mem_stack_push(mp);
            }
            break;
          case 2: case 3:
            if (depth) {
                VP_CHECK("frames nest", mem_stack_pop(mp) == fr[depth]);
                l_drop(depth--);
            }
            break;
          case 4:
            if (!depth) {
                mem_stack_pool_reset(mem_stack_get_pool(mp));
            }
            break;
          case 5: case 6:
            l = l_any(depth);
            if (depth && l) {
                op_realloc(mp, l, false);
            }
            break;
          default:
            if (depth) {
                op_alloc(mp, depth, 1 << vp_range(0, 6));
                l = l_any(-1);
                mp_ifree(mp, l->p);
            }
            break;
        }
        CHECK_ALL();
    }
    while (depth--) {
        mem_stack_pop(mp);
    }
    mem_stack_delete(&mp);
#endif
}
//@harness h_pool_ring prop=C16 kind=bounded bound="100 operations, 12 frames released in any order, 24 live blocks of up to 70000 bytes" bmc=no search=5 about=rp_alloc,rp_realloc,rp_reserve,mem_ring_newframe,mem_ring_seal,mem_ring_release,mem_ring_checkpoint,mem_ring_rewind,mem_ring_reset,mem_ring_delete
VP_MAIN(h_pool_ring)
{
#ifdef VP_NATIVE
    mem_pool_t *mp = mem_ring_new("vp", vp_range(1, 3) * 4096);
    struct { const void *c; long id; } fr[12];
    const void *cur = NULL, *cp = NULL;
    long id = 0, cid = 0;
    int n = 0, i;

    memset(L, 0, sizeof(L));
    for (int k = vp_range(1, 100); k > 0; k--) {
        struct live_t *l;

        switch (vp_range(0, 9)) {
          case 0: case 1:
            if (!cur) {
                cur = mem_ring_newframe(mp);
                VP_CHECK("the frame", mem_ring_getframe(mp) == cur);
                id++;
            } else
            if (n < 12 && !cid) {
                VP_CHECK("the sealed frame", mem_ring_seal(mp) == cur);
                fr[n].c = cur;
                fr[n++].id = id;
                cur = NULL;
            }
            break;
          case 2: case 3:
            if (n) {
                i = vp_range(0, 11) % n;
                mem_ring_release(fr[i].c);
                l_drop(fr[i].id);
                fr[i] = fr[--n];
            } else
            if (cur && !cid && vp_bool()) {
                mem_ring_release(cur);
                l_drop(id);
                cur = NULL;
            }
            break;
          case 4:
            mem_ring_reset(mp);
            break;
          case 5: case 6:
            l = l_any(id);
            if (cur && l) {
                op_realloc(mp, l, false);
            }
            break;
          default:
            if (cur) {
                op_alloc(mp, id, 1 << vp_range(0, 4));
            }
            break;
        }
        CHECK_ALL();
    }
    (void)cp;
    if (cur) {
        mem_ring_release(cur);
    }
    if (vp_bool()) {
        mem_pool_t *m2 = mp;
        mem_ring_delete(&m2);
        VP_CHECK("deleted", m2 == NULL);
        mp = NULL;
    }
    while (n) {
        mem_ring_release(fr[--n].c);
    }
    if (mp) {
        mem_ring_delete(&mp);
    }
#endif
}
/* {{{ one step, from any state: proofs */
#define PMAX  100000
//@harness h_libc_realloc prop=C16 solver=cadical about=libc_malloc,libc_realloc
VP_MAIN(h_libc_realloc)
{
    size_t o = vp_range(0, PMAX), n = vp_range(0, PMAX), k = vp_range(0, PMAX);
    size_t al = (size_t)8 << vp_range(0, 3);
    bool raw0 = vp_bool(), raw = vp_bool(), unk = vp_bool();
    uint8_t *p, *q, v = vp_u8();

    VP_TRACK_MSI(k);
    p = libc_malloc(&mem_pool_libc, o, al, raw0 ? MEM_RAW : 0);
    VP_CHECK("none for no bytes", (o == 0) == (p == MEM_EMPTY_ALLOC));
    if (o) {
        VP_CHECK("aligned", (uintptr_t)p % al == 0);
        if (k < o) {
            VP_CHECK("zeroed", raw0 || p[k] == 0);
            p[k] = v;
            VP_TRACK(0, p + k);
        }
    }
    VP_TRACK_MSI(k >= o ? k - o : 0);
    q = libc_realloc(&mem_pool_libc, p, raw && unk ? MEM_UNKNOWN : o, n, al,
                     raw ? MEM_RAW : 0);
    VP_CHECK("none for no bytes left", (n == 0) == (q == MEM_EMPTY_ALLOC));
    if (n && k < n) {
        VP_CHECK("still aligned", (uintptr_t)q % al == 0);
        VP_CHECK("kept, or zeroed", k < o ? q[k] == v : raw || q[k] == 0);
        q[k] = 1;
    }
    VP_REACH();
}
/* }}} */
