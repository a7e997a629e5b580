/* Trusted model of the allocator entry points (src/core/mem.blk), used by the
 * units of the containers and buffers: pools hand out fresh, exactly sized
 * objects; realloc keeps min(oldsize, size) bytes and zeroes the rest unless
 * MEM_RAW; allocations above MEM_ALLOC_MAX panic.  The real entry points are
 * under contract in unit mem.c. */
#ifndef VP_MEM_H
#define VP_MEM_H
#include <lib-common/core.h>

mem_pool_t mem_pool_libc = {
    .mem_pool = MEM_LIBC | MEM_EFFICIENT_REALLOC,
    .min_alignment = sizeof(void *)
};
mem_pool_t mem_pool_static = {
    .mem_pool = MEM_STATIC | MEM_BY_FRAME,
    .min_alignment = 1,
    .realloc_fallback = &mem_pool_libc
};

/* goto-instrument --dfcc leaves the statics undetermined */
static inline void vp_mem_init(void)
{
    mem_pool_libc.mem_pool = MEM_LIBC | MEM_EFFICIENT_REALLOC;
    mem_pool_libc.realloc_fallback = NULL;
    mem_pool_static.mem_pool = MEM_STATIC | MEM_BY_FRAME;
    mem_pool_static.realloc_fallback = &mem_pool_libc;
}

mem_pool_t *ipool(mem_flags_t flags)
{
#if defined(VP_TSTACK) && defined(VP_NATIVE)
    if ((flags & MEM_POOL_MASK) == MEM_STACK) {
        return &t_pool_g.funcs;
    }
#endif
    VP_ASSUME((flags & MEM_POOL_MASK) != MEM_STACK);
    return (flags & MEM_POOL_MASK) == MEM_STATIC ? &mem_pool_static
        : &mem_pool_libc;
}
#ifdef VP_NATIVE
# include <malloc.h>
# define vp_usable(p)  malloc_usable_size(p)
#endif
#if defined(VP_TSTACK) && defined(VP_NATIVE)
/* the thread's stacked pool: freed when its frame is popped */
__thread mem_stack_pool_t t_pool_g = {
    .funcs = { .mem_pool = MEM_STACK | MEM_BY_FRAME, .min_alignment = 8 },
};
static void **vp_t_tab;
static int vp_t_len, vp_t_size, vp_t_frames[64], vp_t_depth;
static void vp_t_track(void *p)
{
    if (vp_t_len == vp_t_size) {
        vp_t_size = vp_t_size * 2 + 64;
        vp_t_tab = (realloc)(vp_t_tab, vp_t_size * sizeof(void *));
    }
    vp_t_tab[vp_t_len++] = p;
}
const void *mem_stack_pool_push(mem_stack_pool_t *sp)
{
    vp_t_frames[vp_t_depth] = vp_t_len;
    return &vp_t_frames[vp_t_depth++];
}
static void vp_t_popto(int depth)
{
    vp_t_depth = depth;
    while (vp_t_len > vp_t_frames[depth]) {
        (free)(vp_t_tab[--vp_t_len]);
    }
}
const void *mem_stack_pool_pop_libc(mem_stack_pool_t *sp)
{
    vp_t_popto(vp_t_depth - 1);
    return &vp_t_frames[vp_t_depth];
}
/* at the start of a harness */
static inline void vp_t_reset(void)
{
    vp_t_frames[0] = 0;
    vp_t_popto(0);
    mem_stack_pool_push(&t_pool_g);
}
bool mem_pool_is_enabled(void)
{
    return false;
}
void mem_stack_pool_protect(mem_stack_pool_t *sp, const mem_stack_frame_t *f)
{
}
void mem_stack_pool_try_reset(mem_stack_pool_t *sp)
{
}
# define VP_IS_T(mp_)  ((mp_) == &t_pool_g.funcs)
#else
# define VP_IS_T(mp_)  false
# define vp_t_track(p_)  ((void)(p_))
# define vp_t_reset()  ((void)0)
#endif
/* VP_MEM_WORDS: blocks of whole 64-bit words, for the code that scans aligned
 * words up to the last one (bithacks.c) */
#ifdef VP_MEM_WORDS
# define VP_MEM_SIZE(n_)  ROUND_UP(n_, 8)
#else
# define VP_MEM_SIZE(n_)  (n_)
#endif
#ifdef VP_NATIVE
/* blocks handed out and not freed, stacked ones excluded */
static long vp_live;
# define VP_LIVE(n_)  (vp_live += (n_))
#else
# define VP_LIVE(n_)  ((void)0)
#endif
static void *vp_mem_new(size_t size, mem_flags_t flags)
{
    byte *p;

    VP_ASSUME(size <= MEM_ALLOC_MAX);
    if (size == 0) {
        return MEM_EMPTY_ALLOC;
    }
    p = malloc(VP_MEM_SIZE(size));
    VP_ASSUME(p != NULL);
    if (!(flags & MEM_RAW)) {
        memset(p, 0, size);
    }
    return p;
}

void *__mp_imalloc(mem_pool_t *mp, size_t size, size_t alignment,
                   mem_flags_t flags)
{
    void *p = vp_mem_new(size, flags);

    if (p != MEM_EMPTY_ALLOC) {
        if (VP_IS_T(mp)) {
            vp_t_track(p);
        } else {
            VP_LIVE(1);
        }
    }
    return p;
}

void *__mp_irealloc(mem_pool_t *mp, void *mem, size_t oldsize, size_t size,
                    size_t alignment, mem_flags_t flags)
{
    byte *p;
    size_t cp;

    if (!mem || mem == MEM_EMPTY_ALLOC) {
        return __mp_imalloc(mp, size, alignment, flags);
    }
    VP_ASSUME(size <= MEM_ALLOC_MAX);
    if (size == 0) {
        mp_ifree(mp, mem);
        return MEM_EMPTY_ALLOC;
    }
    p = malloc(VP_MEM_SIZE(size));
    VP_ASSUME(p != NULL);
#ifdef VP_CBMC
    cp = oldsize == MEM_UNKNOWN ? __CPROVER_OBJECT_SIZE(mem) : oldsize;
#else
    cp = oldsize == MEM_UNKNOWN ? vp_usable(mem) : oldsize;
#endif
# ifdef VP_MEM_CLAMP
#  ifdef VP_CBMC
    cp = MIN(cp, __CPROVER_OBJECT_SIZE(mem));
#  else
    cp = MIN(cp, vp_usable(mem));
#  endif
# endif
    memcpy(p, mem, cp < size ? cp : size);
    if (!(flags & MEM_RAW) && oldsize < size) {
        memset(p + oldsize, 0, size - oldsize);
    }
    if (VP_IS_T(mp)) {
        vp_t_track(p);
    } else {
        VP_LIVE(1);
    }
    mp_ifree(mp, mem);
    return p;
}

void *__mp_irealloc_fallback(mem_pool_t **pmp, void *mem, size_t oldsize,
                             size_t size, size_t alignment,
                             mem_flags_t flags)
{
    VP_CHECK("realloc is told the old size", oldsize != MEM_UNKNOWN);
    if ((*pmp ?: &mem_pool_libc)->realloc_fallback) {
        byte *p;

        /* the static pool panics when asked to shrink */
        VP_ASSUME(size > oldsize);
        p = vp_mem_new(size, flags);
        if (oldsize) {
            memcpy(p, mem, oldsize);
        }
        *pmp = &mem_pool_libc;
        VP_LIVE(1);
        return p;
    }
    return __mp_irealloc(*pmp, mem, oldsize, size, alignment, flags);
}

void mp_ifree(mem_pool_t *mp, void *mem)
{
    if (mem && mem != MEM_EMPTY_ALLOC && !VP_IS_T(mp)
    &&  ((mp ?: &mem_pool_libc)->mem_pool & MEM_POOL_MASK) != MEM_STATIC)
    {
        VP_LIVE(-1);
        free(mem);
    }
}
#endif
