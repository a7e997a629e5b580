/* IOP binary format. */
//@blk
//@flags -I/verif/units/iop
//@link src/core/str-buf.c src/core/str.c src/core/str-l.c src/core/str-conv.c src/core/str-iprintf.c src/core/str-ctype.c src/core/str-num.c src/core/str-stream.c src/core/bithacks.c src/crypto/hash.c src/container/qhash.c src/core/str-dtoa.c
#define VP_WANT_STUBS
#define VP_PANIC_FAILS
#define VP_TSTACK
#include "vp.h"
#include "vp_mem.h"
#include <lib-common/core.h>
#include <lib-common/thr.h>
#include <lib-common/iop.h>
#include "src/container/qvector.blk"
#include "src/iop/iop.blk"
int e_is_traced_(int level, const char *fname, const char *func,
                 const char *name)
{
    return -1;
}
/* one thread */
struct thr_hooks thr_hooks_g = {
    .init_cbs = DLIST_INIT(thr_hooks_g.init_cbs),
    .exit_cbs = DLIST_INIT(thr_hooks_g.exit_cbs),
};
#ifdef VP_NATIVE
size_t thr_parallelism_g = 1;
bool module_is_loaded(const module_t *module)
{
    return false;
}
module_t *thr_get_module(void)
{
    return NULL;
}
#endif

/* {{{ words on the wire: proofs */

static inline unsigned w_tag_len(unsigned tag)
{
    return (tag >= 30) + (tag >= 256);
}
/* the bytes of a tag */
static inline bool w_is_tag(const uint8_t *b, unsigned tag, unsigned wt)
{
    return tag < 30 ? b[0] == (wt << 5 | tag)
        : tag < 256 ? b[0] == (wt << 5 | 30) && b[1] == tag
        : b[0] == (wt << 5 | 31) && b[1] == (tag & 255) && b[2] == tag >> 8;
}
static inline uint64_t w_le(const uint8_t *b, int n)
{
    uint64_t v = 0;

    for (int i = 0; i < 8; i++) {
        if (i < n) {
            v |= (uint64_t)b[i] << (8 * i);
        }
    }
    return v;
}
static inline int64_t w_sle(const uint8_t *b, int n)
{
    uint64_t v = w_le(b, n);

    return n == 1 ? (int8_t)v : n == 2 ? (int16_t)v : n == 4 ? (int32_t)v : (int64_t)v;
}
#define W_BLK1  0
#define W_INT1  4
#define W_QUAD  3
#define w_nint(v_)  ((v_) == (int8_t)(v_) ? 1 : (v_) == (int16_t)(v_) ? 2    \
                     : (v_) == (int32_t)(v_) ? 4 : 8)
#define w_wint(n_)  ((n_) == 1 ? 4 : (n_) == 2 ? 5 : (n_) == 4 ? 6 : 3)
#define w_nlen(u_)  ((u_) < 256 ? 1 : (u_) < 65536 ? 2 : 4)
#define w_wlen(n_)  ((n_) == 1 ? 0 : (n_) == 2 ? 1 : 2)

//@harness h_iop_sizes prop=C22 checks=noshift solver=cadical about=get_len_len,get_vint32_len,get_vint64_len,iop_get_len_bpack_size
VP_MAIN(h_iop_sizes)
{
    uint32_t u = vp_u32();
    int32_t i = vp_u32();
    int64_t l = vp_u64();

    VP_CHECK("length of a length", get_len_len(u) == w_nlen(u));
    VP_CHECK("length of an int", get_vint32_len(i) == w_nint(i));
    VP_CHECK("length of a long", get_vint64_len(l) == w_nint(l));
    VP_REACH();
}
//@harness h_iop_pack prop=C22 checks=noshift unwind=9 solver=cadical about=pack_tag,pack_len,pack_int32,pack_int64
VP_MAIN(h_iop_pack)
{
    uint8_t b[12], *e;
    unsigned tag = vp_range(0, 65535), tl = w_tag_len(tag), n;
    int64_t i = vp_u64();
    uint32_t u = vp_u32();

    n = w_nint(i);
    e = pack_int64(b, tag, tl, i);
    VP_CHECK("long: tag, then the shortest little-endian form",
             e == b + 1 + tl + n && w_is_tag(b, tag, w_wint(n))
             && w_sle(b + 1 + tl, n) == i);
    n = w_nint((int32_t)u);
    e = pack_int32(b, tag, tl, u);
    VP_CHECK("int: tag, then the shortest little-endian form",
             e == b + 1 + tl + n && w_is_tag(b, tag, w_wint(n))
             && w_sle(b + 1 + tl, n) == (int32_t)u);
    n = w_nlen(u);
    e = pack_len(b, tag, tl, u);
    VP_CHECK("block: tag, then the shortest little-endian length",
             e == b + 1 + tl + n && w_is_tag(b, tag, w_wlen(n))
             && w_le(b + 1 + tl, n) == u);
    n = vp_range(0, 7);
    e = pack_tag(b, tag, tl, n << 5);
    VP_CHECK("tag", e == b + 1 + tl && w_is_tag(b, tag, n));
    VP_REACH();
}
#ifdef VP_CBMC
/* not reached by integers */
static int unpack_struct(mem_pool_t *mp, const iop_struct_t *desc, void *value,
                         pstream_t *ps, unsigned flags,
                         iop_wire_type_t *class_id_wt)
CONTRACT(REQUIRES(false) ASSIGNS());
static int unpack_class(mem_pool_t *mp, const iop_struct_t *desc,
                        void **value, pstream_t *ps, unsigned flags)
CONTRACT(REQUIRES(false) ASSIGNS());
static int unpack_union(mem_pool_t *mp, const iop_struct_t *desc, void *value,
                        pstream_t *ps, unsigned flags)
CONTRACT(REQUIRES(false) ASSIGNS());
#endif
static inline bool w_fits(iop_type_t t, int64_t v)
{
    switch (t) {
      case IOP_T_I8: return v == (int8_t)v;
      case IOP_T_U8: return v == (uint8_t)v;
      case IOP_T_I16: return v == (int16_t)v;
      case IOP_T_U16: return v == (uint16_t)v;
      case IOP_T_I32: case IOP_T_ENUM: return v == (int32_t)v;
      case IOP_T_U32: return v == (uint32_t)v;
      case IOP_T_BOOL: return v == 0 || v == 1;
      default: return true;
    }
}
#include "iop/size.h"
//@harness h_iop_unpack_int prop=C22 unwind=12 solver=cadical replace=unpack_struct,unpack_class,unpack_union about=unpack_value,__get_tag_wt,iop_patch_int,get_uint32
VP_MAIN(h_iop_unpack_int)
{
    /* a tag and an integer of any form, for a field of any integer type */
    unsigned tag0 = vp_range(0, 65535), tl = w_tag_len(tag0), k = vp_range(0, 3);
    unsigned n = 1 << k, have = vp_range(1, 11), o = vp_range(0, 7), i;
    static const iop_type_t types[] = {
        IOP_T_I8, IOP_T_U8, IOP_T_I16, IOP_T_U16, IOP_T_I32, IOP_T_U32,
        IOP_T_I64, IOP_T_U64, IOP_T_BOOL, IOP_T_ENUM, IOP_T_VOID,
    };
    iop_type_t t = types[vp_range(0, 10)], wt;
    iop_field_t f;
    uint8_t *b = malloc(have), full[11], v[8], v0;
    pstream_t ps;
    uint32_t tag = 0;
    int64_t val = vp_u64();
    int r;

    VP_ASSUME(b != NULL);
    memset(&f, 0, sizeof(f));
    f.type = t;
    f.repeat = IOP_R_REQUIRED;
    pack_tag(full, tag0, tl, w_wint(n) << 5);
    for (i = 0; i < 8; i++) {
        if (i < n) {
            full[1 + tl + i] = (uint64_t)val >> (8 * i);
        }
        v[i] = vp_u8();
    }
    for (i = 0; i < 11; i++) {
        if (i < have) {
            b[i] = i < 1 + tl + n ? full[i] : vp_u8();
        }
    }
    v0 = v[o];
    val = n == 1 ? (int8_t)val : n == 2 ? (int16_t)val : n == 4 ? (int32_t)val : val;
    ps = ps_init(b, have);
    r = __get_tag_wt(&ps, &tag, &wt);
    VP_CHECK("the tag fails when it is cut", (r < 0) == (have < 1 + tl));
    if (r < 0) {
        return;
    }
    VP_CHECK("the tag", tag == tag0 && wt == w_wint(n) && ps.b == b + 1 + tl);
    r = unpack_value(NULL, wt, &f, v, &ps, 0);
    VP_CHECK("fails when it is cut or when it does not fit",
             (r < 0) == (have < 1 + tl + n || !w_fits(t, val)));
    if (r >= 0) {
        VP_CHECK("read whole", ps.b == b + 1 + tl + n);
        VP_CHECK("the value", o >= w_size(t)
                 || v[o] == (uint8_t)((uint64_t)val >> (8 * o)));
    }
    VP_CHECK("nothing else is written", o < w_size(t) || v[o] == v0);
    VP_REACH();
}
#ifdef VP_CBMC
# define W_MAX  (1u << 20)
#else
# define W_MAX  60
#endif
//@harness h_iop_field_len prop=C22 unwind=9 solver=cadical about=iop_get_field_len
VP_MAIN(h_iop_field_len)
{
    size_t n = vp_range(0, W_MAX);
    uint8_t *b = malloc(n);
    unsigned tl, wt, ll;
    ssize_t r;

    VP_ASSUME(b != NULL);
#ifdef VP_NATIVE
    for (size_t i = 0; i < n; i++) {
        b[i] = vp_u8();
    }
#endif
    r = iop_get_field_len(ps_init(b, n));
    if (n == 0) {
        VP_CHECK("nothing yet", r == 0);
        return;
    }
    wt = b[0] >> 5;
    tl = 1 + ((b[0] & 31) == 30) + 2 * ((b[0] & 31) == 31);
    if (wt == 7) {
        VP_CHECK("not for arrays", r == -1);
    } else if (wt >= 3) {
        VP_CHECK("an integer", r == tl + (wt == 3 ? 8 : 1 << (wt - 4)));
    } else {
        ll = 1 << wt;
        if (n < tl + ll) {
            VP_CHECK("not known yet", r == 0);
        } else {
            VP_CHECK("a block", r == tl + ll + (ssize_t)w_le(b + tl, ll)
                     || (uint32_t)r == (uint32_t)(tl + ll + w_le(b + tl, ll)));
        }
    }
    VP_REACH();
}
#ifdef VP_CBMC
static int iop_skip_field(pstream_t *ps, iop_wire_type_t wt)
CONTRACT(
    REQUIRES(__CPROVER_rw_ok(ps, sizeof(*ps)))
    REQUIRES(__CPROVER_same_object(ps->b, ps->b_end))
    REQUIRES(__CPROVER_POINTER_OFFSET(ps->b) <= __CPROVER_POINTER_OFFSET(ps->b_end))
    REQUIRES(__CPROVER_POINTER_OFFSET(ps->b_end) <= __CPROVER_OBJECT_SIZE(ps->b))
    REQUIRES(__CPROVER_r_ok(ps->b, __CPROVER_POINTER_OFFSET(ps->b_end) - __CPROVER_POINTER_OFFSET(ps->b)))
    REQUIRES(wt <= 7)
    ASSIGNS(ps->b)
    ENSURES(RET == 0 || RET == -1)
    ENSURES(__CPROVER_same_object(ps->b, ps->b_end))
    ENSURES(__CPROVER_POINTER_OFFSET(ps->b) >= __CPROVER_POINTER_OFFSET(__CPROVER_old(ps->b)))
    ENSURES(__CPROVER_POINTER_OFFSET(ps->b) <= __CPROVER_POINTER_OFFSET(ps->b_end))
    ENSURES(RET < 0 || wt < 3 || wt == 7
            || __CPROVER_POINTER_OFFSET(ps->b) == __CPROVER_POINTER_OFFSET(__CPROVER_old(ps->b))
               + (wt == 3 ? 8 : 1 << (wt - 4)))
);
#endif
//@loop iop_skip_field 0
//  __CPROVER_assigns(n, wt, ps->b)
//  __CPROVER_loop_invariant(__CPROVER_same_object(ps->b, ps->b_end))
//  __CPROVER_loop_invariant(__CPROVER_POINTER_OFFSET(ps->b) >= __CPROVER_POINTER_OFFSET(__CPROVER_loop_entry(ps->b)))
//  __CPROVER_loop_invariant(__CPROVER_POINTER_OFFSET(ps->b) <= __CPROVER_POINTER_OFFSET(ps->b_end))
//  __CPROVER_decreases(n)
//@end
//@harness h_iop_skip prop=C22 enforce=iop_skip_field rec=yes loops=yes solver=cadical about=iop_skip_field
VP_MAIN(h_iop_skip)
{
    size_t n = vp_range(0, W_MAX);
    uint8_t *b = malloc(n);
    pstream_t ps;

    VP_ASSUME(b != NULL);
#ifdef VP_NATIVE
    for (size_t i = 0; i < n; i++) {
        b[i] = vp_u8();
    }
#endif
    ps = ps_init(b, n);
    iop_skip_field(&ps, vp_range(0, 7));
    VP_REACH();
}
//@harness h_iop_ranges prop=C22 kind=bounded bmc_unwind=8 bound="at most 3 ranges" solver=cadical about=iop_ranges_search
VP_MAIN(h_iop_ranges)
{
    /* at most 3 ranges, of any values */
    int rg[7], n = vp_range(0, 3), tag = vp_u32(), k = vp_range(0, 2), r;
    bool in;

    for (int i = 0; i < 7; i++) {
        rg[i] = vp_u32();
    }
    VP_ASSUME(rg[0] == 0);
    for (int i = 0; i < 3; i++) {
        if (i < n) {
            VP_ASSUME(rg[2 * i] < rg[2 * i + 2] && rg[2 * i + 2] <= 65535);
            VP_ASSUME((int64_t)rg[2 * i + 1] + rg[2 * i + 2] - rg[2 * i] - 1 <= INT32_MAX);
            if (i + 1 < n) {
                VP_ASSUME((int64_t)rg[2 * i + 1] + rg[2 * i + 2] - rg[2 * i] < rg[2 * i + 3]);
            }
        }
    }
    r = iop_ranges_search(rg, n, tag);
    in = k < n && tag >= rg[2 * k + 1]
        && (int64_t)tag < (int64_t)rg[2 * k + 1] + rg[2 * k + 2] - rg[2 * k];
    VP_CHECK("a value of the ranges is found", !in || r == rg[2 * k] + (tag - rg[2 * k + 1]));
    if (r != -1) {
        VP_CHECK("a position", n > 0 && r >= 0 && r < rg[2 * n]);
        if (k < n && rg[2 * k] <= r && r < rg[2 * k + 2]) {
            VP_CHECK("the position of this value", in);
        }
    }
    VP_REACH();
}
/* }}} */
/* {{{ whole values */

#ifdef VP_NATIVE
#include "iop/gen.h"
/* the wire format */
static void w_put(sb_t *out, unsigned tag, int wt, uint64_t v, int n)
{
    if (tag < 30) {
        sb_addc(out, wt << 5 | tag);
    } else if (tag < 256) {
        sb_addc(out, wt << 5 | 30);
        sb_addc(out, tag);
    } else {
        sb_addc(out, wt << 5 | 31);
        sb_addc(out, tag & 255);
        sb_addc(out, tag >> 8);
    }
    for (int i = 0; i < n; i++) {
        sb_addc(out, v >> (8 * i));
    }
}
static void w_int(sb_t *out, unsigned tag, int64_t v)
{
    w_put(out, tag, w_wint(w_nint(v)), v, w_nint(v));
}
static void w_blk(sb_t *out, unsigned tag, const void *p, uint32_t n)
{
    w_put(out, tag, w_wlen(w_nlen(n)), n, w_nlen(n));
    sb_add(out, p, n);
}
static void w_struct(sb_t *out, const iop_struct_t *st, const void *v, unsigned fl);
static void w_class(sb_t *out, const void *v, unsigned fl)
{
    const iop_struct_t *st = *(const iop_struct_t **)v;
    bool first = true;

    do {
        SB_1k(sub);

        w_struct(&sub, st, v, fl);
        if (first || sub.len) {
            w_int(out, 0, st->class_attrs->class_id);
            sb_addsb(out, &sub);
        }
        first = false;
    } while ((st = st->class_attrs->parent));
}
static void w_val(sb_t *out, unsigned tag, const iop_field_t *f, const void *p,
                  unsigned fl)
{
    switch (f->type) {
      case IOP_T_I8: w_int(out, tag, *(int8_t *)p); break;
      case IOP_T_U8: w_int(out, tag, *(uint8_t *)p); break;
      case IOP_T_I16: w_int(out, tag, *(int16_t *)p); break;
      case IOP_T_U16: w_int(out, tag, *(uint16_t *)p); break;
      case IOP_T_I32: case IOP_T_ENUM: w_int(out, tag, *(int32_t *)p); break;
      case IOP_T_U32: w_int(out, tag, *(uint32_t *)p); break;
      case IOP_T_I64: case IOP_T_U64: w_int(out, tag, *(int64_t *)p); break;
      case IOP_T_BOOL: w_int(out, tag, *(bool *)p); break;
      case IOP_T_DOUBLE: w_put(out, tag, 3, *(uint64_t *)p, 8); break;
      case IOP_T_VOID: w_blk(out, tag, NULL, 0); break;
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML: {
        const lstr_t *s = p;

        w_put(out, tag, w_wlen(w_nlen(s->len + 1)), s->len + 1, w_nlen(s->len + 1));
        sb_add(out, s->s, s->len);
        sb_addc(out, 0);
      } break;
      default: {
        SB_1k(sub);

        if (iop_field_is_class(f)) {
            w_class(&sub, *(void **)p, fl);
        } else {
            w_struct(&sub, f->u1.st_desc, p, fl);
        }
        w_blk(out, tag, sub.data, sub.len);
      }
    }
}
static bool is_dflt(const iop_field_t *f, const void *p)
{
    switch (f->type) {
      case IOP_T_I8: case IOP_T_U8: case IOP_T_BOOL:
        return *(uint8_t *)p == (uint8_t)f->u1.defval_u64;
      case IOP_T_I32: return *(uint32_t *)p == (uint32_t)f->u1.defval_u64;
      case IOP_T_ENUM: return *(int *)p == f->u0.defval_enum;
      case IOP_T_STRING:
        return ((lstr_t *)p)->len == f->u0.defval_len
            && !memcmp(((lstr_t *)p)->s, f->u1.defval_data, f->u0.defval_len);
      default: return *(uint64_t *)p == f->u1.defval_u64;
    }
}
static void w_field(sb_t *out, const iop_struct_t *st, const iop_field_t *f,
                    const char *p, unsigned fl)
{
    bool isst = f->type == IOP_T_STRUCT || f->type == IOP_T_UNION;

    p += f->data_offs;
    switch (f->repeat) {
      case IOP_R_REPEATED: {
        const lstr_t *x = (void *)p;

        if (x->len == 1) {
            w_val(out, f->tag, f, x->s, fl);
        } else if (x->len > 1) {
            if (f->type <= IOP_T_U16 || f->type == IOP_T_BOOL) {
                w_blk(out, f->tag, x->s, x->len * f->size);
            } else {
                w_put(out, f->tag, 7, x->len, 4);
                for (int i = 0; i < x->len; i++) {
                    w_val(out, 0, f, x->s + i * f->size, fl);
                }
            }
        }
      } break;
      case IOP_R_OPTIONAL:
        if (is_set(f, p)) {
            w_val(out, f->tag, f,
                  isst && !iop_field_is_class(f) ? *(void **)p : p, fl);
        }
        break;
      case IOP_R_DEFVAL:
        if (!(fl & IOP_BPACK_SKIP_DEFVAL) || !is_dflt(f, p)) {
            w_val(out, f->tag, f, p, fl);
        }
        break;
      default:
        if (f->type == IOP_T_VOID && !st->is_union) {
            break;
        }
        w_val(out, f->tag, f, iop_field_is_reference(f) ? *(void **)p : p, fl);
    }
}
static void w_struct(sb_t *out, const iop_struct_t *st, const void *v, unsigned fl)
{
    for (int i = 0; i < st->fields_len; i++) {
        if (!st->is_union || st->fields[i].tag == iop_union_get_tag(st, v)) {
            w_field(out, st, &st->fields[i], v, fl);
        }
    }
}
#endif
//@harness h_iop_round prop=C22 kind=bounded bound="values of 5 types with every kind of field" bmc=no search=8 about=iop_bpack_size_flags,iop_bpack,iop_bunpack_flags,iop_bunpack_ptr_flags,unpack_struct,unpack_class,unpack_union,pack_struct,pack_class,pack_union,pack_value_vec,mp_iop_dup_desc_flags_sz,iop_equals_desc,iop_cmp_desc
VP_MAIN(h_iop_round)
{
#ifdef VP_NATIVE
    const iop_struct_t *st;
    void *v, *w = NULL, *d;
    unsigned fl, ufl;
    qv_t(i32) szs;
    int len, r;
    char *buf, *b2;
    SB_8k(ref);

    g_init();
    v = g_value(&st);
    fl = rng(2) * IOP_BPACK_SKIP_DEFVAL | rng(2) * IOP_BPACK_STRICT
       | rng(2) * IOP_BPACK_MONOTHREAD;
    qv_init(&szs);
    len = iop_bpack_size_flags(st, v, fl, &szs);
    VP_CHECK("a size", len >= 0);
    buf = (malloc)(len + !len);
    iop_bpack(buf, st, v, szs.tab);
    qv_wipe(&szs);
    if (iop_struct_is_class(st)) {
        w_class(&ref, v, fl);
    } else {
        w_struct(&ref, st, v, fl);
    }
    VP_CHECK("the size of the encoding", len == ref.len);
    VP_CHECK("the encoding", !len || !memcmp(buf, ref.data, len));

    ufl = rng(2) * IOP_UNPACK_COPY_STRINGS | rng(2) * IOP_UNPACK_FORBID_PRIVATE;
    b2 = (malloc)(len + !len);
    memcpy(b2, buf, len);
    if (!iop_struct_is_class(st) && rng(2)) {
        w = arr(st->size + !st->size);
        memset(w, 0xa5, st->size);
        r = iop_bunpack_flags(t_pool(), st, w, ps_init(b2, len), ufl);
    } else {
        r = iop_bunpack_ptr_flags(t_pool(), st, &w, ps_init(b2, len), ufl);
    }
    VP_CHECK("decoded", r == 0);
    VP_CHECK("the input is kept", !len || !memcmp(b2, buf, len));
    if (ufl & IOP_UNPACK_COPY_STRINGS) {
        memset(b2, 0xee, len);
    }
    VP_CHECK("decodes to the same value", g_eq(st, v, w));
    VP_CHECK("equal", iop_equals_desc(st, v, w) && iop_cmp_desc(st, v, w) == 0);

    d = mp_iop_dup_desc_flags_sz(t_pool(), st, v,
                                 rng(2) ? IOP_COPY_MULTIPLE_ALLOC : 0, NULL);
    VP_CHECK("the copy is the same value", g_eq(st, v, d));
    d = mp_iop_dup_desc_flags_sz(NULL, st, v, 0, NULL);
    VP_CHECK("the copy is the same value", g_eq(st, v, d));
    if (!iop_struct_is_class(st)) {
        /* another value */
        void *o = arr(st->size + !st->size);

        memcpy(o, v, st->size);
        if (st->fields_len) {
            const iop_field_t *f = &st->fields[rng(st->fields_len)];

            if (st->is_union) {
                iop_union_set_tag(st, f->tag, o);
            }
            rnd_field(f, o, 2);
        }
        VP_CHECK("equality", iop_equals_desc(st, v, o) == eq_struct(st, v, o)
                 && iop_equals_desc(st, d, o) == eq_struct(st, v, o));
        r = iop_cmp_desc(st, v, o);
        VP_CHECK("an order", (r == 0) == eq_struct(st, v, o)
                 && SIGN(r) == -SIGN(iop_cmp_desc(st, o, v)));
    }
    p_delete(&d);
    (free)(b2);
    (free)(buf);
    sb_wipe(&ref);
#endif
    VP_REACH();
}
//@harness h_iop_compat prop=C22 kind=bounded bound="values of one type with every kind of field" bmc=no search=5 about=unpack_struct,iop_skip_field,iop_skip_absent_field_desc
VP_MAIN(h_iop_compat)
{
#ifdef VP_NATIVE
    /* the same structure with some fields missing */
    static iop_field_t fields[100];
    iop_struct_t sub = vt__t__s;
    const iop_struct_t *st = &vt__t__s;
    int n = 0, r;
    bool gone[100];
    vt__t__t *v, *w;
    lstr_t s;
    char *b;

    g_init();
    for (int i = 0; i < st->fields_len; i++) {
        gone[i] = rng(3) == 0;
        if (!gone[i]) {
            fields[n++] = st->fields[i];
        }
    }
    memcpy(&sub.fields, (const iop_field_t *[]){ fields }, sizeof(void *));
    sub.fields_len = n;
    v = arr(sizeof(*v));
    w = arr(sizeof(*w));
    memset(v, 0x5a, sizeof(*v));
    memset(w, 0xa5, sizeof(*w));
    rnd_struct(st, v, 0);
    /* fields that the reader does not know are skipped */
    s = t_iop_bpack_struct_flags(st, v, rng(2));
    b = (malloc)(s.len + !s.len);
    memcpy(b, s.s, s.len);
    r = iop_bunpack_flags(t_pool(), &sub, w, ps_init(b, s.len), 0);
    VP_CHECK("unknown fields are skipped", r == 0 && eq_struct(&sub, v, w));
    (free)(b);
    /* fields that the writer does not know are absent */
    n = 0;
    for (int i = 0; i < st->fields_len; i++) {
        if (!gone[i] || (st->fields[i].repeat == IOP_R_REQUIRED
                         && st->fields[i].type != IOP_T_VOID)) {
            fields[n++] = st->fields[i];
            gone[i] = false;
        }
    }
    sub.fields_len = n;
    s = t_iop_bpack_struct_flags(&sub, v, rng(2));
    b = (malloc)(s.len + !s.len);
    memcpy(b, s.s, s.len);
    memset(w, 0xa5, sizeof(*w));
    r = iop_bunpack_flags(t_pool(), st, w, ps_init(b, s.len), 0);
    VP_CHECK("fields not there", r == 0 && eq_struct(&sub, v, w));
    for (int i = 0; i < st->fields_len; i++) {
        const iop_field_t *f = &st->fields[i];
        char *p = (char *)w + f->data_offs;

        if (gone[i]) {
            VP_CHECK("absent, empty or by default",
                f->repeat == IOP_R_OPTIONAL ? !is_set(f, p)
                : f->repeat == IOP_R_REPEATED ? ((lstr_t *)p)->len == 0
                : f->repeat == IOP_R_DEFVAL ? is_dflt(f, p) : true);
        }
    }
    (free)(b);
    /* a required field that is not there is an error */
    n = 0;
    r = rng(15);
    for (int i = 0; i < st->fields_len; i++) {
        if (i != r) {
            fields[n++] = st->fields[i];
        }
    }
    sub.fields_len = n;
    s = t_iop_bpack_struct_flags(&sub, v, 0);
    VP_CHECK("a required field is missing",
             iop_bunpack_flags(t_pool(), st, w, ps_initlstr(&s), 0) < 0);
#endif
    VP_REACH();
}
//@harness h_iop_bad prop=C22 kind=bounded bound="corrupted encodings of 5 types" bmc=no search=8 about=iop_bunpack_flags,iop_bunpack_ptr_flags,iop_bunpack_multi_flags,iop_bskip
VP_MAIN(h_iop_bad)
{
#ifdef VP_NATIVE
    const iop_struct_t *st;
    void *v, *w = NULL;
    lstr_t s;
    uint8_t *b;
    int n, r;

    g_init();
    v = g_value(&st);
    s = t_iop_bpack_struct_flags(st, v, rng(2));
    n = s.len;
    b = (malloc)(n + 40);
    memcpy(b, s.s, n);
    for (int k = rng(4); k > 0 && n; k--) {
        int p = rng(n);

        switch (rng(6)) {
          case 0: b[p] = rng(256); break;
          case 1: b[p] ^= 1 << rng(8); break;
          case 2: b[p] = rng(2) ? 0 : 255; break;
          case 3: /* a byte more */
            if (n < s.len + 40) {
                memmove(b + p + 1, b + p, n - p);
                n++;
                b[p] = rng(256);
            }
            break;
          case 4: memmove(b + p, b + p + 1, n - p - 1); n--; break;
          default:
            if (p + 4 <= n) {
                uint32_t u = rng(2) ? 0x20000001u << rng(4) : rnd_int();

                memcpy(b + p, &u, 4);
            }
        }
    }
    if (rng(4) == 0) {
        n = rng(n + 1);
    }
    {
        uint8_t *b2 = (malloc)(n + !n);

        memcpy(b2, b, n);
        (free)(b);
        b = b2;
    }
    r = iop_bunpack_ptr_flags(t_pool(), st, &w, ps_init(b, n),
                              rng(2) * IOP_UNPACK_COPY_STRINGS);
    VP_CHECK("an answer", r == 0 || r == -1);
    if (r == 0) {
        if (iop_struct_is_class(st)) {
            for (st = *(const iop_struct_t **)w; st; st = st->class_attrs->parent) {
                use_struct(st, w);
            }
        } else {
            use_struct(st, w);
        }
    }
    if (st == &vt__u__s) {
        pstream_t ps = ps_init(b, n), ps2 = ps;
        vt__u__t u;

        r = iop_bunpack_multi_flags(t_pool(), st, &u, &ps, 0);
        VP_CHECK("in the input, kept when it fails",
                 ps.b_end == b + n && ps.b >= b && ps.b <= ps.b_end
                 && (r >= 0 || ps.b == b));
        if (r == 0) {
            /* (unpacking puts up with blocks in void fields, skipping
             * does not) */
            int sk = iop_bskip(st, &ps2);

            VP_CHECK("skips what it reads", sk == 0 ? ps.b == ps2.b
                     : get_union_field(st, &u)->type == IOP_T_VOID);
        }
    }
    (free)(b);
#endif
    VP_REACH();
}
/* }}} */
