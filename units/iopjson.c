/* IOP values in JSON. */
//@blk
//@trusted __qvector_splice at the end of a vector, in the proofs (its contract is proved by the qvector unit)
//@flags -I/verif/units/iop
//@link src/core/str-path.c src/iop/void.c  src/core/core.iop.c src/core/str-buf-quoting.c src/core/str-buf.c src/core/str.c src/core/str-l.c src/core/str-conv.c src/core/str-iprintf.c src/core/str-ctype.c src/core/str-num.c src/core/str-stream.c src/core/bithacks.c src/crypto/hash.c src/container/qhash.c src/core/str-dtoa.c
#define VP_WANT_STUBS
#define VP_PANIC_FAILS
#define VP_TSTACK
#include "vp.h"
#include "vp_mem.h"
#include <lib-common/core.h>
#include <lib-common/thr.h>
#include <lib-common/iop.h>
#include <lib-common/parsing-helpers.h>
#ifdef VP_NATIVE
#include "src/container/qvector.blk"
#else
/* the end of a vector is removed, or one element is added where there is
 * room (the contract C05 proves) */
void *__qvector_splice(qvector_t *vec, size_t v_size, size_t v_align, int pos,
                       int rm_len, int inserted_len)
{
    VP_CHECK("used at the end of the stack", pos + rm_len == vec->len
             && vec->len - rm_len + inserted_len <= vec->size);
    vec->len += inserted_len - rm_len;
    return (char *)vec->tab + pos * v_size;
}
#endif
#include "src/core/parsing-helpers.c"
#ifdef VP_CBMC
#include "src/core/str-conv.c"
#endif
#define e_error(...)  (-1)
#include "src/iop/cfolder.c"
#undef e_error
#ifdef VP_NATIVE
#include "src/iop/iop.blk"
#undef PS_WANT
#define unpack_union j_unpack_union
#define unpack_struct j_unpack_struct
#define unpack_class j_unpack_class
#define unpack_value j_unpack_value
#define unpack_val j_unpack_val
#define PT_fn_exit PT_fn_exit2
#include "src/iop/json.blk"
/* one thread */
struct thr_hooks thr_hooks_g = {
    .init_cbs = DLIST_INIT(thr_hooks_g.init_cbs),
    .exit_cbs = DLIST_INIT(thr_hooks_g.exit_cbs),
};
size_t thr_parallelism_g = 1;
bool module_is_loaded(const module_t *module)
{
    return false;
}
module_t *thr_get_module(void)
{
    return NULL;
}
int e_is_traced_(int level, const char *fname, const char *func,
                 const char *name)
{
    return -1;
}
char *mp_fmt(mem_pool_t *mp, int *lenp, const char *fmt, ...)
{
    char b[512];
    va_list va;
    int n;

    va_start(va, fmt);
    n = ivsnprintf(b, sizeof(b), fmt, va);
    va_end(va);
    if (lenp) {
        *lenp = n;
    }
    return mp_dupz(mp, b, MIN(n, 511));
}
int e_error(const char *fmt, ...)
{
    return -1;
}
int e_warning(const char *fmt, ...)
{
    return -1;
}
#include "iop/size.h"
#include "iop/gen.h"
/* RFC 8259 */
static const char *js_ws(const char *p)
{
    while (*p == ' ' || *p == '\n' || *p == '\r' || *p == '\t') {
        p++;
    }
    return p;
}
static bool js_unsafe;          /* an integer over 2^53 was seen */
static const char *js_str(const char *p)
{
    if (*p++ != '"') {
        return NULL;
    }
    for (; *p != '"'; p++) {
        if ((uint8_t)*p < 32) {
            return NULL;
        }
        if (*p == '\\') {
            p++;
            if (*p == 'u') {
                int v = 0;

                for (int i = 0; i < 4; i++) {
                    if (!isxdigit((uint8_t)*++p)) {
                        return NULL;
                    }
                    v = v * 16 + (*p <= '9' ? *p - '0' : (*p | 32) - 'a' + 10);
                }
                if (v >= 0xdc00 && v < 0xe000) {
                    return NULL;
                }
                if (v >= 0xd800 && v < 0xdc00) {
                    if (p[1] != '\\' || p[2] != 'u' || (p[3] | 32) != 'd'
                        || !strchr("cdef", p[4] | 32)
                        || !isxdigit((uint8_t)p[5])
                        || !isxdigit((uint8_t)p[6]))
                    {
                        return NULL;
                    }
                    p += 6;
                }
            } else
            if (!*p || !strchr("\"\\/bfnrt", *p)) {
                return NULL;
            }
        }
    }
    return p + 1;
}
static const char *js_val(const char *p)
{
    p = js_ws(p);
    if (*p == '"') {
        return js_str(p);
    }
    if (*p == '{' || *p == '[') {
        char end = *p == '{' ? '}' : ']';

        p = js_ws(p + 1);
        if (*p == end) {
            return p + 1;
        }
        for (;;) {
            if (end == '}') {
                p = js_str(js_ws(p));
                if (!p || *(p = js_ws(p)) != ':') {
                    return NULL;
                }
                p++;
            }
            if (!(p = js_val(p))) {
                return NULL;
            }
            p = js_ws(p);
            if (*p == end) {
                return p + 1;
            }
            if (*p++ != ',') {
                return NULL;
            }
        }
    }
    if (!strncmp(p, "true", 4) || !strncmp(p, "null", 4)) {
        return p + 4;
    }
    if (!strncmp(p, "false", 5)) {
        return p + 5;
    }
    {
        const char *q = p;
        double v;

        if (*p == '-') {
            p++;
        }
        if (*p == '0') {
            p++;
        } else
        if (*p >= '1' && *p <= '9') {
            while (isdigit((uint8_t)*p)) {
                p++;
            }
        } else {
            return NULL;
        }
        v = strtod(q, NULL);
        if (*p != '.' && *p != 'e' && *p != 'E') {
            js_unsafe |= v > 9007199254740992. || v < -9007199254740992.;
            return p;
        }
        if (*p == '.') {
            if (!isdigit((uint8_t)*++p)) {
                return NULL;
            }
            while (isdigit((uint8_t)*p)) {
                p++;
            }
        }
        if (*p == 'e' || *p == 'E') {
            p++;
            if (*p == '+' || *p == '-') {
                p++;
            }
            if (!isdigit((uint8_t)*p)) {
                return NULL;
            }
            while (isdigit((uint8_t)*p)) {
                p++;
            }
        }
        return p;
    }
}
#endif
//@harness h_json_round prop=C23 kind=bounded bound="values of 5 types with every kind of field" bmc=no search=8 about=iop_jpack,iop_junpack_ptr
VP_MAIN(h_json_round)
{
#ifdef VP_NATIVE
    const iop_struct_t *st;
    void *v, *w = NULL;
    unsigned fl;
    pstream_t ps;
    int r;
    SB_1k(sb);
    SB_1k(err);

    g_init();
    g_text = true;
    v = g_value(&st);
    fl = rng(2) * IOP_JPACK_NO_WHITESPACES
       | rng(2) * IOP_JPACK_NO_TRAILING_EOL
       | rng(2) * IOP_JPACK_UNSAFE_INTEGERS
       | rng(2) * IOP_JPACK_SKIP_DEFAULT
       | rng(2) * IOP_JPACK_SKIP_EMPTY_ARRAYS
       | rng(2) * IOP_JPACK_SKIP_EMPTY_STRUCTS
       | rng(2) * IOP_JPACK_SKIP_OPTIONAL_CLASS_NAMES;
    r = iop_sb_jpack(&sb, st, v, fl);
    VP_CHECK("packs", r >= 0 && r == sb.len);
    {
        const char *e;

        js_unsafe = false;
        e = js_val(sb.data);
        VP_CHECK("is JSON", e && js_ws(e) == sb.data + sb.len);
    }
    {
        char *b = (malloc)(sb.len + !sb.len);

        memcpy(b, sb.data, sb.len);
        ps = ps_init(b, sb.len);
        r = t_iop_junpack_ptr_ps(&ps, st, &w, 0, &err);
        (free)(b);
    }
    VP_CHECK("unpacks", r == 0);
    if (r == 0) {
        VP_CHECK("the same value", g_eq(st, v, w));
    }
#endif
    VP_REACH();
}

//@harness h_json_bad prop=C23 kind=bounded bound="corrupted texts of values of 5 types" bmc=no search=8 about=iop_junpack_ptr,iop_json_lex
VP_MAIN(h_json_bad)
{
#ifdef VP_NATIVE
    static const char *const words[] = {
        "{", "}", "[", "]", ":", ",", "\"", "'", "\\", "/*", "*/", "//", "#",
        "null", "true", "false", "\n", "\\u", "\\ud800", "\\x4", "0x", "-",
        "1e999", "18446744073709551616", "99999999999999999999999", "1.",
        ".5", "@", "@include(\"/nonexistent/x\")", "_class", "K", "1M", "3d", "\0", "\xff",
        "(", ")", "1 << 70", "1 / 0", "-9223372036854775808 / -1", "% 0", "**",
        "2 ** 64", "~", "\"_class\":\"vt.Last\"", "=", ";", "\"v\":", ".i",
    };
    const iop_struct_t *st;
    void *v, *w = NULL;
    pstream_t ps;
    int r;
    uint8_t *b;
    iop_json_lex_t jll;
    SB_1k(sb);
    SB_1k(err);

    g_init();
    g_text = true;
    v = g_value(&st);
    iop_sb_jpack(&sb, st, v, rng(2) * IOP_JPACK_NO_WHITESPACES);
    for (int k = rng(4); k > 0 && sb.len; k--) {
        int p = rng(sb.len), cut = rng(6);

        cut = MIN(cut, sb.len - p);
        switch (rng(4)) {
          case 0:
            sb.data[p] = rng(256);
            break;
          case 1:
            sb_splice(&sb, p, cut, NULL, 0);
            break;
          case 2: {
            const char *wd = words[rng(countof(words))];

            sb_splice(&sb, p, rng(2) ? 0 : cut, wd,
                      MAX(1, strlen(wd)));
          } break;
          default:
            if (rng(2)) {
                sb_clip(&sb, rng(4) ? sb.len : rng(sb.len));
            }
        }
    }
    b = (malloc)(sb.len + !sb.len);
    memcpy(b, sb.data, sb.len);
    ps = ps_init(b, sb.len);
    iop_jlex_init(t_pool(), &jll);
    iop_jlex_attach(&jll, &ps);
    iop_jlex_set_flags(&jll, rng(2) * IOP_UNPACK_IGNORE_UNKNOWN);
    r = iop_junpack_ptr(&jll, st, &w, true);
    VP_CHECK("an answer", r <= 0);
    if (r == 0) {
        if (iop_struct_is_class(st)) {
            for (st = *(const iop_struct_t **)w; st; st = st->class_attrs->parent) {
                use_struct(st, w);
            }
        } else {
            use_struct(st, w);
        }
    } else {
        iop_jlex_write_error(&jll, &err);
    }
    VP_CHECK("in the input", ps.b >= b && ps.b <= ps.b_end
             && ps.b_end <= b + sb.len);
    iop_jlex_wipe(&jll);
    (free)(b);
#endif
    VP_REACH();
}

#ifdef VP_CBMC
/* one of \\a \\b \\e \\t \\n \\v \\f \\r: one byte (checked by C13) */
void sb_add_unquoted(sb_t *sb, const void *data, int len)
{
    VP_CHECK("a whole escape", len == 2);
    sb->data[sb->len++] = vp_u8();
}
#endif
static uint8_t j_b[14], j_o[24];
static int j_hex(int c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f'
        ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
static int J_H4(const uint8_t *p)
{
    int a = j_hex(p[0]), b = j_hex(p[1]), c = j_hex(p[2]), d = j_hex(p[3]);

    return a < 0 || b < 0 || c < 0 || d < 0 ? -1
        : a * 4096 + b * 256 + c * 16 + d;
}
//@harness h_json_escape prop=C23 unwind=16 solver=cadical search=4 about=parse_backslash
VP_MAIN(h_json_escape)
{
    /* an escape is at most 12 bytes: what follows is not looked at */
    size_t n = vp_range(1, 14);
    pstream_t ps;
    sb_t sb;
    int line = vp_range(1, 1000), col = vp_range(1, 1000), l0 = line, c0 = col;
    int r, h, c = -1, used = 2, want;
    uint8_t *b = j_b + 14 - n;

    for (int i = 0; i < 14; i++) {
        j_b[i] = vp_u8();
    }
    b[0] = '\\';
    if (n > 1 && vp_bool()) {
        b[1] = 'u';
    }
    sb_init_full(&sb, j_o, 0, 24, &mem_pool_static);
    ps = ps_init(b, n);
    r = parse_backslash(&ps, &sb, &line, &col);
    VP_CHECK("alone, it is refused", (r < 0) == (n < 2));
    if (n < 2) {
        VP_REACH();
        return;
    }
    VP_CHECK("in the input", ps.b >= b + 2 && ps.b <= b + n && ps.b_end == b + n);
    if (b[1] == 'u' && n >= 6 && (h = J_H4(b + 2)) >= 0) {
        c = h;
        used = 6;
        if (h >= 0xd800 && h < 0xdc00 && n >= 12 && b[6] == '\\' && b[7] == 'u'
            && J_H4(b + 8) >= 0xdc00 && J_H4(b + 8) < 0xe000)
        {
            c = 0x10000 + ((h - 0xd800) << 10) + (J_H4(b + 8) - 0xdc00);
            used = 12;
        }
        want = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
        VP_CHECK("the length of the character", sb.len == want);
        VP_CHECK("the last byte", (uint8_t)sb.data[want - 1]
                 == (c < 0x80 ? c : 0x80 | (c & 63)));
        VP_CHECK("the first byte", (uint8_t)sb.data[0]
                 == (c < 0x80 ? c : c < 0x800 ? 0xc0 | c >> 6
                     : c < 0x10000 ? 0xe0 | c >> 12 : 0xf0 | c >> 18));
        VP_CHECK("the middle", want < 3
                 || (uint8_t)sb.data[want - 2] == (0x80 | (c >> 6 & 63)));
    } else
    if (b[1] == 'x' && n >= 4 && j_hex(b[2]) >= 0 && j_hex(b[3]) >= 0) {
        used = 4;
        VP_CHECK("the byte", sb.len == 1 && (uint8_t)sb.data[0]
                 == (j_hex(b[2]) << 4 | j_hex(b[3])));
    } else
    if (b[1] >= '0' && b[1] <= '2' && n >= 4 && b[2] >= '0' && b[2] <= '7'
        && b[3] >= '0' && b[3] <= '7')
    {
        used = 4;
        VP_CHECK("the octal byte", sb.len == 1 && (uint8_t)sb.data[0]
                 == ((b[1] - '0') * 64 + (b[2] - '0') * 8 + b[3] - '0'));
    } else
    if (b[1] == '\\' || b[1] == '"' || b[1] == '\'' || b[1] == '/') {
        VP_CHECK("itself", sb.len == 1 && (uint8_t)sb.data[0] == b[1]);
    } else {
        VP_CHECK("one byte, or both", sb.len == 1 || sb.len == 2);
    }
    VP_CHECK("what was read", ps.b == b + used);
    VP_CHECK("where it is", b[1] == '\n' ? line == l0 + 1 && col == 1
             : line == l0 && col == c0 + used);
    VP_REACH();
}

static iop_cfolder_elem_t cf_tab[8];
#define CF_OPERANDS()                                                        \
    qv_t(cf_elem) st;                                                        \
    uint64_t l = vp_u64(), r = vp_u64();                                     \
    bool ls = vp_bool(), rs = vp_bool();                                     \
    int op, ret;                                                             \
                                                                             \
    if (vp_bool()) {                                                         \
        l = vp_bool() ? (uint64_t)INT64_MIN : UINT64_MAX;                    \
    }                                                                        \
    if (vp_bool()) {                                                         \
        r = vp_bool() ? UINT64_MAX : vp_range(0, 70);                        \
    }                                                                        \
    cf_tab[0] = (iop_cfolder_elem_t){ .type = CF_ELEM_NUMBER, .num = l,      \
                                      .is_signed = ls };                     \
    cf_tab[2] = (iop_cfolder_elem_t){ .type = CF_ELEM_NUMBER, .num = r,      \
                                      .is_signed = rs };                     \
    qv_init_static(&st, cf_tab, 3);                                          \
    st.size = 8
/* divisions: no trap, whatever the operands */
//@harness h_json_div prop=C23 unwind=4 solver=cadical extra=--signed-overflow-check search=3 about=cf_reduce
VP_MAIN(h_json_div)
{
    CF_OPERANDS();

    op = vp_bool() ? CF_OP_DIV : CF_OP_MOD;
    cf_tab[1] = (iop_cfolder_elem_t){ .type = CF_ELEM_OP, .op = op };
    ret = cf_reduce(&st);
    VP_CHECK("refused, or a number", ret < 0
             || (st.len == 1 && cf_tab[0].type == CF_ELEM_NUMBER));
    VP_CHECK("no division by 0", r != 0 || ret < 0);
    VP_CHECK("divisions that have a result are accepted", ret == 0 || r == 0
             || (r == UINT64_MAX && l == (uint64_t)INT64_MIN && (ls || rs)));
    VP_REACH();
}
//@harness h_json_ops prop=C23 unwind=4 solver=cadical search=3 about=cf_reduce
VP_MAIN(h_json_ops)
{
    CF_OPERANDS();
    uint64_t v;

    switch (vp_range(0, 6)) {
      case 0: op = CF_OP_ADD; break;
      case 1: op = CF_OP_SUB; break;
      case 2: op = CF_OP_XOR; break;
      case 3: op = CF_OP_AND; break;
      case 4: op = CF_OP_OR; break;
      case 5: op = CF_OP_LSHIFT; break;
      default: op = CF_OP_RSHIFT; break;
    }
    cf_tab[1] = (iop_cfolder_elem_t){ .type = CF_ELEM_OP, .op = op };
    ret = cf_reduce(&st);
    VP_CHECK("refused, or a number", ret < 0
             || (st.len == 1 && cf_tab[0].type == CF_ELEM_NUMBER));
    if (op == CF_OP_LSHIFT || op == CF_OP_RSHIFT) {
        VP_CHECK("shifts", (ret < 0) == (r >= 64));
        v = r >= 64 ? 0 : op == CF_OP_LSHIFT ? l << (r & 63) : l >> (r & 63);
    } else {
        VP_CHECK("computes", ret == 0 || op == CF_OP_ADD);
        v = op == CF_OP_ADD ? l + r : op == CF_OP_SUB ? l - r
            : op == CF_OP_XOR ? l ^ r : op == CF_OP_AND ? (l & r) : (l | r);
    }
    if (op == CF_OP_ADD) {
        VP_CHECK("sums that fit are accepted, others are not", (ret == 0)
                 == (ls || rs
                     ? ((int64_t)r < 0 ? (int64_t)l >= INT64_MIN - (int64_t)r
                        : (int64_t)l <= INT64_MAX - (int64_t)r)
                     : l <= UINT64_MAX - r));
    }
    VP_CHECK("the value", ret < 0 || cf_tab[0].num == v);
    VP_REACH();
}
