/* random values of the types of vt.iop, and their comparison */
#include "iop/vt.iop.c"
static uint64_t rng_s;
static uint64_t rng(uint64_t n)
{
    rng_s = rng_s * 6364136223846793005ull + 1442695040888963407ull;
    return (rng_s >> 33) % n;
}
static void *arr(size_t n)
{
    return mp_imalloc(t_pool(), n, 8, MEM_RAW);
}
static int64_t rnd_int(void)
{
    uint64_t v = rng(1ull << 31) | rng(1ull << 31) << 31 | rng(4) << 62;
    int sh = rng(64);

    switch (rng(4)) {
      case 0: return (int64_t)v >> sh;
      case 1: return (1ull << sh) - rng(3);
      case 2: return -(1ull << sh) + rng(3);
      default: return rng(300);
    }
}
static lstr_t rnd_str(void)
{
    static const int sizes[] = { 0, 1, 2, 5, 254, 255, 256, 300, 65534, 65535, 65540 };
    int n = rng(60) == 0 ? sizes[rng(11)] : rng(20);
    char *s = arr(n + !n);

    for (int i = 0; i < n; i++) {
        s[i] = rng(8) ? 'a' + rng(26) : rng(256);
    }
    return LSTR_INIT_V(s, n);
}
static bool g_text;             /* strings of Unicode characters */
static uint32_t g_cmin = 0;     /* the first that can be used */
static lstr_t rnd_txt(void)
{
    int n = rng(60) == 0 ? rng(3000) : rng(12), len = 0;
    char *s = arr(n * 4 + 1);

    for (int i = 0; i < n; i++) {
        uint32_t c;

        do {
            c = rng(2) ? 32 + rng(95) : rng(3) ? rng(256) : rng(2)
                ? rng(0x10000) : rng(0x110000);
        } while (c < g_cmin || (c >= 0xd800 && c < 0xe000)
                 || (g_cmin && (c == 0xfffe || c == 0xffff)));
        if (c < 0x80) {
            s[len++] = c;
        } else
        if (c < 0x800) {
            s[len++] = 0xc0 | c >> 6;
            s[len++] = 0x80 | (c & 63);
        } else
        if (c < 0x10000) {
            s[len++] = 0xe0 | c >> 12;
            s[len++] = 0x80 | (c >> 6 & 63);
            s[len++] = 0x80 | (c & 63);
        } else {
            s[len++] = 0xf0 | c >> 18;
            s[len++] = 0x80 | (c >> 12 & 63);
            s[len++] = 0x80 | (c >> 6 & 63);
            s[len++] = 0x80 | (c & 63);
        }
    }
    return LSTR_INIT_V(s, len);
}
static void rnd_struct(const iop_struct_t *st, void *v, int depth);
static const iop_struct_t *g_cls[] = {
    &vt__base__s, &vt__mid__s, &vt__last__s, &vt__other__s,
};
static void *rnd_class(int depth)
{
    const iop_struct_t *st = g_cls[rng(4)];
    void *p = arr(st->size);

    memset(p, 0x5a, st->size);
    *(const iop_struct_t **)p = st;
    do {
        rnd_struct(st, p, depth);
    } while ((st = st->class_attrs->parent));
    return p;
}
static void rnd_val(const iop_field_t *f, void *p, int depth)
{
    switch (f->type) {
      case IOP_T_I8: case IOP_T_U8: *(uint8_t *)p = rnd_int(); break;
      case IOP_T_I16: case IOP_T_U16: *(uint16_t *)p = rnd_int(); break;
      case IOP_T_I32: case IOP_T_U32: *(uint32_t *)p = rnd_int(); break;
      case IOP_T_I64: case IOP_T_U64: *(uint64_t *)p = rnd_int(); break;
      case IOP_T_DOUBLE:
        *(double *)p = rng(2) ? (double)rnd_int() / 7 : (double)rnd_int(); break;
      case IOP_T_BOOL: *(bool *)p = rng(2); break;
      case IOP_T_ENUM:
        *(int32_t *)p = f->u1.en_desc->values[rng(f->u1.en_desc->enum_len)];
        if (f->u1.en_desc == &vt__e__e && rng(4) == 0) {
            *(int32_t *)p = rnd_int();
        }
        break;
      case IOP_T_VOID: break;
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML:
        *(lstr_t *)p = g_text && f->type != IOP_T_DATA ? rnd_txt() : rnd_str();
        break;
      default:
        if (iop_field_is_class(f)) {
            *(void **)p = rnd_class(depth + 1);
        } else {
            rnd_struct(f->u1.st_desc, p, depth + 1);
        }
        break;
    }
}
static void rnd_field(const iop_field_t *f, void *v, int depth)
{
    char *p = (char *)v + f->data_offs;
    bool isst = f->type == IOP_T_STRUCT || f->type == IOP_T_UNION;

    switch (f->repeat) {
      case IOP_R_REPEATED: {
        int n = depth > 3 ? 0 : rng(2) ? rng(3) : rng(20) == 0 ? rng(600) : rng(6);
        char *t;

        if (isst) {
            n = MIN(n, 4);
        }
        t = arr(n * f->size + !n);
        for (int i = 0; i < n; i++) {
            rnd_val(f, t + i * f->size, depth);
        }
        *(lstr_t *)p = LSTR_INIT_V(t, n);
      } break;
      case IOP_R_OPTIONAL:
        if (rng(2) || depth > 3) {
            iop_field_set_absent(f, p);
            break;
        }
        if (isst && !iop_field_is_class(f)) {
            *(void **)p = arr(f->size + !f->size);
            rnd_val(f, *(void **)p, depth);
            break;
        }
        switch (f->type) {
          case IOP_T_I8: case IOP_T_U8: ((opt_u8_t *)p)->has_field = true; break;
          case IOP_T_I16: case IOP_T_U16: ((opt_u16_t *)p)->has_field = true; break;
          case IOP_T_I32: case IOP_T_U32: case IOP_T_ENUM:
            ((opt_u32_t *)p)->has_field = true; break;
          case IOP_T_I64: case IOP_T_U64: ((opt_u64_t *)p)->has_field = true; break;
          case IOP_T_BOOL: ((opt_bool_t *)p)->has_field = true; break;
          case IOP_T_DOUBLE: ((opt_double_t *)p)->has_field = true; break;
          case IOP_T_VOID: *(bool *)p = true; break;
          default: break;
        }
        rnd_val(f, p, depth);
        break;
      case IOP_R_DEFVAL:
        if (rng(2)) {
            iop_field_set_defval(f, p);
        } else {
            rnd_val(f, p, depth);
        }
        break;
      default:
        if (iop_field_is_reference(f)) {
            *(void **)p = arr(f->size + !f->size);
            rnd_val(f, *(void **)p, depth);
        } else {
            rnd_val(f, p, depth);
        }
    }
}
static void rnd_struct(const iop_struct_t *st, void *v, int depth)
{
    if (st->is_union) {
        const iop_field_t *f = &st->fields[rng(st->fields_len)];

        if (depth > 3) {
            f = &st->fields[0];
        }
        iop_union_set_tag(st, f->tag, v);
        rnd_field(f, v, depth);
    } else {
        for (int i = 0; i < st->fields_len; i++) {
            rnd_field(&st->fields[i], v, depth);
        }
    }
}
/* comparison, on the descriptions only */
static bool eq_struct(const iop_struct_t *st, const void *a, const void *b);
static bool eq_class(const void *a, const void *b)
{
    const iop_struct_t *st = *(const iop_struct_t **)a;

    if (st != *(const iop_struct_t **)b) {
        return false;
    }
    do {
        if (!eq_struct(st, a, b)) {
            return false;
        }
    } while ((st = st->class_attrs->parent));
    return true;
}
static bool eq_val(const iop_field_t *f, const void *a, const void *b)
{
    switch (f->type) {
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML: {
        const lstr_t *x = a, *y = b;

        return x->len == y->len && (!x->len || !memcmp(x->s, y->s, x->len));
      }
      case IOP_T_UNION: case IOP_T_STRUCT:
        return iop_field_is_class(f) ? eq_class(*(void **)a, *(void **)b)
             : eq_struct(f->u1.st_desc, a, b);
      default:
        return !memcmp(a, b, w_size(f->type));
    }
}
static bool is_set(const iop_field_t *f, const void *p)
{
    switch (f->type) {
      case IOP_T_I8: case IOP_T_U8: return ((opt_u8_t *)p)->has_field;
      case IOP_T_I16: case IOP_T_U16: return ((opt_u16_t *)p)->has_field;
      case IOP_T_I32: case IOP_T_U32: case IOP_T_ENUM:
        return ((opt_u32_t *)p)->has_field;
      case IOP_T_I64: case IOP_T_U64: return ((opt_u64_t *)p)->has_field;
      case IOP_T_BOOL: return ((opt_bool_t *)p)->has_field;
      case IOP_T_DOUBLE: return ((opt_double_t *)p)->has_field;
      case IOP_T_VOID: return *(bool *)p;
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML:
        return ((lstr_t *)p)->s != NULL;
      default: return *(void **)p != NULL;
    }
}
static bool eq_field(const iop_field_t *f, const char *a, const char *b)
{
    bool isst = f->type == IOP_T_STRUCT || f->type == IOP_T_UNION;

    a += f->data_offs;
    b += f->data_offs;
    if (f->repeat == IOP_R_REPEATED) {
        const lstr_t *x = (void *)a, *y = (void *)b;

        if (x->len != y->len) {
            return false;
        }
        for (int i = 0; i < x->len; i++) {
            if (!eq_val(f, x->s + i * f->size, y->s + i * f->size)) {
                return false;
            }
        }
        return true;
    }
    if (f->repeat == IOP_R_OPTIONAL) {
        if (is_set(f, a) != is_set(f, b)) {
            return false;
        }
        if (!is_set(f, a)) {
            return true;
        }
        if (isst && !iop_field_is_class(f)) {
            return eq_val(f, *(void **)a, *(void **)b);
        }
    }
    if (iop_field_is_reference(f)) {
        return eq_val(f, *(void **)a, *(void **)b);
    }
    return eq_val(f, a, b);
}
static bool eq_struct(const iop_struct_t *st, const void *a, const void *b)
{
    if (st->is_union) {
        int ta = iop_union_get_tag(st, a);

        if (ta != iop_union_get_tag(st, b)) {
            return false;
        }
        for (int i = 0; i < st->fields_len; i++) {
            if (st->fields[i].tag == ta) {
                return eq_field(&st->fields[i], a, b);
            }
        }
        return false;
    }
    for (int i = 0; i < st->fields_len; i++) {
        if (!eq_field(&st->fields[i], a, b)) {
            return false;
        }
    }
    return true;
}
static void g_init(void)
{
    static bool done;

    if (!done) {
        done = true;
        iop_env_init(&iop_g.env);
        IOP_REGISTER_PACKAGES(&vt__pkg);
    }
    vp_t_reset();
    rng_s = vp_u64();
}
static const iop_struct_t *g_sts[] = {
    &vt__t__s, &vt__u__s, &vt__leaf__s, &vt__empty__s, &vt__base__s,
};
static void *g_value(const iop_struct_t **pst)
{
    const iop_struct_t *st = g_sts[rng(2) ? 0 : rng(countof(g_sts))];
    void *v;

    *pst = st;
    if (iop_struct_is_class(st)) {
        return rnd_class(0);
    }
    v = arr(st->size + !st->size);
    memset(v, 0x5a, st->size);
    rnd_struct(st, v, 0);
    return v;
}
static bool g_eq(const iop_struct_t *st, const void *a, const void *b)
{
    return iop_struct_is_class(st) ? eq_class(a, b) : eq_struct(st, a, b);
}
/* what was decoded can be read whole */
static uint64_t g_sum;
static void use_mem(const void *p, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        g_sum += ((const uint8_t *)p)[i];
    }
}
static void use_struct(const iop_struct_t *st, const void *v);
static void use_val(const iop_field_t *f, const void *p)
{
    switch (f->type) {
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML: {
        const lstr_t *s = p;

        VP_CHECK("a string has a length", s->len >= 0);
        use_mem(s->s, s->len);
      } break;
      case IOP_T_STRUCT: case IOP_T_UNION:
        if (iop_field_is_class(f)) {
            const iop_struct_t *st = **(const iop_struct_t ***)p;

            do {
                use_struct(st, *(void **)p);
            } while ((st = st->class_attrs->parent));
        } else {
            use_struct(f->u1.st_desc, p);
        }
        break;
      default:
        use_mem(p, w_size(f->type));
    }
}
static void use_struct(const iop_struct_t *st, const void *v)
{
    for (int i = 0; i < st->fields_len; i++) {
        const iop_field_t *f = &st->fields[i];
        char *p = (char *)v + f->data_offs;
        bool isst = f->type == IOP_T_STRUCT || f->type == IOP_T_UNION;

        if (st->is_union && f->tag != iop_union_get_tag(st, v)) {
            continue;
        }
        if (f->repeat == IOP_R_REPEATED) {
            lstr_t *x = (void *)p;

            for (int j = 0; j < x->len; j++) {
                use_val(f, x->s + j * f->size);
            }
        } else if (f->repeat == IOP_R_OPTIONAL) {
            if (is_set(f, p)) {
                use_val(f, isst && !iop_field_is_class(f) ? *(void **)p : p);
            }
        } else {
            use_val(f, iop_field_is_reference(f) ? *(void **)p : p);
        }
    }
}
