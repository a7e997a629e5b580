/***** THIS FILE IS AUTOGENERATED DO NOT MODIFY DIRECTLY ! *****/
#ifndef linux
#  warning "vt.iop assumed linux alignments"
#endif
#ifndef __x86_64__
#  warning "vt.iop assumed x86_64 alignments"
#endif

#include "vt.iop.h"

/* Enum vt.E {{{ */

static int const vt__e__values[] = {
 -5, 1, 2, 3, 10, 11, 2147483647,
};
static int const iop__ranges__1[] = {
    0, -5,
    1, 1,
    4, 10,
    6, 2147483647,
    7,
};
static const lstr_t vt__e__names[] = {
    LSTR_IMMED("N"),
    LSTR_IMMED("A"),
    LSTR_IMMED("B"),
    LSTR_IMMED("C"),
    LSTR_IMMED("G"),
    LSTR_IMMED("H"),
    LSTR_IMMED("M"),
};
iop_enum_t const vt__e__e = {
    .name         = LSTR_IMMED("E"),
    .fullname     = LSTR_IMMED("vt.E"),
    .names        = vt__e__names,
    .values       = vt__e__values,
    .ranges       = iop__ranges__1,
    .ranges_len   = countof(iop__ranges__1) / 2,
    .enum_len     = 7,
};
iop_enum_t const * const vt__e__ep = &vt__e__e;

/* }}} */
/* Enum vt.S {{{ */

static int const vt__s__values[] = {
 0, 1, 7,
};
static int const iop__ranges__2[] = {
    0, 0,
    2, 7,
    3,
};
static const lstr_t vt__s__names[] = {
    LSTR_IMMED("X"),
    LSTR_IMMED("Y"),
    LSTR_IMMED("Z"),
};
iop_enum_t const vt__s__e = {
    .name         = LSTR_IMMED("S"),
    .fullname     = LSTR_IMMED("vt.S"),
    .names        = vt__s__names,
    .values       = vt__s__values,
    .ranges       = iop__ranges__2,
    .ranges_len   = countof(iop__ranges__2) / 2,
    .enum_len     = 3,
    .flags        = 2,
};
iop_enum_t const * const vt__s__ep = &vt__s__e;

/* }}} */
/* Structure vt.Empty {{{ */

static iop_field_t const vt__empty__desc_fields[] = {
};
static int const iop__ranges__3[] = {
    0,
};
const iop_struct_t vt__empty__s = {
    .fullname   = LSTR_IMMED("vt.Empty"),
    .fields     = vt__empty__desc_fields,
    .ranges     = iop__ranges__3,
    .ranges_len = countof(iop__ranges__3) / 2,
    .fields_len = countof(vt__empty__desc_fields),
    .size       = sizeof(vt__empty__t),
};
iop_struct_t const * const vt__empty__sp = &vt__empty__s;

/* }}} */
/* Structure vt.Leaf {{{ */

static iop_field_t const vt__leaf__desc_fields[] = {
    {
        .name      = LSTR_IMMED("a"),
        .tag       = 1,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_I32,
        .data_offs = offsetof(vt__leaf__t, a),
        .size      = fieldsizeof(vt__leaf__t, a),
    },
    {
        .name      = LSTR_IMMED("s"),
        .tag       = 30,
        .tag_len   = 1,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_STRING,
        .data_offs = offsetof(vt__leaf__t, s),
        .size      = fieldsizeof(vt__leaf__t, s),
    },
    {
        .name      = LSTR_IMMED("l"),
        .tag       = 256,
        .tag_len   = 2,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_U64,
        .data_offs = offsetof(vt__leaf__t, l),
        .size      = fieldsizeof(vt__leaf__t, l.tab[0]),
    },
    {
        .name      = LSTR_IMMED("b"),
        .tag       = 32000,
        .tag_len   = 2,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_BOOL,
        .data_offs = offsetof(vt__leaf__t, b),
        .size      = fieldsizeof(vt__leaf__t, b),
    },
};
static int const iop__ranges__4[] = {
    0, 1,
    1, 30,
    2, 256,
    3, 32000,
    4,
};
const iop_struct_t vt__leaf__s = {
    .fullname   = LSTR_IMMED("vt.Leaf"),
    .fields     = vt__leaf__desc_fields,
    .ranges     = iop__ranges__4,
    .ranges_len = countof(iop__ranges__4) / 2,
    .fields_len = countof(vt__leaf__desc_fields),
    .size       = sizeof(vt__leaf__t),
};
iop_struct_t const * const vt__leaf__sp = &vt__leaf__s;

/* }}} */
/* Union vt.U {{{ */

static iop_field_t const vt__u__desc_fields[] = {
    {
        .name      = LSTR_IMMED("i"),
        .tag       = 1,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_I32,
        .data_offs = offsetof(vt__u__t, i),
        .size      = fieldsizeof(vt__u__t, i),
    },
    {
        .name      = LSTR_IMMED("ub"),
        .tag       = 300,
        .tag_len   = 2,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_U8,
        .data_offs = offsetof(vt__u__t, ub),
        .size      = fieldsizeof(vt__u__t, ub),
    },
    {
        .name      = LSTR_IMMED("s"),
        .tag       = 1000,
        .tag_len   = 2,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_STRING,
        .data_offs = offsetof(vt__u__t, s),
        .size      = fieldsizeof(vt__u__t, s),
    },
    {
        .name      = LSTR_IMMED("l"),
        .tag       = 2000,
        .tag_len   = 2,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_STRUCT,
        .data_offs = offsetof(vt__u__t, l),
        .size      = sizeof(vt__leaf__t),
        .u1        = { .st_desc = &vt__leaf__s },
    },
    {
        .name      = LSTR_IMMED("b"),
        .tag       = 2001,
        .tag_len   = 2,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_BOOL,
        .data_offs = offsetof(vt__u__t, b),
        .size      = fieldsizeof(vt__u__t, b),
    },
    {
        .name      = LSTR_IMMED("v"),
        .tag       = 2002,
        .tag_len   = 2,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_VOID,
        .data_offs = offsetof(vt__u__t, i),
    },
    {
        .name      = LSTR_IMMED("d"),
        .tag       = 2003,
        .tag_len   = 2,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_DOUBLE,
        .data_offs = offsetof(vt__u__t, d),
        .size      = fieldsizeof(vt__u__t, d),
    },
    {
        .name      = LSTR_IMMED("e"),
        .tag       = 2004,
        .tag_len   = 2,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_ENUM,
        .data_offs = offsetof(vt__u__t, e),
        .size      = fieldsizeof(vt__u__t, e),
        .u1        = { .en_desc = &vt__e__e },
    },
    {
        .name      = LSTR_IMMED("ul"),
        .tag       = 2005,
        .tag_len   = 2,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_U64,
        .data_offs = offsetof(vt__u__t, ul),
        .size      = fieldsizeof(vt__u__t, ul),
    },
    {
        .name      = LSTR_IMMED("by"),
        .tag       = 2006,
        .tag_len   = 2,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_DATA,
        .data_offs = offsetof(vt__u__t, by),
        .size      = fieldsizeof(vt__u__t, by),
    },
};
static int const iop__ranges__5[] = {
    0, 1,
    1, 300,
    2, 1000,
    3, 2000,
    10,
};
const iop_struct_t vt__u__s = {
    .fullname   = LSTR_IMMED("vt.U"),
    .fields     = vt__u__desc_fields,
    .ranges     = iop__ranges__5,
    .ranges_len = countof(iop__ranges__5) / 2,
    .fields_len = countof(vt__u__desc_fields),
    .size       = sizeof(vt__u__t),
    .is_union   = true,
};
iop_struct_t const * const vt__u__sp = &vt__u__s;

/* }}} */
/* Class vt.Base {{{ */

static iop_field_t const vt__base__desc_fields[] = {
    {
        .name      = LSTR_IMMED("x"),
        .tag       = 1,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_I32,
        .data_offs = offsetof(vt__base__t, x),
        .size      = fieldsizeof(vt__base__t, x),
    },
    {
        .name      = LSTR_IMMED("name"),
        .tag       = 2,
        .tag_len   = 0,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_STRING,
        .data_offs = offsetof(vt__base__t, name),
        .size      = fieldsizeof(vt__base__t, name),
    },
};
static int const iop__ranges__6[] = {
    0, 1,
    2,
};
static const iop_class_attrs_t vt__base__class_s = {
    .class_id          = 1,
};
const iop_struct_t vt__base__s = {
    .fullname   = LSTR_IMMED("vt.Base"),
    .fields     = vt__base__desc_fields,
    .ranges     = iop__ranges__6,
    .ranges_len = countof(iop__ranges__6) / 2,
    .fields_len = countof(vt__base__desc_fields),
    .size       = sizeof(vt__base__t),
    .flags      = 13,
    .is_union   = false,
    .st_attrs   = NULL,
    .fields_attrs = NULL,
    {
        .class_attrs  = &vt__base__class_s,
    }
};
iop_struct_t const * const vt__base__sp = &vt__base__s;

/* }}} */
/* Class vt.Mid {{{ */

static iop_field_t const vt__mid__desc_fields[] = {
    {
        .name      = LSTR_IMMED("m"),
        .tag       = 1,
        .tag_len   = 0,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_U16,
        .data_offs = offsetof(vt__mid__t, m),
        .size      = fieldsizeof(vt__mid__t, m),
    },
};
static int const iop__ranges__7[] = {
    0, 1,
    1,
};
static const iop_class_attrs_t vt__mid__class_s = {
    .parent            = &vt__base__s,
    .class_id          = 200,
};
const iop_struct_t vt__mid__s = {
    .fullname   = LSTR_IMMED("vt.Mid"),
    .fields     = vt__mid__desc_fields,
    .ranges     = iop__ranges__7,
    .ranges_len = countof(iop__ranges__7) / 2,
    .fields_len = countof(vt__mid__desc_fields),
    .size       = sizeof(vt__mid__t),
    .flags      = 13,
    .is_union   = false,
    .st_attrs   = NULL,
    .fields_attrs = NULL,
    {
        .class_attrs  = &vt__mid__class_s,
    }
};
iop_struct_t const * const vt__mid__sp = &vt__mid__s;

/* }}} */
/* Class vt.Last {{{ */

static iop_field_t const vt__last__desc_fields[] = {
    {
        .name      = LSTR_IMMED("leaves"),
        .tag       = 1,
        .tag_len   = 0,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_STRUCT,
        .data_offs = offsetof(vt__last__t, leaves),
        .size      = sizeof(vt__leaf__t),
        .u1        = { .st_desc = &vt__leaf__s },
    },
    {
        .name      = LSTR_IMMED("y"),
        .tag       = 2,
        .tag_len   = 0,
        .repeat    = IOP_R_DEFVAL,
        .type      = IOP_T_I64,
        .data_offs = offsetof(vt__last__t, y),
        .u1        = { .defval_u64 = 0xc },
        .size      = fieldsizeof(vt__last__t, y),
    },
};
static const iop_class_attrs_t vt__last__class_s = {
    .parent            = &vt__mid__s,
    .class_id          = 40000,
};
const iop_struct_t vt__last__s = {
    .fullname   = LSTR_IMMED("vt.Last"),
    .fields     = vt__last__desc_fields,
    .ranges     = iop__ranges__6,
    .ranges_len = countof(iop__ranges__6) / 2,
    .fields_len = countof(vt__last__desc_fields),
    .size       = sizeof(vt__last__t),
    .flags      = 13,
    .is_union   = false,
    .st_attrs   = NULL,
    .fields_attrs = NULL,
    {
        .class_attrs  = &vt__last__class_s,
    }
};
iop_struct_t const * const vt__last__sp = &vt__last__s;

/* }}} */
/* Class vt.Other {{{ */

static iop_field_t const vt__other__desc_fields[] = {
    {
        .name      = LSTR_IMMED("sub"),
        .tag       = 1,
        .tag_len   = 0,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_STRUCT,
        .data_offs = offsetof(vt__other__t, sub),
        .size      = sizeof(vt__base__t *),
        .u1        = { .st_desc = &vt__base__s },
    },
};
static const iop_class_attrs_t vt__other__class_s = {
    .parent            = &vt__base__s,
    .class_id          = 3,
};
const iop_struct_t vt__other__s = {
    .fullname   = LSTR_IMMED("vt.Other"),
    .fields     = vt__other__desc_fields,
    .ranges     = iop__ranges__7,
    .ranges_len = countof(iop__ranges__7) / 2,
    .fields_len = countof(vt__other__desc_fields),
    .size       = sizeof(vt__other__t),
    .flags      = 13,
    .is_union   = false,
    .st_attrs   = NULL,
    .fields_attrs = NULL,
    {
        .class_attrs  = &vt__other__class_s,
    }
};
iop_struct_t const * const vt__other__sp = &vt__other__s;

/* }}} */
/* Structure vt.T {{{ */

static iop_field_t const vt__t__desc_fields[] = {
    {
        .name      = LSTR_IMMED("i8"),
        .tag       = 1,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_I8,
        .data_offs = offsetof(vt__t__t, i8),
        .size      = fieldsizeof(vt__t__t, i8),
    },
    {
        .name      = LSTR_IMMED("u8"),
        .tag       = 2,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_U8,
        .data_offs = offsetof(vt__t__t, u8),
        .size      = fieldsizeof(vt__t__t, u8),
    },
    {
        .name      = LSTR_IMMED("i16"),
        .tag       = 3,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_I16,
        .data_offs = offsetof(vt__t__t, i16),
        .size      = fieldsizeof(vt__t__t, i16),
    },
    {
        .name      = LSTR_IMMED("u16"),
        .tag       = 4,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_U16,
        .data_offs = offsetof(vt__t__t, u16),
        .size      = fieldsizeof(vt__t__t, u16),
    },
    {
        .name      = LSTR_IMMED("i32"),
        .tag       = 5,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_I32,
        .data_offs = offsetof(vt__t__t, i32),
        .size      = fieldsizeof(vt__t__t, i32),
    },
    {
        .name      = LSTR_IMMED("u32"),
        .tag       = 6,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_U32,
        .data_offs = offsetof(vt__t__t, u32),
        .size      = fieldsizeof(vt__t__t, u32),
    },
    {
        .name      = LSTR_IMMED("i64"),
        .tag       = 7,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_I64,
        .data_offs = offsetof(vt__t__t, i64),
        .size      = fieldsizeof(vt__t__t, i64),
    },
    {
        .name      = LSTR_IMMED("u64"),
        .tag       = 8,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_U64,
        .data_offs = offsetof(vt__t__t, u64),
        .size      = fieldsizeof(vt__t__t, u64),
    },
    {
        .name      = LSTR_IMMED("d"),
        .tag       = 9,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_DOUBLE,
        .data_offs = offsetof(vt__t__t, d),
        .size      = fieldsizeof(vt__t__t, d),
    },
    {
        .name      = LSTR_IMMED("b"),
        .tag       = 10,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_BOOL,
        .data_offs = offsetof(vt__t__t, b),
        .size      = fieldsizeof(vt__t__t, b),
    },
    {
        .name      = LSTR_IMMED("s"),
        .tag       = 11,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_STRING,
        .data_offs = offsetof(vt__t__t, s),
        .size      = fieldsizeof(vt__t__t, s),
    },
    {
        .name      = LSTR_IMMED("data"),
        .tag       = 12,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_DATA,
        .data_offs = offsetof(vt__t__t, data),
        .size      = fieldsizeof(vt__t__t, data),
    },
    {
        .name      = LSTR_IMMED("x"),
        .tag       = 13,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_XML,
        .data_offs = offsetof(vt__t__t, x),
        .size      = fieldsizeof(vt__t__t, x),
    },
    {
        .name      = LSTR_IMMED("e"),
        .tag       = 14,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_ENUM,
        .data_offs = offsetof(vt__t__t, e),
        .size      = fieldsizeof(vt__t__t, e),
        .u1        = { .en_desc = &vt__e__e },
    },
    {
        .name      = LSTR_IMMED("st"),
        .tag       = 15,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_ENUM,
        .data_offs = offsetof(vt__t__t, st),
        .size      = fieldsizeof(vt__t__t, st),
        .u1        = { .en_desc = &vt__s__e },
    },
    {
        .name      = LSTR_IMMED("v"),
        .tag       = 16,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_VOID,
    },
    {
        .name      = LSTR_IMMED("u"),
        .tag       = 17,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_UNION,
        .data_offs = offsetof(vt__t__t, u),
        .size      = sizeof(vt__u__t),
        .u1        = { .st_desc = &vt__u__s },
    },
    {
        .name      = LSTR_IMMED("leaf"),
        .tag       = 18,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_STRUCT,
        .data_offs = offsetof(vt__t__t, leaf),
        .size      = sizeof(vt__leaf__t),
        .u1        = { .st_desc = &vt__leaf__s },
    },
    {
        .name      = LSTR_IMMED("empty"),
        .tag       = 19,
        .tag_len   = 0,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_STRUCT,
        .data_offs = offsetof(vt__t__t, empty),
        .size      = sizeof(vt__empty__t),
        .u1        = { .st_desc = &vt__empty__s },
    },
    {
        .name      = LSTR_IMMED("oi8"),
        .tag       = 20,
        .tag_len   = 0,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_I8,
        .data_offs = offsetof(vt__t__t, oi8),
        .size      = fieldsizeof(vt__t__t, oi8),
    },
    {
        .name      = LSTR_IMMED("ou8"),
        .tag       = 21,
        .tag_len   = 0,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_U8,
        .data_offs = offsetof(vt__t__t, ou8),
        .size      = fieldsizeof(vt__t__t, ou8),
    },
    {
        .name      = LSTR_IMMED("oi16"),
        .tag       = 22,
        .tag_len   = 0,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_I16,
        .data_offs = offsetof(vt__t__t, oi16),
        .size      = fieldsizeof(vt__t__t, oi16),
    },
    {
        .name      = LSTR_IMMED("ou16"),
        .tag       = 23,
        .tag_len   = 0,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_U16,
        .data_offs = offsetof(vt__t__t, ou16),
        .size      = fieldsizeof(vt__t__t, ou16),
    },
    {
        .name      = LSTR_IMMED("oi32"),
        .tag       = 24,
        .tag_len   = 0,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_I32,
        .data_offs = offsetof(vt__t__t, oi32),
        .size      = fieldsizeof(vt__t__t, oi32),
    },
    {
        .name      = LSTR_IMMED("ou32"),
        .tag       = 25,
        .tag_len   = 0,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_U32,
        .data_offs = offsetof(vt__t__t, ou32),
        .size      = fieldsizeof(vt__t__t, ou32),
    },
    {
        .name      = LSTR_IMMED("oi64"),
        .tag       = 26,
        .tag_len   = 0,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_I64,
        .data_offs = offsetof(vt__t__t, oi64),
        .size      = fieldsizeof(vt__t__t, oi64),
    },
    {
        .name      = LSTR_IMMED("ou64"),
        .tag       = 27,
        .tag_len   = 0,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_U64,
        .data_offs = offsetof(vt__t__t, ou64),
        .size      = fieldsizeof(vt__t__t, ou64),
    },
    {
        .name      = LSTR_IMMED("od"),
        .tag       = 28,
        .tag_len   = 0,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_DOUBLE,
        .data_offs = offsetof(vt__t__t, od),
        .size      = fieldsizeof(vt__t__t, od),
    },
    {
        .name      = LSTR_IMMED("ob"),
        .tag       = 29,
        .tag_len   = 0,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_BOOL,
        .data_offs = offsetof(vt__t__t, ob),
        .size      = fieldsizeof(vt__t__t, ob),
    },
    {
        .name      = LSTR_IMMED("os"),
        .tag       = 30,
        .tag_len   = 1,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_STRING,
        .data_offs = offsetof(vt__t__t, os),
        .size      = fieldsizeof(vt__t__t, os),
    },
    {
        .name      = LSTR_IMMED("odata"),
        .tag       = 31,
        .tag_len   = 1,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_DATA,
        .data_offs = offsetof(vt__t__t, odata),
        .size      = fieldsizeof(vt__t__t, odata),
    },
    {
        .name      = LSTR_IMMED("oe"),
        .tag       = 32,
        .tag_len   = 1,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_ENUM,
        .data_offs = offsetof(vt__t__t, oe),
        .size      = fieldsizeof(vt__t__t, oe),
        .u1        = { .en_desc = &vt__e__e },
    },
    {
        .name      = LSTR_IMMED("ov"),
        .tag       = 33,
        .tag_len   = 1,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_VOID,
        .data_offs = offsetof(vt__t__t, ov),
        .size      = fieldsizeof(vt__t__t, ov),
    },
    {
        .name      = LSTR_IMMED("ou"),
        .tag       = 34,
        .tag_len   = 1,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_UNION,
        .data_offs = offsetof(vt__t__t, ou),
        .size      = sizeof(vt__u__t),
        .u1        = { .st_desc = &vt__u__s },
    },
    {
        .name      = LSTR_IMMED("oleaf"),
        .tag       = 35,
        .tag_len   = 1,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_STRUCT,
        .data_offs = offsetof(vt__t__t, oleaf),
        .size      = sizeof(vt__leaf__t),
        .u1        = { .st_desc = &vt__leaf__s },
    },
    {
        .name      = LSTR_IMMED("ri8"),
        .tag       = 100,
        .tag_len   = 1,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_I8,
        .data_offs = offsetof(vt__t__t, ri8),
        .size      = fieldsizeof(vt__t__t, ri8.tab[0]),
    },
    {
        .name      = LSTR_IMMED("ru8"),
        .tag       = 101,
        .tag_len   = 1,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_U8,
        .data_offs = offsetof(vt__t__t, ru8),
        .size      = fieldsizeof(vt__t__t, ru8.tab[0]),
    },
    {
        .name      = LSTR_IMMED("ri16"),
        .tag       = 102,
        .tag_len   = 1,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_I16,
        .data_offs = offsetof(vt__t__t, ri16),
        .size      = fieldsizeof(vt__t__t, ri16.tab[0]),
    },
    {
        .name      = LSTR_IMMED("ru16"),
        .tag       = 103,
        .tag_len   = 1,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_U16,
        .data_offs = offsetof(vt__t__t, ru16),
        .size      = fieldsizeof(vt__t__t, ru16.tab[0]),
    },
    {
        .name      = LSTR_IMMED("ri32"),
        .tag       = 104,
        .tag_len   = 1,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_I32,
        .data_offs = offsetof(vt__t__t, ri32),
        .size      = fieldsizeof(vt__t__t, ri32.tab[0]),
    },
    {
        .name      = LSTR_IMMED("ru32"),
        .tag       = 105,
        .tag_len   = 1,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_U32,
        .data_offs = offsetof(vt__t__t, ru32),
        .size      = fieldsizeof(vt__t__t, ru32.tab[0]),
    },
    {
        .name      = LSTR_IMMED("ri64"),
        .tag       = 106,
        .tag_len   = 1,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_I64,
        .data_offs = offsetof(vt__t__t, ri64),
        .size      = fieldsizeof(vt__t__t, ri64.tab[0]),
    },
    {
        .name      = LSTR_IMMED("ru64"),
        .tag       = 107,
        .tag_len   = 1,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_U64,
        .data_offs = offsetof(vt__t__t, ru64),
        .size      = fieldsizeof(vt__t__t, ru64.tab[0]),
    },
    {
        .name      = LSTR_IMMED("rd"),
        .tag       = 108,
        .tag_len   = 1,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_DOUBLE,
        .data_offs = offsetof(vt__t__t, rd),
        .size      = fieldsizeof(vt__t__t, rd.tab[0]),
    },
    {
        .name      = LSTR_IMMED("rb"),
        .tag       = 109,
        .tag_len   = 1,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_BOOL,
        .data_offs = offsetof(vt__t__t, rb),
        .size      = fieldsizeof(vt__t__t, rb.tab[0]),
    },
    {
        .name      = LSTR_IMMED("rs"),
        .tag       = 110,
        .tag_len   = 1,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_STRING,
        .data_offs = offsetof(vt__t__t, rs),
        .size      = fieldsizeof(vt__t__t, rs.tab[0]),
    },
    {
        .name      = LSTR_IMMED("rdata"),
        .tag       = 111,
        .tag_len   = 1,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_DATA,
        .data_offs = offsetof(vt__t__t, rdata),
        .size      = fieldsizeof(vt__t__t, rdata.tab[0]),
    },
    {
        .name      = LSTR_IMMED("re"),
        .tag       = 112,
        .tag_len   = 1,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_ENUM,
        .data_offs = offsetof(vt__t__t, re),
        .size      = fieldsizeof(vt__t__t, re.tab[0]),
        .u1        = { .en_desc = &vt__e__e },
    },
    {
        .name      = LSTR_IMMED("ru"),
        .tag       = 113,
        .tag_len   = 1,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_UNION,
        .data_offs = offsetof(vt__t__t, ru),
        .size      = sizeof(vt__u__t),
        .u1        = { .st_desc = &vt__u__s },
    },
    {
        .name      = LSTR_IMMED("rleaf"),
        .tag       = 114,
        .tag_len   = 1,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_STRUCT,
        .data_offs = offsetof(vt__t__t, rleaf),
        .size      = sizeof(vt__leaf__t),
        .u1        = { .st_desc = &vt__leaf__s },
    },
    {
        .name      = LSTR_IMMED("di32"),
        .tag       = 300,
        .tag_len   = 2,
        .repeat    = IOP_R_DEFVAL,
        .type      = IOP_T_I32,
        .data_offs = offsetof(vt__t__t, di32),
        .u1        = { .defval_u64 = 0xfffffffffffffff9 },
        .size      = fieldsizeof(vt__t__t, di32),
    },
    {
        .name      = LSTR_IMMED("du8"),
        .tag       = 301,
        .tag_len   = 2,
        .repeat    = IOP_R_DEFVAL,
        .type      = IOP_T_U8,
        .data_offs = offsetof(vt__t__t, du8),
        .u1        = { .defval_u64 = 0xc8 },
        .size      = fieldsizeof(vt__t__t, du8),
    },
    {
        .name      = LSTR_IMMED("di64"),
        .tag       = 302,
        .tag_len   = 2,
        .repeat    = IOP_R_DEFVAL,
        .type      = IOP_T_I64,
        .data_offs = offsetof(vt__t__t, di64),
        .u1        = { .defval_u64 = 0x12a05f200 },
        .size      = fieldsizeof(vt__t__t, di64),
    },
    {
        .name      = LSTR_IMMED("dd"),
        .tag       = 303,
        .tag_len   = 2,
        .repeat    = IOP_R_DEFVAL,
        .type      = IOP_T_DOUBLE,
        .data_offs = offsetof(vt__t__t, dd),
        .u1        = { .defval_d = 1.50000000000000000e+00 },
        .size      = fieldsizeof(vt__t__t, dd),
    },
    {
        .name      = LSTR_IMMED("db"),
        .tag       = 304,
        .tag_len   = 2,
        .repeat    = IOP_R_DEFVAL,
        .type      = IOP_T_BOOL,
        .data_offs = offsetof(vt__t__t, db),
        .u1        = { .defval_u64 = true },
        .size      = fieldsizeof(vt__t__t, db),
    },
    {
        .name      = LSTR_IMMED("ds"),
        .tag       = 305,
        .tag_len   = 2,
        .repeat    = IOP_R_DEFVAL,
        .type      = IOP_T_STRING,
        .data_offs = offsetof(vt__t__t, ds),
        .u0        = { .defval_len  = 4 },
        .u1        = { .defval_data = "dflt" },
        .size      = fieldsizeof(vt__t__t, ds),
    },
    {
        .name      = LSTR_IMMED("de"),
        .tag       = 306,
        .tag_len   = 2,
        .repeat    = IOP_R_DEFVAL,
        .type      = IOP_T_ENUM,
        .data_offs = offsetof(vt__t__t, de),
        .u0        = { .defval_enum = 10 },
        .size      = fieldsizeof(vt__t__t, de),
        .u1        = { .en_desc = &vt__e__e },
    },
    {
        .name      = LSTR_IMMED("ref"),
        .tag       = 307,
        .tag_len   = 2,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_STRUCT,
        .data_offs = offsetof(vt__t__t, ref),
        .flags     = 4,
        .size      = sizeof(vt__leaf__t),
        .u1        = { .st_desc = &vt__leaf__s },
    },
    {
        .name      = LSTR_IMMED("uref"),
        .tag       = 308,
        .tag_len   = 2,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_UNION,
        .data_offs = offsetof(vt__t__t, uref),
        .flags     = 4,
        .size      = sizeof(vt__u__t),
        .u1        = { .st_desc = &vt__u__s },
    },
    {
        .name      = LSTR_IMMED("cls"),
        .tag       = 309,
        .tag_len   = 2,
        .repeat    = IOP_R_REQUIRED,
        .type      = IOP_T_STRUCT,
        .data_offs = offsetof(vt__t__t, cls),
        .size      = sizeof(vt__base__t *),
        .u1        = { .st_desc = &vt__base__s },
    },
    {
        .name      = LSTR_IMMED("ocls"),
        .tag       = 310,
        .tag_len   = 2,
        .repeat    = IOP_R_OPTIONAL,
        .type      = IOP_T_STRUCT,
        .data_offs = offsetof(vt__t__t, ocls),
        .size      = sizeof(vt__base__t *),
        .u1        = { .st_desc = &vt__base__s },
    },
    {
        .name      = LSTR_IMMED("rcls"),
        .tag       = 311,
        .tag_len   = 2,
        .repeat    = IOP_R_REPEATED,
        .type      = IOP_T_STRUCT,
        .data_offs = offsetof(vt__t__t, rcls),
        .size      = sizeof(vt__base__t *),
        .u1        = { .st_desc = &vt__base__s },
    },
};
static int const iop__ranges__8[] = {
    0, 1,
    35, 100,
    50, 300,
    62,
};
const iop_struct_t vt__t__s = {
    .fullname   = LSTR_IMMED("vt.T"),
    .fields     = vt__t__desc_fields,
    .ranges     = iop__ranges__8,
    .ranges_len = countof(iop__ranges__8) / 2,
    .fields_len = countof(vt__t__desc_fields),
    .size       = sizeof(vt__t__t),
    .flags      = 2,
};
iop_struct_t const * const vt__t__sp = &vt__t__s;

/* }}} */
/* Package vt {{{ */

static const iop_pkg_t *const vt__deps[] = {
    NULL,
};

static const iop_enum_t *const vt__enums[] = {
    &vt__e__e,
    &vt__s__e,
    NULL,
};

static const iop_struct_t *const vt__structs[] = {
    &vt__empty__s,
    &vt__leaf__s,
    &vt__u__s,
    &vt__base__s,
    &vt__mid__s,
    &vt__last__s,
    &vt__other__s,
    &vt__t__s,
    NULL,
};

static const iop_iface_t *const vt__ifaces[] = {
    NULL,
};

static const iop_mod_t *const vt__mods[] = {
    NULL,
};

static const iop_typedef_t *const vt__td[] = {
    NULL,
};

iop_pkg_t const vt__pkg = {
    .name     = LSTR_IMMED("vt"),
    .deps     = vt__deps,
    .enums    = vt__enums,
    .structs  = vt__structs,
    .ifaces   = vt__ifaces,
    .mods     = vt__mods,
    .typedefs = vt__td,
};
iop_pkg_t const * const vt__pkgp = &vt__pkg;

/* }}} */

