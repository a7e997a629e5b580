/***** THIS FILE IS AUTOGENERATED DO NOT MODIFY DIRECTLY ! *****/
#ifndef IOP_HEADER_GUARD_vt_TYPES_H
#define IOP_HEADER_GUARD_vt_TYPES_H

#include "vt-tdef.iop.h"

#if __has_feature(nullability)
#pragma GCC diagnostic push
#pragma GCC diagnostic error "-Wnullability-completeness"
#endif

EXPORT iop_enum_t const vt__e__e;
EXPORT iop_enum_t const * const nonnull vt__e__ep;

EXPORT iop_enum_t const vt__s__e;
EXPORT iop_enum_t const * const nonnull vt__s__ep;

struct vt__empty__t {
};
EXPORT iop_struct_t const vt__empty__s;
EXPORT iop_struct_t const * const nonnull vt__empty__sp;
struct vt__leaf__t {
    int32_t  a;
    opt_bool_t       b;
    lstr_t           s;
#ifndef IOP_ARRAY_T
    IOP_ARRAY_OF(uint64_t) l;
#else
    iop_array_u64_t    l;
#endif
};
EXPORT iop_struct_t const vt__leaf__s;
EXPORT iop_struct_t const * const nonnull vt__leaf__sp;
/*----- XXX private data, do not use directly -{{{-*/
typedef enum vt__u__tag_t {
    vt__u__i__ft = 1,
    vt__u__ub__ft = 300,
    vt__u__s__ft = 1000,
    vt__u__l__ft = 2000,
    vt__u__b__ft = 2001,
    vt__u__v__ft = 2002,
#define vt__u__v__empty_ft  vt__u__v__ft
    vt__u__d__ft = 2003,
    vt__u__e__ft = 2004,
    vt__u__ul__ft = 2005,
    vt__u__by__ft = 2006,
} vt__u__tag_t;

#define vt__u__i__fdesc  vt__u__s.fields[0]
#define vt__u__ub__fdesc  vt__u__s.fields[1]
#define vt__u__s__fdesc  vt__u__s.fields[2]
#define vt__u__l__fdesc  vt__u__s.fields[3]
#define vt__u__b__fdesc  vt__u__s.fields[4]
#define vt__u__v__fdesc  vt__u__s.fields[5]
#define vt__u__d__fdesc  vt__u__s.fields[6]
#define vt__u__e__fdesc  vt__u__s.fields[7]
#define vt__u__ul__fdesc  vt__u__s.fields[8]
#define vt__u__by__fdesc  vt__u__s.fields[9]
/*-}}}-*/
struct vt__u__t {
    vt__u__tag_t iop_tag;
    union {
        int32_t  i;
        uint8_t  ub;
        lstr_t   s;
        vt__leaf__t l;
        bool     b;
        double   d;
        vt__e__t e;
        uint64_t ul;
        lstr_t   by;
    };
};
EXPORT iop_struct_t const vt__u__s;
EXPORT iop_struct_t const * const nonnull vt__u__sp;
#define vt__u__get(u, field)       IOP_UNION_GET(vt__u, u, field)
struct vt__base__t {
    const iop_struct_t *nonnull __vptr;
    int32_t  x;
    lstr_t           name;
};
EXPORT iop_struct_t const vt__base__s;
EXPORT iop_struct_t const * const nonnull vt__base__sp;
#define vt__base__class_id  1

struct vt__mid__t {
    union {
        vt__base__t super;
        struct {
            const iop_struct_t *nonnull __vptr;
            /* fields of vt__base__t */
            int32_t  x;
            lstr_t           name;
        };
    };
    opt_u16_t        m;
};
EXPORT iop_struct_t const vt__mid__s;
EXPORT iop_struct_t const * const nonnull vt__mid__sp;
#define vt__mid__class_id  200

struct vt__last__t {
    union {
        vt__mid__t super;
        struct {
            struct {
                const iop_struct_t *nonnull __vptr;
                /* fields of vt__base__t */
                int32_t  x;
                lstr_t           name;
            };
            /* fields of vt__mid__t */
            opt_u16_t        m;
        };
    };
    vt__leaf__array_t leaves;
    int64_t  y;
};
EXPORT iop_struct_t const vt__last__s;
EXPORT iop_struct_t const * const nonnull vt__last__sp;
#define vt__last__class_id  40000

struct vt__other__t {
    union {
        vt__base__t super;
        struct {
            const iop_struct_t *nonnull __vptr;
            /* fields of vt__base__t */
            int32_t  x;
            lstr_t           name;
        };
    };
    vt__base__t *nullable sub;
};
EXPORT iop_struct_t const vt__other__s;
EXPORT iop_struct_t const * const nonnull vt__other__sp;
#define vt__other__class_id  3

struct vt__t__t {
    int8_t   i8;
    uint8_t  u8;
    int16_t  i16;
    uint16_t u16;
    bool     b;
    vt__empty__t empty;
    opt_i8_t         oi8;
    opt_u8_t         ou8;
    opt_bool_t       ob;
    bool             ov;
    opt_i16_t        oi16;
    opt_u16_t        ou16;
    uint8_t  du8;
    bool     db;
    int32_t  i32;
    uint32_t u32;
    int64_t  i64;
    uint64_t u64;
    double   d;
    lstr_t   s;
    lstr_t   data;
    lstr_t   x;
    vt__e__t e;
    vt__s__t st;
    vt__u__t u;
    vt__leaf__t leaf;
    opt_i32_t        oi32;
    opt_u32_t        ou32;
    opt_i64_t        oi64;
    opt_u64_t        ou64;
    opt_double_t     od;
    lstr_t           os;
    lstr_t           odata;
    vt__e__opt_t oe;
    vt__u__t *nullable ou;
    vt__leaf__t *nullable oleaf;
#ifndef IOP_ARRAY_T
    IOP_ARRAY_OF(int8_t)   ri8;
#else
    iop_array_i8_t     ri8;
#endif
#ifndef IOP_ARRAY_T
    IOP_ARRAY_OF(uint8_t)  ru8;
#else
    iop_array_u8_t     ru8;
#endif
#ifndef IOP_ARRAY_T
    IOP_ARRAY_OF(int16_t)  ri16;
#else
    iop_array_i16_t    ri16;
#endif
#ifndef IOP_ARRAY_T
    IOP_ARRAY_OF(uint16_t) ru16;
#else
    iop_array_u16_t    ru16;
#endif
#ifndef IOP_ARRAY_T
    IOP_ARRAY_OF(int32_t)  ri32;
#else
    iop_array_i32_t    ri32;
#endif
#ifndef IOP_ARRAY_T
    IOP_ARRAY_OF(uint32_t) ru32;
#else
    iop_array_u32_t    ru32;
#endif
#ifndef IOP_ARRAY_T
    IOP_ARRAY_OF(int64_t)  ri64;
#else
    iop_array_i64_t    ri64;
#endif
#ifndef IOP_ARRAY_T
    IOP_ARRAY_OF(uint64_t) ru64;
#else
    iop_array_u64_t    ru64;
#endif
#ifndef IOP_ARRAY_T
    IOP_ARRAY_OF(double)   rd;
#else
    iop_array_double_t rd;
#endif
#ifndef IOP_ARRAY_T
    IOP_ARRAY_OF(bool)     rb;
#else
    iop_array_bool_t   rb;
#endif
#ifndef IOP_ARRAY_T
    IOP_ARRAY_OF(lstr_t)   rs;
#else
    iop_array_lstr_t   rs;
#endif
#ifndef IOP_ARRAY_T
    IOP_ARRAY_OF(iop_data_t) rdata;
#else
    iop_array_lstr_t   rdata;
#endif
    vt__e__array_t re;
    vt__u__array_t ru;
    vt__leaf__array_t rleaf;
    int32_t  di32;
    vt__e__t de;
    int64_t  di64;
    double   dd;
    lstr_t   ds;
    vt__leaf__t *nonnull ref;
    vt__u__t *nonnull uref;
    vt__base__t *nonnull cls;
    vt__base__t *nullable ocls;
    vt__base__array_t rcls;
};
EXPORT iop_struct_t const vt__t__s;
EXPORT iop_struct_t const * const nonnull vt__t__sp;
#if __has_feature(nullability)
#pragma GCC diagnostic pop
#endif

#endif
