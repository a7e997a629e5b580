/***** THIS FILE IS AUTOGENERATED DO NOT MODIFY DIRECTLY ! *****/
#ifndef IOP_HEADER_GUARD_vt_TYPEDEFS_H
#define IOP_HEADER_GUARD_vt_TYPEDEFS_H

#include <lib-common/core.h>
#include <lib-common/iop/internals.h>

typedef enum vt__e__t {
    E_A = 1,
    E_B,
    E_C,
    E_G = 10,
    E_H,
    E_M = 2147483647,
    E_N = -5,
} vt__e__t;
typedef IOP_ARRAY_OF(enum vt__e__t) vt__e__array_t;
#ifdef OPT_OF
typedef OPT_OF(enum vt__e__t) vt__e__opt_t;
#else
typedef IOP_OPT_OF(enum vt__e__t) vt__e__opt_t;
#endif
#define E_count 7
#define E_min   -5
#define E_max   2147483647

typedef enum vt__s__t {
    S_X,
    S_Y,
    S_Z = 7,
} vt__s__t;
typedef IOP_ARRAY_OF(enum vt__s__t) vt__s__array_t;
#ifdef OPT_OF
typedef OPT_OF(enum vt__s__t) vt__s__opt_t;
#else
typedef IOP_OPT_OF(enum vt__s__t) vt__s__opt_t;
#endif
#define S_count 3
#define S_min   0
#define S_max   7

typedef struct vt__empty__t vt__empty__t;
typedef IOP_ARRAY_OF(vt__empty__t) vt__empty__array_t;

typedef struct vt__leaf__t vt__leaf__t;
typedef IOP_ARRAY_OF(vt__leaf__t) vt__leaf__array_t;

typedef struct vt__u__t vt__u__t;
typedef IOP_ARRAY_OF(vt__u__t) vt__u__array_t;

typedef struct vt__base__t vt__base__t;
typedef IOP_ARRAY_OF(vt__base__t *nonnull ) vt__base__array_t;

typedef struct vt__mid__t vt__mid__t;
typedef IOP_ARRAY_OF(vt__mid__t *nonnull ) vt__mid__array_t;

typedef struct vt__last__t vt__last__t;
typedef IOP_ARRAY_OF(vt__last__t *nonnull ) vt__last__array_t;

typedef struct vt__other__t vt__other__t;
typedef IOP_ARRAY_OF(vt__other__t *nonnull ) vt__other__array_t;

typedef struct vt__t__t vt__t__t;
typedef IOP_ARRAY_OF(vt__t__t) vt__t__array_t;

#endif
