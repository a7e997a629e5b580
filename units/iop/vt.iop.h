/***** THIS FILE IS AUTOGENERATED DO NOT MODIFY DIRECTLY ! *****/
#ifndef IOP_HEADER_GUARD_vt_H
#define IOP_HEADER_GUARD_vt_H

#include "vt-t.iop.h"



/*----- package vt -----*/
EXPORT iop_pkg_t const vt__pkg;
EXPORT iop_pkg_t const * const nonnull vt__pkgp;

#endif
