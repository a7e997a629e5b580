static inline int w_size(iop_type_t t)
{
    switch (t) {
      case IOP_T_I8: case IOP_T_U8: case IOP_T_BOOL: return 1;
      case IOP_T_I16: case IOP_T_U16: return 2;
      case IOP_T_I32: case IOP_T_U32: case IOP_T_ENUM: return 4;
      case IOP_T_VOID: return 0;
      default: return 8;
    }
}
