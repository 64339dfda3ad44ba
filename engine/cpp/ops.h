#pragma once
// type codes: integer widths 1..64, and:
enum { TY_F32 = 132, TY_F64 = 164, TY_PTR = 200, TY_BAD = 255 };
// op codes (LLVM opcodes / predicates are added to the bases)
enum { OP_BIN = 1000, OP_CAST = 2000, OP_ICMP = 3000, OP_FCMP = 4000,
  OP_FNEG = 1, OP_SELECT, OP_FABS, OP_SQRT, OP_FLOOR, OP_CEIL, OP_ROUND, OP_FTRUNC, OP_RINT, OP_HYPOT, OP_FMOD, OP_FMAX, OP_FMIN,
  OP_SIN, OP_COS, OP_TAN, OP_ATAN2, OP_ATAN, OP_ACOS, OP_ASIN, OP_EXP, OP_LOG, OP_POW, OP_LROUND, OP_COPYSIGN, OP_REMAINDER,
  OP_FMA, OP_SMAX, OP_SMIN, OP_UMAX, OP_UMIN, OP_IABS, OP_LOG2 };
// LLVM 18 opcode numbers used by the runtime (checked in pass.cpp via static_assert)
enum { L_Add = 13, L_FAdd = 14, L_Sub = 15, L_FSub = 16, L_Mul = 17, L_FMul = 18, L_UDiv = 19, L_SDiv = 20, L_FDiv = 21, L_URem = 22, L_SRem = 23, L_FRem = 24,
  L_Shl = 25, L_LShr = 26, L_AShr = 27, L_And = 28, L_Or = 29, L_Xor = 30,
  L_Trunc = 38, L_ZExt = 39, L_SExt = 40, L_FPToUI = 41, L_FPToSI = 42, L_UIToFP = 43, L_SIToFP = 44, L_FPTrunc = 45, L_FPExt = 46,
  L_ICMP_EQ = 32, L_ICMP_NE = 33, L_ICMP_UGT = 34, L_ICMP_UGE = 35, L_ICMP_ULT = 36, L_ICMP_ULE = 37, L_ICMP_SGT = 38, L_ICMP_SGE = 39, L_ICMP_SLT = 40, L_ICMP_SLE = 41 };
