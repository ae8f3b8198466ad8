#pragma once
// Shared by pass.cpp and rt.cpp.
#define PAGEMAP_BASE 0x200000000000ULL
enum Op : unsigned
{
    OP_NONE = 0,
    OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR, OP_AND, OP_OR, OP_XOR,
    OP_EQ, OP_NE, OP_ULT, OP_ULE, OP_UGT, OP_UGE, OP_SLT, OP_SLE, OP_SGT, OP_SGE,
    OP_ZEXT, OP_SEXT, OP_TRUNC,
    OP_UMIN, OP_UMAX, OP_SMIN, OP_SMAX, OP_USUBSAT, OP_UADDSAT,
    OP_UADDO, OP_SADDO, OP_USUBO, OP_SSUBO, OP_UMULO, OP_SMULO,
    OP_ABS, OP_BSWAP, OP_CTPOP, OP_CTLZ, OP_CTTZ, OP_FSHL, OP_FSHR,
    OP_ITE, OP_EXTR, OP_CONCAT, OP_CONST, OP_VAR,
    OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FNEG, OP_SITOFP, OP_UITOFP, OP_FPTOSI, OP_FPTOUI, OP_FPCONV,
    OP_FCMP_BASE = 80 // + llvm predicate 0..15
};
