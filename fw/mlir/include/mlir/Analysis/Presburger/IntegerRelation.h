// LLVM 20 lacks IntegerRelation::atConstraint64 (inequalities first, then equalities); it is grafted on here.
#pragma once
#include <cstdint>
#define atEq64                                                                        \
  atConstraint64(unsigned i, unsigned j) const {                                      \
    return i < getNumInequalities() ? atIneq64(i, j) : int64_t(equalities(i - getNumInequalities(), j)); \
  }                                                                                   \
  inline int64_t atEq64
#include_next "mlir/include/mlir/Analysis/Presburger/IntegerRelation.h"
#undef atEq64
