// LLVM 20 lacks this header: logging is compiled out.
#pragma once
#include "llvm/Support/raw_ostream.h"
#define LDBG(...) if (true) {} else ::llvm::dbgs()
#define LDBG_OS(...) do {} while (0)
