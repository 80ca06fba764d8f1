// Newer MLIR has WalkResult in a header of its own.
#pragma once
#include "mlir/IR/Visitors.h"
