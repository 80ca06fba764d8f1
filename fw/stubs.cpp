// Stand-ins for what cannot be built offline: Yosys (createYosysOptimizer) and OR-tools
// (OptimizeRelinearizationAnalysis::solve: here the eager "relinearize after every ct*ct mul").
#include <memory>
#include <string>
#include "lib/Analysis/OptimizeRelinearizationAnalysis/OptimizeRelinearizationAnalysis.h"
#include "lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.h"
#include "lib/Transforms/ILPBootstrapPlacement/ILPBootstrapPlacement.h"
#include "lib/Transforms/YosysOptimizer/YosysOptimizer.h"
namespace mlir::heir {
LogicalResult OptimizeRelinearizationAnalysis::solve() {
  opToRunOn->walk([&](Operation* op) {
    if (!isa<arith::MulIOp, arith::MulFOp>(op)) return;
    bool both = true;
    for (Value v : op->getOperands()) both &= isSecret(v, solver);
    if (both) { solution[op] = true; for (Value r : op->getResults()) solutionKeyBasisDegreeBeforeRelin[r] = 2; }
  });
  return success();
}
std::unique_ptr<mlir::Pass> createYosysOptimizer(const std::string&, const std::string&, int, bool, Mode, bool) { return nullptr; }
std::unique_ptr<mlir::Pass> createILPBootstrapPlacement(ILPBootstrapPlacementOptions) { return nullptr; }
void registerYosysOptimizerPipeline(const std::string&, const std::string&) {}
}
