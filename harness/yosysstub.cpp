// Yosys and ABC are not installed: the passes that call them fail cleanly.
#include "lib/Transforms/YosysOptimizer/YosysOptimizer.h"
#include "mlir/include/mlir/Pass/Pass.h"
using namespace mlir;
namespace mlir::heir {
namespace {
struct NoYosys : PassWrapper<NoYosys, OperationPass<>> { void runOnOperation() override { signalPassFailure(); } };
}
std::unique_ptr<Pass> createYosysOptimizer(const std::string &, const std::string &, int, bool, Mode, bool) { return std::make_unique<NoYosys>(); }
void registerYosysOptimizerPipeline(const std::string &, const std::string &) {}
}
