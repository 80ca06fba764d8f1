// heir-opt's own main, with the driver replaced by something that keeps the registrations it made.
#include "mlir/Tools/mlir-opt/MlirOptMain.h"
namespace heiropt {
mlir::DialectRegistry &captured() { static mlir::DialectRegistry r; return r; }
}
namespace mlir { static llvm::LogicalResult heir_capture(int, char **, llvm::StringRef, DialectRegistry &r) { r.appendTo(heiropt::captured()); return llvm::success(); } }
#define main heir_opt_main
#define MlirOptMain ::mlir::heir_capture
#include "tools/heir-opt.cpp"
#undef main
namespace heiropt {
void init() {
  static bool done = false;
  if (done) return;
  done = true;
  static const char *argv[] = {"heir-opt", nullptr};
  heir_opt_main(1, const_cast<char **>(argv));
}
}
