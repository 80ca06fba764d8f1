// O04: tensor programs keep their meaning through layout assignment and packing into ciphertext slots.
#include "heiropt.h"
#include "interp.h"
using namespace mlir;
using mon::S;
using interp::Val;
using interp::Elems;
using interp::Outcome;
#include "tensorgen.h"
#include "slots.h"

namespace {
std::string opts(mon::Rng &r, bool wide, Prog &p, int64_t slots) {
  S s;
  s << "min-slot-count=" << slots;
  if (r.chance(0.35) && (wide || !(p.kinds["stencil loop"] + p.kinds["accumulation loop"]))) s << " experimental-disable-loop-unroll=true";
  if (r.chance(0.3)) s << " codegen-strategy=" << r.pick(std::vector<std::string>{"auto", "never-fold", "fold-when-possible"});
  return s;
}
void run(mon::Case &c, TOpt o) {
  static int count = 0;
  heiropt::ctx(++count % 40 == 0);
  bool mustCompile = !o.wide;
  o.slots = c.rng.pick(std::vector<int64_t>{8, 16, 32, 64, o.wide ? 128 : 32});
  Prog p = TGen(c.rng, o).make();
  std::string pl = "mlir-to-secret-arithmetic{" + opts(c.rng, !mustCompile, p, o.slots) + "}";
  c.describe(pl + "\n" + p.text);
  checkPacked(c, p, pl, mustCompile);
}
} // namespace
MON_FAMILY_T(O04_elementwise, 400, 8000, 240) { run(c, {.elementwise = true}); }
MON_FAMILY_T(O04_linalg, 500, 10000, 240) { run(c, {.elementwise = true, .linalg = true}); }
MON_FAMILY_T(O04_shapes, 500, 10000, 240) { run(c, {.elementwise = true, .shapes = true}); }
MON_FAMILY_T(O04_loops, 500, 10000, 240) { run(c, {.elementwise = true, .loops = true}); }
MON_FAMILY_T(O04_mixed, 500, 10000, 240) { run(c, {.elementwise = true, .linalg = true, .shapes = true, .loops = true, .wide = true}); }

// Programs that are known to be compiled wrongly, one per defect: the generators above leave these shapes out.
struct Known { const char *key, *opts, *text; };
static const Known kKnown[] = {
  {"reduce-dimension", "min-slot-count=8", R"(func.func @f(%a0: tensor<2x2xi32> {secret.secret}) -> (tensor<2xi32>) {
  %0 = arith.constant dense<0> : tensor<2xi32>
  %1 = linalg.reduce { arith.addi } ins(%a0 : tensor<2x2xi32>) outs(%0 : tensor<2xi32>) dimensions = [0]
  return %1 : tensor<2xi32>
})"},
  {"reduce-then-use", "min-slot-count=16", R"(func.func @f(%a0: tensor<4x2xi32> {secret.secret}) -> (tensor<2xi32>) {
  %0 = arith.constant dense<0> : tensor<4xi32>
  %1 = linalg.reduce { arith.addi } ins(%a0 : tensor<4x2xi32>) outs(%0 : tensor<4xi32>) dimensions = [1]
  %m = arith.constant dense<[[1, 2, 3, 4], [5, 6, 7, 8]]> : tensor<2x4xi32>
  %z = arith.constant dense<0> : tensor<2xi32>
  %2 = linalg.matvec ins(%m, %1 : tensor<2x4xi32>, tensor<4xi32>) outs(%z : tensor<2xi32>) -> tensor<2xi32>
  return %2 : tensor<2xi32>
})"},
  {"rotate-length", "min-slot-count=32", R"(func.func @f(%a0: tensor<7xi16> {secret.secret}) -> (i16) {
  %0 = arith.constant 0 : i16
  %1 = affine.for %2 = 0 to 7 iter_args(%3 = %0) -> (i16) {
    %4 = tensor.extract %a0[%2] : tensor<7xi16>
    %5 = arith.addi %3, %4 : i16
    affine.yield %5 : i16
  }
  return %1 : i16
})"},
  {"rotate-slots", "min-slot-count=8", R"(func.func @f(%a0: tensor<16xi16> {secret.secret}) -> (tensor<16xi16>) {
  %1 = affine.for %2 = 0 to 16 iter_args(%3 = %a0) -> (tensor<16xi16>) {
    %6 = affine.apply affine_map<(d0) -> ((d0 + 1) mod 16)>(%2)
    %4 = tensor.extract %a0[%6] : tensor<16xi16>
    %5 = tensor.insert %4 into %3[%2] : tensor<16xi16>
    affine.yield %5 : tensor<16xi16>
  }
  return %1 : tensor<16xi16>
})"},
  {"matmul-dims", "min-slot-count=8", R"(func.func @f(%a0: tensor<4x8xi32> {secret.secret}) -> (tensor<4x8xi32>) {
  %0 = arith.constant dense<[[1,2,3,4,5,6,7,8],[2,2,2,2,2,2,2,3],[0,0,0,0,0,0,0,1],[1,0,1,0,1,0,1,0],[1,2,3,4,5,6,7,8],[2,2,2,2,2,2,2,3],[0,0,0,0,0,0,0,1],[1,0,1,0,1,0,1,0]]> : tensor<8x8xi32>
  %1 = arith.constant dense<0> : tensor<4x8xi32>
  %2 = linalg.matmul ins(%a0, %0 : tensor<4x8xi32>, tensor<8x8xi32>) outs(%1 : tensor<4x8xi32>) -> tensor<4x8xi32>
  return %2 : tensor<4x8xi32>
})"},
  {"pad-then-add", "min-slot-count=16", R"(func.func @f(%a0: tensor<4xi32> {secret.secret}) -> (tensor<7xi32>) {
  %z = arith.constant 0 : i32
  %0 = tensor.pad %a0 low[1] high[2] {
  ^bb0(%p0: index):
    tensor.yield %z : i32
  } : tensor<4xi32> to tensor<7xi32>
  %1 = arith.constant dense<[1, 2, 3, 4, 5, 6, 7]> : tensor<7xi32>
  %2 = arith.addi %0, %1 : tensor<7xi32>
  return %2 : tensor<7xi32>
})"},
  {"slice-then-insert", "min-slot-count=32", R"(func.func @f(%a0: tensor<8xi16> {secret.secret}) -> (tensor<4xi16>) {
  %0 = tensor.extract_slice %a0[2] [4] [1] : tensor<8xi16> to tensor<4xi16>
  %1 = arith.constant -3 : i16
  %2 = arith.constant 0 : index
  %3 = tensor.insert %1 into %0[%2] : tensor<4xi16>
  return %3 : tensor<4xi16>
})"},
  {"insert-slice", "min-slot-count=16", R"(func.func @f(%a0: tensor<2xi32> {secret.secret}, %a2: tensor<1xi32> {secret.secret}) -> (tensor<2xi32>) {
  %0 = arith.constant dense<8> : tensor<2xi32>
  %1 = arith.constant dense<[8, -4]> : tensor<2xi32>
  %2 = affine.for %3 = 0 to 3 iter_args(%4 = %0) -> (tensor<2xi32>) {
    %5 = arith.muli %4, %a0 : tensor<2xi32>
    %6 = arith.subi %5, %1 : tensor<2xi32>
    affine.yield %6 : tensor<2xi32>
  }
  %7 = tensor.insert_slice %a2 into %2[1] [1] [1] : tensor<1xi32> into tensor<2xi32>
  return %7 : tensor<2xi32>
})"},
  {"insert-several-ciphertexts", "min-slot-count=8", R"(func.func @f(%a0: tensor<16xf32> {secret.secret}, %a1: f32 {secret.secret}) -> (f32, tensor<16xf32>) {
  %0 = arith.constant 10 : index
  %1 = tensor.insert %a1 into %a0[%0] : tensor<16xf32>
  %2 = arith.addf %a1, %a1 : f32
  return %2, %1 : f32, tensor<16xf32>
})"},
  {nullptr, "min-slot-count=64", R"(func.func @f(%a0: tensor<8xi16> {secret.secret}) -> (tensor<8xi16>) {
  %0 = affine.for %1 = 0 to 8 iter_args(%2 = %a0) -> (tensor<8xi16>) {
    %3 = arith.constant 0 : index
    %4 = tensor.extract %a0[%3] : tensor<8xi16>
    %5 = arith.constant 2 : index
    %6 = tensor.extract %a0[%5] : tensor<8xi16>
    %9 = arith.addi %4, %6 : i16
    %10 = arith.constant 6 : index
    %11 = tensor.extract %a0[%10] : tensor<8xi16>
    %12 = arith.addi %9, %11 : i16
    %13 = tensor.insert %12 into %2[%1] : tensor<8xi16>
    affine.yield %13 : tensor<8xi16>
  }
  return %0 : tensor<8xi16>
})"},
  {nullptr, "min-slot-count=32", R"(func.func @f(%a0: tensor<4x4xi16> {secret.secret}) -> (tensor<3x5xi16>) {
  %0 = arith.constant dense<[[-5, 3, 2], [4, -4, 8]]> : tensor<2x3xi16>
  %1 = arith.constant dense<0> : tensor<3x2xi16>
  %2 = linalg.conv_2d ins(%a0, %0 : tensor<4x4xi16>, tensor<2x3xi16>) outs(%1 : tensor<3x2xi16>) -> tensor<3x2xi16>
  %5 = arith.constant dense<[[-4, 7, 8, -5, -1], [-2, 3, 4, 8, -1]]> : tensor<2x5xi16>
  %6 = arith.constant dense<2> : tensor<3x5xi16>
  %7 = linalg.matmul ins(%2, %5 : tensor<3x2xi16>, tensor<2x5xi16>) outs(%6 : tensor<3x5xi16>) -> tensor<3x5xi16>
  return %7 : tensor<3x5xi16>
})"},
};
MON_FAMILY(O04_known, 32, 64) {
  heiropt::ctx(c.index % 8 == 0);
  auto &k = kKnown[c.index % (sizeof kKnown / sizeof *kKnown)];
  Prog p{std::string("module {\n") + k.text + "\n}\n", {}};
  std::string pl = std::string("mlir-to-secret-arithmetic{") + k.opts + "}";
  c.describe(pl + "\n" + p.text);
  checkPacked(c, p, pl, !k.key, k.key);
}
int main(int argc, char **argv) { interp::Interp::exactFloats = true; heiropt::ctx(); return mon::monMain(argc, argv); }
