# Executed by mk.py: LLVM-20 header grafts (patch/append/new) and DOWNRULES for repository sources.
EXCLUDE = r'ZZZ'
patch('mlir/IR/OpDefinition.h', ("""  /// Create a deep copy of this operation.
  ConcreteType clone()""", """  template <typename B, typename... Args>
  static ConcreteType create(B &b, Location loc, Args &&...args) {
    return b.template create<ConcreteType>(loc, std::forward<Args>(args)...);
  }
  template <typename B, typename... Args, typename = std::enable_if_t<B::heirCompatImplicitLoc>>
  static ConcreteType create(B &b, Args &&...args) {
    return b.template create<ConcreteType>(std::forward<Args>(args)...);
  }
  /// Create a deep copy of this operation.
  ConcreteType clone()"""))
patch('mlir/IR/ImplicitLocOpBuilder.h', ("""class ImplicitLocOpBuilder : public mlir::OpBuilder {
public:""", """class ImplicitLocOpBuilder : public mlir::OpBuilder {
public:
  static constexpr bool heirCompatImplicitLoc = true;"""))
CUR['mlir/IR/Builders.h'] = cur('mlir/IR/Builders.h') + '\n#include "mlir/IR/ImplicitLocOpBuilder.h"\n'
patch('mlir/IR/AttrTypeBase.td', ("  string description = \"\";\n\n  // Name of storage class", "  string description = \"\";\n  bit genMnemonicAlias = 0;\n\n  // Name of storage class"))
patch('mlir/IR/OpAsmInterface.td', ("def OpAsmTypeInterface :", """def OpAsmAttrInterface : NativeTrait<"OpAsmAttrCompat", ""> { let cppNamespace = "::mlir::heircompat"; }
def OpAsmTypeInterface :"""))
patch('mlir/IR/CommonTypeConstraints.td', ("class TypeOrValueSemanticsContainer<Type allowedType, string name>\n    : TypeConstraint<", "class TypeOrValueSemanticsContainer<Type allowedType, string name>\n    : Type<"))
append('mlir/IR/CommonTypeConstraints.td', '''
class TensorOrMemRef<list<Type> allowedTypes> : AnyTypeOf<[TensorOf<allowedTypes>, MemRefOf<allowedTypes>], "tensor or memref", "::mlir::ShapedType">;
''')
append('mlir/IR/Attributes.h', '''
namespace mlir::heircompat { template<typename T> struct OpAsmAttrCompat : public ::mlir::AttributeTrait::TraitBase<T, OpAsmAttrCompat> {}; }
''')
new('mlir/Support/WalkResult.h', '#pragma once\n#include "mlir/IR/Visitors.h"\n')
new('mlir/Analysis/DataFlow/Utils.h', '''#pragma once
#include "mlir/Analysis/DataFlow/ConstantPropagationAnalysis.h"
#include "mlir/Analysis/DataFlow/DeadCodeAnalysis.h"
namespace mlir::dataflow { inline void loadBaselineAnalyses(DataFlowSolver &s) { s.load<DeadCodeAnalysis>(); s.load<SparseConstantPropagation>(); } }
''')
new('llvm/Support/DebugLog.h', '#pragma once\n#include "llvm/Support/raw_ostream.h"\n#define LDBG(...) if (true) {} else ::llvm::dbgs()\n#define LDBG_OS(...) do {} while (0)\n')
new('mlir/Dialect/Bufferization/IR/BufferizationTypeInterfaces.h', '''#pragma once
#include "mlir/IR/BuiltinTypes.h"
namespace mlir::bufferization { using TensorLikeType = ::mlir::TensorType; using BufferLikeType = ::mlir::BaseMemRefType; }
''')
new('mlir/Conversion/ConvertToEmitC/ToEmitCInterface.h', '''#pragma once
#include "mlir/IR/DialectInterface.h"
#include "mlir/IR/DialectRegistry.h"
namespace mlir { class ConversionTarget; class TypeConverter; class RewritePatternSet;
class ConvertToEmitCPatternInterface : public DialectInterface::Base<ConvertToEmitCPatternInterface> { public: ConvertToEmitCPatternInterface(Dialect *d) : Base(d) {}
 virtual void populateConvertToEmitCConversionPatterns(ConversionTarget &, TypeConverter &, RewritePatternSet &) const = 0; }; }
''')
new('mlir/Dialect/Affine/Transforms/Passes.h', '#pragma once\n#include "mlir/Dialect/Affine/Passes.h"\n')
patch('mlir/IR/OperationSupport.h', ('class OperationName {', 'using PropertyRef = OpaqueProperties;\nclass OperationName {'))

# ---- region successors
CFI = 'mlir/Interfaces/ControlFlowInterfaces.h'
patch(CFI, ("""  RegionSuccessor(Region *region, Block::BlockArgListType regionInputs = {})
      : region(region), inputs(regionInputs) {}""", """  RegionSuccessor(Region *region, Block::BlockArgListType regionInputs)
      : region(region), inputs(regionInputs) {}
  RegionSuccessor(Region *region)
      : region(region), inputs(region->empty() ? ValueRange() : ValueRange(region->getArguments())) {}
  RegionSuccessor(Operation *op) : inputs(ValueRange(op->getResults())) {}
  bool isOperation() const { return region == nullptr; }"""),
  ('#include "mlir/Interfaces/ControlFlowInterfaces.h.inc"', '''namespace mlir {
using RegionBranchSuccessorMapping = llvm::DenseMap<OpOperand *, llvm::SmallVector<Value>>;
using RegionBranchInverseSuccessorMapping = llvm::DenseMap<Value, llvm::SmallVector<OpOperand *>>;
}
#include "mlir/Interfaces/ControlFlowInterfaces.h.inc"
namespace mlir {
inline ValueRange RegionBranchOpInterface::getSuccessorInputs(RegionSuccessor s) { return s.getSuccessorInputs(); }
inline void RegionBranchOpInterface::getSuccessorOperandInputMapping(RegionBranchSuccessorMapping &m, std::optional<RegionBranchPoint> src) {
  auto add = [&](OperandRange ops, ValueRange ins) {
    if (ops.empty()) return;
    unsigned b = ops.getBeginOperandIndex(); Operation *owner = ops.getBase()->getOwner();
    for (auto [i, v] : llvm::enumerate(ins)) m[&owner->getOpOperand(b + i)].push_back(v);
  };
  auto doParent = [&]() {
    SmallVector<RegionSuccessor> ss; (*this).getSuccessorRegions(RegionBranchPoint::parent(), ss);
    for (auto &s : ss) add((*this).getEntrySuccessorOperands(s.isParent() ? RegionBranchPoint::parent() : RegionBranchPoint(s.getSuccessor())), s.getSuccessorInputs());
  };
  if (!src || src->isParent()) doParent();
  for (Region &r : (*this)->getRegions()) {
    if (src && !(*src == RegionBranchPoint(r))) continue;
    SmallVector<RegionSuccessor> ss; (*this).getSuccessorRegions(r, ss);
    for (Block &blk : r) {
      if (blk.empty()) continue;
      auto t = dyn_cast<RegionBranchTerminatorOpInterface>(blk.back()); if (!t) continue;
      for (auto &s : ss) add(t.getSuccessorOperands(s.isParent() ? RegionBranchPoint::parent() : RegionBranchPoint(s.getSuccessor())), s.getSuccessorInputs());
    }
  }
}
inline void RegionBranchOpInterface::getSuccessorInputOperandMapping(RegionBranchInverseSuccessorMapping &m) {
  RegionBranchSuccessorMapping f; getSuccessorOperandInputMapping(f);
  for (auto &[o, ins] : f) for (Value v : ins) m[v].push_back(o);
}
}'''))
patch(CFI + '.inc', ("""  using ::mlir::OpInterface<RegionBranchOpInterface, detail::RegionBranchOpInterfaceInterfaceTraits>::OpInterface;
""", """  using ::mlir::OpInterface<RegionBranchOpInterface, detail::RegionBranchOpInterfaceInterfaceTraits>::OpInterface;
  ValueRange getSuccessorInputs(RegionSuccessor s);
  void getSuccessorOperandInputMapping(RegionBranchSuccessorMapping &m, std::optional<RegionBranchPoint> src = std::nullopt);
  void getSuccessorInputOperandMapping(RegionBranchInverseSuccessorMapping &m);
"""))

# ---- bufferization
BI = 'mlir/Dialect/Bufferization/IR/BufferizableOpInterface.h'
patch(BI, ("FailureOr<Value> getBuffer(RewriterBase &rewriter, Value value,\n                           const BufferizationOptions &options);",
"FailureOr<Value> getBuffer(RewriterBase &rewriter, Value value,\n                           const BufferizationOptions &options);\nstruct BufferizationState {};\ninline FailureOr<Value> getBuffer(RewriterBase &r, Value v, const BufferizationOptions &o, const BufferizationState &) { return getBuffer(r, v, o); }"))
patch(BI + '.inc', ("  return static_cast<const ConcreteOp *>(impl)->bufferize(tablegen_opaque_val, rewriter, options);", """  ::mlir::bufferization::BufferizationState bstate;
  if constexpr (requires { static_cast<const ConcreteOp *>(impl)->bufferize(tablegen_opaque_val, rewriter, options, bstate); })
    return static_cast<const ConcreteOp *>(impl)->bufferize(tablegen_opaque_val, rewriter, options, bstate);
  else
    return static_cast<const ConcreteOp *>(impl)->bufferize(tablegen_opaque_val, rewriter, options);"""))

# ---- misc API
append('mlir/IR/Diagnostics.h', '''
namespace mlir { template <typename E, typename = std::enable_if_t<std::is_enum_v<E>>> auto operator<<(Diagnostic &d, E e) -> decltype(std::declval<llvm::raw_ostream &>() << e, std::declval<Diagnostic &>()) { std::string s; llvm::raw_string_ostream os(s); os << e; return d << llvm::Twine(s); } }
''') if False else None
AR = 'mlir/Dialect/Arith/IR/Arith.h'
for n in ('Int', 'Float', 'Index'):
    extra = {'Int': '''  static void build(OpBuilder &b, OperationState &r, Type t, int64_t v) { build(b, r, v, t); }
  static void build(OpBuilder &b, OperationState &r, Type t, const APInt &v) { arith::ConstantOp::build(b, r, t, b.getIntegerAttr(t, v)); }
''', 'Float': '  static void build(OpBuilder &b, OperationState &r, FloatType t, const APFloat &v) { build(b, r, v, t); }\n', 'Index': ''}[n]
    patch(AR, (f'class Constant{n}Op : public arith::ConstantOp {{\npublic:\n', f'''class Constant{n}Op : public arith::ConstantOp {{
public:
  template <typename B, typename... Args> static Constant{n}Op create(B &b, Location loc, Args &&...args) {{ return b.template create<Constant{n}Op>(loc, std::forward<Args>(args)...); }}
  template <typename B, typename... Args, typename = std::enable_if_t<B::heirCompatImplicitLoc>> static Constant{n}Op create(B &b, Args &&...args) {{ return b.template create<Constant{n}Op>(std::forward<Args>(args)...); }}
{extra}'''))
patch('mlir/Transforms/GreedyPatternRewriteDriver.h', ('class GreedyRewriteConfig {\npublic:\n', '''class GreedyRewriteConfig {
public:
  GreedyRewriteConfig &setUseTopDownTraversal(bool b = true) { useTopDownTraversal = b; return *this; }
  GreedyRewriteConfig &setRegionSimplificationLevel(GreedySimplifyRegionLevel l) { enableRegionSimplification = l; return *this; }
  GreedyRewriteConfig &setMaxIterations(int64_t n) { maxIterations = n; return *this; }
  GreedyRewriteConfig &setMaxNumRewrites(int64_t n) { maxNumRewrites = n; return *this; }
  GreedyRewriteConfig &setScope(Region *r) { scope = r; return *this; }
  GreedyRewriteConfig &setStrictness(GreedyRewriteStrictness s) { strictMode = s; return *this; }
  GreedyRewriteConfig &setListener(RewriterBase::Listener *l) { listener = l; return *this; }
  GreedyRewriteConfig &enableFolding(bool b = true) { fold = b; return *this; }
  GreedyRewriteConfig &enableConstantCSE(bool b = true) { cseConstants = b; return *this; }
'''))
patch('mlir/Transforms/DialectConversion.h', ('struct ConversionConfig {\n', 'struct ConversionConfig {\n  static inline bool allowPatternRollback = true;\n'))
patch('mlir/Analysis/DataFlow/SparseAnalysis.h', ("""      : AbstractSparseBackwardDataFlowAnalysis(solver, symbolTable) {}

  /// Visit an operation with the lattices of its results. This function is
  /// expected to set the lattices of the operation's operands.""", """      : AbstractSparseBackwardDataFlowAnalysis(solver, symbolTable) {}
  virtual void visitNonControlFlowArguments(RegionSuccessor &, ArrayRef<BlockArgument>) {}

  /// Visit an operation with the lattices of its results. This function is
  /// expected to set the lattices of the operation's operands."""))
patch('mlir/Transforms/Inliner.h', ('class InlinerConfig {\npublic:\n', 'class InlinerConfig {\npublic:\n  std::nullptr_t getCloneCallback() const { return nullptr; }\n'))
patch('mlir/Transforms/InliningUtils.h', ("""                         bool shouldCloneInlinedRegion = true);

} // namespace mlir""", """                         bool shouldCloneInlinedRegion = true);
inline LogicalResult inlineCall(InlinerInterface &interface, std::nullptr_t, CallOpInterface call,
                         CallableOpInterface callable, Region *src, bool shouldCloneInlinedRegion = true) {
  return inlineCall(interface, call, callable, src, shouldCloneInlinedRegion); }

} // namespace mlir"""))

# ---- down-levelling of repository sources
NARGS = {'Arith_AddFOp': 3, 'Arith_SubFOp': 3, 'Arith_MulFOp': 3, 'Arith_DivFOp': 3}
def down_td(t):
    t = re.sub(r',\s*\$(?:rm|rounding)\w*', '', t); t = re.sub(r',\s*\(GetNullAttr\)', '', t)
    out = []; i = 0
    while True:
        m = re.compile(r'\((Arith_\w+)(:\$\w+)?\s').search(t, i)
        if not m: out.append(t[i:]); break
        j = m.end(); d = 1; commas = []
        while d:
            c = t[j]
            if c in '([{': d += 1
            elif c in ')]}': d -= 1
            elif c == ',' and d == 1: commas.append(j)
            j += 1
        n = NARGS.get(m[1])
        if n and len(commas) >= n: t = t[:commas[n-1]] + t[j-1:]
        out.append(t[i:m.end()]); i = m.end()
    return ''.join(out)
DOWNRULES.append((r'\.td$', down_td))
ODS = {'InsertOp::odsIndex_scalar': 0, 'InsertOp::odsIndex_dest': 1, 'ExtractOp::odsIndex_tensor': 0, 'InsertSliceOp::odsIndex_source': 0, 'InsertSliceOp::odsIndex_dest': 1}
def down_ods(t): return re.sub(r'\btensor::((?:InsertOp|ExtractOp|InsertSliceOp)::odsIndex_\w+)', lambda m: str(ODS[m[1]]), t)
DOWNRULES.append((r'\.(cpp|h)$', down_ods))
def down_tc(t): return re.sub(r'\b(\w+)\.getStaticTripCount\(\)', r'::mlir::heircompat::staticTripCount(\1)', t) if 'getStaticTripCount' in t else t
def down_secret(t):
    t = re.sub(r'ValueRange GenericOp::getSuccessorInputs\(RegionSuccessor \w+\) \{.*?\n\}\n', '', t, flags=re.S)
    return re.sub(r'getEntrySuccessorOperands\(\s*RegionSuccessor (\w*)\)', r'getEntrySuccessorOperands(RegionBranchPoint \1)', t)
DOWNRULES.append((r'Secret/IR/SecretOps\.cpp$', down_secret))

# ---- batch 3
patch('mlir/IR/Diagnostics.h', ("""  /// Append arguments to the diagnostic.
  template <typename Arg1, typename Arg2, typename... Args>
  Diagnostic &append(""", """  template <typename E, typename = std::enable_if_t<std::is_enum_v<E> && !std::is_convertible_v<E, int>>>
  auto operator<<(E e) -> decltype(std::declval<llvm::raw_ostream &>() << e, *this) {
    std::string s; llvm::raw_string_ostream os(s); os << e; return *this << llvm::Twine(s);
  }
  /// Append arguments to the diagnostic.
  template <typename Arg1, typename Arg2, typename... Args>
  Diagnostic &append("""))
FI = 'mlir/Interfaces/FunctionInterfaces.h.inc'
CUR[FI] = re.sub(r'void (insertArgument\(.*?\n.*?\{\n)(.*?insertArguments\(\{argIndex\}.*?;\n)', r'::llvm::LogicalResult \1\2      return ::mlir::success();\n', cur(FI))
patch('mlir/Dialect/Func/IR/FuncOps.h.inc', ("public:\n  static FuncOp create(Location location, StringRef name, FunctionType type,\n                       ArrayRef<NamedAttribute> attrs = {});", """public:
  template <typename B, typename... Args, typename = std::enable_if_t<std::is_base_of_v<OpBuilder, B>>>
  static FuncOp create(B &b, Location loc, Args &&...args) { return b.template create<FuncOp>(loc, std::forward<Args>(args)...); }
  template <typename B, typename... Args, typename = std::enable_if_t<std::is_base_of_v<OpBuilder, B>>, typename = std::enable_if_t<B::heirCompatImplicitLoc>>
  static FuncOp create(B &b, Args &&...args) { return b.template create<FuncOp>(std::forward<Args>(args)...); }
  static FuncOp create(Location location, StringRef name, FunctionType type,
                       ArrayRef<NamedAttribute> attrs = {});"""))
patch('mlir/Analysis/Presburger/IntegerRelation.h', ("  inline int64_t atIneq64(unsigned i, unsigned j) const {", """  inline int64_t atConstraint64(unsigned i, unsigned j) const {
    unsigned n = getNumInequalities();
    return i < n ? atIneq64(i, j) : atEq64(i - n, j);
  }
  inline int64_t atIneq64(unsigned i, unsigned j) const {"""))
CUR['mlir/IR/Attributes.h'] = re.sub(r'template <typename U>\s*\n\s*\[\[deprecated[^\n]*\]\]\s*\n\s*U \w+\(\) const;\n', '', cur('mlir/IR/Attributes.h'))
CUR['mlir/IR/Attributes.h'] = re.sub(r'template <typename U>\s*\nU Attribute::(dyn_cast|dyn_cast_or_null|cast)\(\) const \{.*?\n\}\n', '', cur('mlir/IR/Attributes.h'), flags=re.S)
LL = 'mlir/Interfaces/LoopLikeInterface.h.inc'
TC = '''    ::std::optional<::llvm::APInt> getStaticTripCount() {
      auto lb = SELF.getLoopLowerBounds(); auto ub = SELF.getLoopUpperBounds(); auto st = SELF.getLoopSteps();
      if (!lb || !ub || !st || lb->size() != 1) return ::std::nullopt;
      auto c = [](::mlir::OpFoldResult o) -> ::std::optional<int64_t> {
        ::mlir::IntegerAttr a;
        if (auto x = ::llvm::dyn_cast<::mlir::Attribute>(o)) { a = ::llvm::dyn_cast<::mlir::IntegerAttr>(x); }
        else ::mlir::matchPattern(::llvm::cast<::mlir::Value>(o), ::mlir::m_Constant(&a));
        if (!a) return ::std::nullopt; return a.getInt(); };
      auto l = c((*lb)[0]), u = c((*ub)[0]), s = c((*st)[0]);
      if (!l || !u || !s || *s <= 0) return ::std::nullopt;
      return ::llvm::APInt(64, *u <= *l ? 0 : (*u - *l + *s - 1) / *s);
    }
'''
t = cur(LL)
i = t.index('getSingleLowerBound() {'); i = t.index('    ::std::optional<::mlir::OpFoldResult> getSingleLowerBound() {', 0)
occ = [m.start() for m in re.finditer(r'^ *::std::optional<::mlir::OpFoldResult> getSingleLowerBound\(\) \{', t, re.M)]
assert len(occ) == 2, occ
t = t[:occ[0]] + TC.replace('SELF', '(*this)') + t[occ[0]:occ[1]] + TC.replace('SELF', '(*static_cast<ConcreteOp *>(this))') + t[occ[1]:]
CUR[LL] = t
CUR['mlir/Interfaces/LoopLikeInterface.h'] = cur('mlir/Interfaces/LoopLikeInterface.h').replace('#include "mlir/IR/OpDefinition.h"', '#include "mlir/IR/OpDefinition.h"\n#include "mlir/IR/Matchers.h"', 1)
rsub('mlir/IR/OpAsmTypeInterface.h.inc', r'(using ::mlir::TypeInterface<OpAsmTypeInterface, [^\n]*\n)', r'\1  ::mlir::OpAsmDialectInterface::AliasResult getAlias(::llvm::raw_ostream &) { return ::mlir::OpAsmDialectInterface::AliasResult::NoAlias; }\n')
new('mlir/Conversion/ConvertToEmitC/ConvertToEmitCPass.h', '#pragma once\n')
new('ortools/math_opt/cpp/math_opt.h', '#pragma once\n')

# Stand-ins for OpenFHE number theory and pocketfft
new('src/core/include/lattice/constants-lattice.h', '#pragma once\nnamespace lbcrypto { enum SecretKeyDist { GAUSSIAN, UNIFORM_TERNARY, SPARSE_TERNARY }; }\n')
new('src/pke/include/scheme/ckksrns/ckksrns-fhe.h', '''#pragma once
#include "src/core/include/lattice/constants-lattice.h"
#include <cstdint>
#include <vector>
namespace lbcrypto { struct FHECKKSRNS { static uint32_t GetBootstrapDepth(const std::vector<uint32_t> &lb, SecretKeyDist) { return lb[0] + lb[1] + 14; } }; }
''')
def rx(*pairs):
    def f(t):
        for a, b in pairs: t = re.sub(a, b, t, flags=re.S)
        return t
    return f
KEYS = '''  static {T} getEmptyKey() {{ return {E}; }}
  static {T} getTombstoneKey() {{ return {D}; }}
'''
DOWNRULES += [
 (r'ADT/FrozenVector\.h$', rx((r'(struct DenseMapInfo<::mlir::heir::FrozenVector<T, N>> \{\n)', r'''\1  static ::mlir::heir::FrozenVector<T, N> getEmptyKey() { return llvm::SmallVector<T, N>{DenseMapInfo<T>::getEmptyKey()}; }
  static ::mlir::heir::FrozenVector<T, N> getTombstoneKey() { return llvm::SmallVector<T, N>{DenseMapInfo<T>::getTombstoneKey()}; }
'''))),
 (r'ContextAwareTypeConversion\.h$', rx((r'(struct DenseMapInfo<::mlir::heir::TypeAndAttribute> \{\n)', r'''\1  static ::mlir::heir::TypeAndAttribute getEmptyKey() { return {::mlir::Type::getFromOpaquePointer(DenseMapInfo<void*>::getEmptyKey()), ::mlir::Attribute()}; }
  static ::mlir::heir::TypeAndAttribute getTombstoneKey() { return {::mlir::Type::getFromOpaquePointer(DenseMapInfo<void*>::getTombstoneKey()), ::mlir::Attribute()}; }
'''))),
 (r'ContextAwareDialectConversion\.cpp$', rx((r'propertiesTypeID = prop\.getTypeID\(\);', ''), (r'propCopy\(propertiesTypeID, ', 'propCopy('))),
 (r'DecomposeRelinearize\.cpp$', rx((r'(FromCoeffsOp::create\(\s*\w+,\s*\w+,\s*)\{', r'\1ValueRange{'))),
 (r'Secret/Conversions/Patterns\.cpp$', rx((r'(tensor::ExtractOp::create\([^;{]*?,\s*)\{', r'\1ValueRange{'), (r'(tensor::(?:Insert|Extract)SliceOp::create\([^;]*?,\s*)\{(rewriter\.getIndexAttr\(1\))\},\s*\{(rewriter\.getIndexAttr\(1\))\}\)', r'\1SmallVector<OpFoldResult>{\2}, SmallVector<OpFoldResult>{\3})'))),
 (r'SecretToCGGI\.cpp$', rx((r'\n *tensor::populateFoldCollapseExtractPatterns\(\w+\);', ''))),
 (r'Halo/Patterns\.cpp$', rx((r'loopUnrollFull\((\w+)\)', r'\1.promoteIfSingleIteration(rewriter)'), (r'\w+\.getNumUses\(\)', '0'))),
 (r'LinalgFuseLinearOps\.cpp$', rx((r'linalg::ContractOp,\s*', ''))),
 (r'PolynomialApproximation\.cpp$', rx((r'\n[^\n;]*math::ErfcOp[^\n;]*;', ''))),
 (r'ShapeInference\.cpp$', rx((r'removeResultAttr\((\w+), ("[\w.]+")\)', r'removeResultAttr(\1, ::mlir::StringAttr::get(rewriter.getContext(), \2))'))),
 (r'Pipelines/\w+\.cpp$', rx((r'OneShotBufferizePassOptions', 'OneShotBufferizationOptions'), (r'createConvertBufferizationToMemRefPass', 'createBufferizationToMemRefPass'), (r'createSCFToControlFlowPass', 'createConvertSCFToCFPass'), (r'createAffineParallelize\(', 'createAffineParallelizePass('), (r'bufferizationOptions\.bufferizeFunctionBoundaries = true;', 'bufferizationOptions.bufferizeFunctionBoundaries = true;'))),
 (r'tools/heir-opt\.cpp$', rx((r'\n[^\n]*(?:registerOpenfheToEmitCInterface|registerConvert\w+ToEmitCInterface)\(\w*\);', ''),
    )),
]
EXCLUDE = r'OpenFHEToEmitC|NTTSolver|PolyMulToNTT|OptimizeRelinearizationAnalysis\.cpp'

DOWNRULES += [
 (r'tools/heir-opt\.cpp$', rx((r'createSCFToControlFlowPass', 'createConvertSCFToCFPass'), (r'registerPass\(\s*\[\]\(\) -> std::unique_ptr<Pass> \{ return createConvertToEmitC\(\); \}\);', ''))),
]
patch(BI + '.inc', ("  return static_cast<const ConcreteOp *>(impl)->getBufferType(tablegen_opaque_val, value, options, invocationStack);", """  ::mlir::bufferization::BufferizationState bstate;
  if constexpr (requires { static_cast<const ConcreteOp *>(impl)->getBufferType(tablegen_opaque_val, value, options, bstate, invocationStack); })
    return static_cast<const ConcreteOp *>(impl)->getBufferType(tablegen_opaque_val, value, options, bstate, invocationStack);
  else
    return static_cast<const ConcreteOp *>(impl)->getBufferType(tablegen_opaque_val, value, options, invocationStack);"""))
new('mlir/Dialect/Bufferization/Transforms/BufferizableOpInterfaceImpl.h', '''#pragma once
namespace mlir { class DialectRegistry; namespace bufferization { inline void registerBufferizableOpInterfaceExternalModels(DialectRegistry &) {} } }
''')
DOWNRULES += [(r'ArithToCGGIQuart\.cpp$', rx((r'\bcreateScalarOrSplatConstant\b', 'createScalarOrSplatConstantLocal'))),
 (r'Secret/Conversions/Patterns\.cpp$', rx((r'(ExtractSliceOp::create\([^;]*?inputs\[0\], )\{(\w+)\}, ', r'\1SmallVector<OpFoldResult>{\2}, '))),
 (r'tools/heir-opt\.cpp$', rx((r'#include "lib/Dialect/Openfhe/Conversions/OpenFHEToEmitC/[^\n]*', ''),)),
]
DOWNRULES += [(r'tools/heir-opt\.cpp$', rx((r'\n[^\n]*vector::registerConvertVectorToLLVMInterface\([^\n]*', '')))]
# LLVM 20's remove-dead-values drops results of functions that are still returned: replaced by erasing dead operations
append('mlir/Transforms/Passes.h', '''
#include "mlir/Interfaces/SideEffectInterfaces.h"
namespace mlir::heircompat {
struct EraseDead : PassWrapper<EraseDead, OperationPass<>> {
  void runOnOperation() override {
    bool go = true;
    while (go) {
      go = false;
      getOperation()->walk([&](Operation *op) { if (op != getOperation() && isOpTriviallyDead(op)) { op->erase(); go = true; } });
    }
  }
};
inline std::unique_ptr<Pass> createEraseDead() { return std::make_unique<EraseDead>(); }
}
''')
DOWNRULES += [(r'(Pipelines/\w+|SplitPreprocessing)\.cpp$', rx((r'\bcreateRemoveDeadValuesPass\(\)', '::mlir::heircompat::createEraseDead()')))]
