"""What decides each property."""
import importlib, sys
import vt

CPP = {}
CLAIMS = {}
NOT_APPLICABLE = {}
SANTECH = 'runtime monitoring: sanitized (ASan+UBSan) randomized workload with an online oracle'
def claim(pid, note, tech=SANTECH): CLAIMS[pid] = (tech, note)
def cpp(pid, note, tech=SANTECH, **kw):
    CPP[pid] = kw
    claim(pid, note, tech)

cpp('G01', 'Every generated graph/history is compared with definitions computed on a plain adjacency set; assurance is limited to the generated graphs (up to 60 vertices).', harness='graph', labels=['lib/Utils/Graph:Graph'],
    rule='a case is one generated graph or mutation history; non-trivial cases are distinct by their full vertex/edge text')

KSRC = ['lib/Kernel/EvalVisitor.cpp', 'lib/Kernel/RotationCountVisitor.cpp', 'lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp', 'lib/Utils/APIntUtils.cpp', 'lib/Utils/MathUtils.cpp']
def kern(pid, note): cpp(pid, note, harness='kernels', srcs=KSRC, args=['--match', pid + '_'], rule='a case is one kernel instance or DAG with its data; non-trivial cases are distinct by their full parameters')
kern('K01', 'Kernels are evaluated on packed random data by EvalVisitor and by an independent interpreter; both must equal the plaintext product. Limited to generated shapes (up to 40x40, 256 slots) and 32-bit data.')
kern('K02', 'Kernels are evaluated on random data by EvalVisitor and by an independent interpreter; both must equal the reduction computed directly. Forms without plaintexts are exercised for power-of-two step counts, their documented use.')
kern('K03', 'Kernels are evaluated on operands packed by the bicyclic/tricyclic formulas and compared with the plaintext product in every valid slot. Limited to generated coprime dimensions.')
kern('K04', 'Rotations seen by an independent interpreter are compared with the predicted sets and costs. The static cost is compared for unrolled kernels only: the visitor counts loop-carried values as plaintext by design.')
kern('K05', 'Random well-typed DAGs (loops, branches, sharing) are evaluated by EvalVisitor and by an independent cache-free interpreter. Division is compared on non-negative dividends; power and bulk-rotation nodes are not evaluated by EvalVisitor.')

PSRC = ['lib/Utils/Polynomial/Polynomial.cpp', 'lib/Utils/Polynomial/ChebyshevDecomposition.cpp', 'lib/Utils/Approximation/CaratheodoryFejer.cpp', 'lib/Utils/Approximation/Chebyshev.cpp']
def poly(pid, note): cpp(pid, note, harness='poly', srcs=PSRC, args=['--match', pid + '_'], rule='a case is one polynomial, circuit or function with its parameters; non-trivial cases are distinct by all of them')
poly('P01', 'Circuits are evaluated in extended precision and compared with the polynomial; limited to the generated degrees (up to 150, 400 thorough). Bounds on multiplications and depth are of the documented order, not the exact cost of the present split.')
poly('P02', 'Integer and dyadic operations are compared exactly with a map model; Chebyshev conversions within rounding. Limited to generated sizes.')
poly('P03', 'Errors are measured on 401 points for a catalogue of smooth functions with random parameters; the FFT library is replaced by a direct DFT.')

ASRC = ['lib/Utils/Polynomial/NTT.cpp', 'lib/Utils/APIntUtils.cpp', 'lib/Utils/MathUtils.cpp', 'lib/Utils/LogArithmetic.cpp']
def arith(pid, note): cpp(pid, note, harness='arith', srcs=ASRC, args=['--match', pid + '_'], rule='a case is one operand tuple (modulus, root, coefficients, width...); non-trivial cases are distinct by all of them')
arith('A01', 'Transforms are compared with the defining sums and with schoolbook negacyclic products in 128-bit arithmetic; rings up to 2^13 (2^15 thorough), moduli up to 64 bits.')
arith('A02', 'Results are checked with an arbitrary-precision library and with proven primes; limited to generated widths (up to about 260 bits) and, for factoring and roots, moduli that factor quickly.')
arith('A03', 'Results are compared with extended-precision arithmetic on the represented numbers, alone and along random histories.')

NSRC = ['lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp', 'lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp', 'lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp',
        'lib/Analysis/NoiseAnalysis/BFV/NoiseByBoundCoeffModel.cpp', 'lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp', 'lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp',
        'lib/Analysis/NoiseAnalysis/Noise.cpp', 'lib/Parameters/BGV/Params.cpp', 'lib/Parameters/CKKS/Params.cpp', 'lib/Parameters/RLWEParams.cpp', 'lib/Parameters/RLWESecurityParams.cpp',
        'lib/Utils/LogArithmetic.cpp', 'lib/Utils/MathUtils.cpp', 'lib/Utils/APIntUtils.cpp']
def noise(pid, note): cpp(pid, note, harness='noise', srcs=NSRC, args=['--match', pid + '_'], rule='a case is one parameter set with operand noises, or one simulated program; non-trivial cases are distinct by all of them')
noise('N01', 'Estimates are compared with the documented formulas in extended precision and with the noise of simulated BGV/BFV programs on small rings (up to 128 coefficients).')
noise('N02', 'Chains are re-proved prime, distinct, congruent and within the security table; the prime generator of the external library is replaced by an equivalent stand-in.')

LSRC = ['lib/Utils/Layout/' + f + '.cpp' for f in ('Utils', 'Convolution', 'Hoisting', 'IslConversion')] + ['lib/Utils/MathUtils.cpp', 'lib/Utils/APIntUtils.cpp']
def layout(pid, note): cpp(pid, note, harness='layout', srcs=LSRC, args=['--match', pid + '_'], rule='a case is one layout, convolution or reshaping with its shapes; non-trivial cases are distinct by all of them')
layout('L01', 'Enumerated points are compared with the documented slot formulas and packed tensors are unpacked again; limited to generated shapes (a few hundred elements, up to 512 slots).')
layout('L02', 'Packed filters are multiplied with packed inputs slot by slot and compared with a direct convolution; limited to generated shapes (up to 6x6 data, 3 channels in, 18 out).')
layout('L03', 'Relations returned by the helpers are enumerated and compared with doing the operation on indices; limited to generated shapes.')

cpp('L04', 'Planned rounds are replayed and checked for collisions, and the network is run on random values; limited to generated mappings (up to 256 virtual slots). Reaches sources the normal build cannot compile by grafting newer LLVM interfaces onto the installed ones.',
    harness='shift', labels=['lib/Dialect/TensorExt/Transforms:ImplementShiftNetwork', 'lib/Kernel:EvalVisitor'], flavour='ovl', rule='a case is one mapping (or history of mappings) with its shift order; non-trivial cases are distinct by all of them')

cpp('M01', 'Flattened indices, affine maps, reassociations, emitted index expressions and emitted copy loops are evaluated and compared with row-major arithmetic; limited to the generated shapes.',
    harness='index', srcs=['lib/Transforms/MemrefToArith/Utils.cpp', 'lib/Utils/AffineMapUtils.cpp', 'lib/Utils/TargetUtils.cpp', 'lib/Utils/TensorUtils.cpp'],
    rule='a case is one shape with its strides, offset and index, one affine map, or one slice; non-trivial cases are distinct by all of them')

claim('F01', 'Generated functions are emitted and interpreted; results must equal interpreting the function at the inferred types, and plain Python when nothing overflows. Loops and conditionals that are not supported may be refused but not mistranslated. Division of negative numbers is a recorded finding.',
      'runtime monitoring: differential execution of generated functions against the emitted program, with type and well-formedness monitors')

claim('F02', 'Generated signatures, histories of client calls and compilations are run through the real frontend, with recording stand-ins for the compiler binaries and the compiled module; every value that reaches the compiled function is compared with the one supplied.',
      'runtime monitoring: randomized client histories against recording stand-ins with an online protocol oracle')
claim('F03', 'Configurations are resolved in generated scratch environments and compared with the documented order of preference; tools are scripts that record their arguments and fail on demand, by exit code or signal.',
      'runtime monitoring: fault-injecting stand-in tools and scratch environments with an online oracle')
claim('S01', 'Generated test files, targets, release histories, moduli, repositories and documents are run through the real scripts with stand-ins for bazel, git and PyPI; all test files of the repository are converted as well.',
      'runtime monitoring: randomized inputs to the scripts with recording stand-ins and an online oracle')

claim('T01', 'Target descriptions are generated, compiled with the real emitter into the real registry, and looked up, overridden, validated and applied through histories of calls; the oracle is llvm-tblgen reading the same description. Modules naming several backends and non-signless or wide integers are not judged.',
      'runtime monitoring: sanitized generated registries under randomized lookups and overrides, with an independent description reader as oracle')

claim('O01', 'Random programs are run before and after each pass, on random inputs, by an interpreter that reports undefined behaviour; returned values, memory visible to the caller and calls to external functions are compared. Programs with undefined executions are dropped; unroll-and-forward is run on affine loops over initialised buffers only.',
      'runtime monitoring: differential execution of random programs before and after each sanitized pass, with an undefined-behaviour-aware interpreter')

claim('O02', 'Random programs on secret and public values are run before and after the converting passes, on inputs that differ only in secrets; results must stay equal, and the branches, trip counts and indices seen afterwards may depend on public values only. Loops declare their bounds; tensors are one-dimensional (documented limit); conditionals around loops may be refused with a message.',
      'runtime monitoring: differential execution before and after each sanitized pass, and a noninterference monitor over recorded traces of branches, loops and indices')

claim('U01', 'The 11 natively buildable unit tests run under address and undefined-behaviour sanitizers with pattern-initialised variables, and uninstrumented under valgrind, in order, shuffled and repeated; 14 more run uninstrumented with grafted LLVM interfaces. A test that the original build cannot pass either is not judged.',
      'runtime monitoring: unit tests under sanitizers and valgrind, in shuffled and repeated orders')

claim('E01', 'Random modules over the shortint, levelled, boolean, packed and high-level dialects are translated by the real emitters; the Rust text is compiled against cleartext stand-ins for tfhe and rayon (integers modulo 2^k; parallel items in shuffled order), run, and compared with interpreting the module. Also checked: names, the metadata JSON against the types, resource files, const qualifiers against direct writes. A diagnostic or a loud rejection by rustc is accepted for rare shapes; undeclared or duplicate names never.',
      'runtime monitoring: generated programs compiled against cleartext stand-ins and run, compared with interpreting the module')

claim('O04', 'The whole compiler is built from the current tree (assertions on) and random tensor programs are taken through mlir-to-secret-arithmetic; the generated encrypt, compute and decrypt functions are executed over slots and compared with the original program on random inputs. Programs chain elementwise arithmetic, linear algebra, reductions, slicing and loops inside the shapes the compiler supports; eleven miscompiled shapes are recorded findings, probed one by one.',
      'runtime monitoring: differential execution of random tensor programs against their packed, rotated and masked form')

claim('O05', 'The whole compiler is built from the current tree (assertions on) and random tensor programs are taken through mlir-to-ckks, -bgv and -bfv and on to OpenFHE and Lattigo, under varied options. The result is executed by a machine that holds cleartext values together with the level, scale, dimension and keys of each ciphertext and checks every operation; decrypted results are compared with the original program. Refusals and compiler crashes are counted, not judged; loops only reach the ckks scheme level.',
      'runtime monitoring: execution of the scheme, OpenFHE and Lattigo programs by an online checker of level, scale, dimension, key and in-place discipline')
claim('O06', 'The real tools are built from the current tree and every tool invocation of the textual examples is recorded and repeated with other heap layouts and without threads; outputs are compared byte by byte, and every output and intermediate program is read back, directly and through the generic form. Limited to the examples of the repository; the integer-programming and circuit-synthesis passes are left out (their solvers are stand-ins here).',
      'runtime monitoring: repeated compilations under perturbed heap layouts and thread schedules, with byte-for-byte and read-back oracles')
claim('U02', 'The 726 documented command lines that pass with the installed LLVM are run on tools built from the current tree (assertions on, freed and fresh memory filled with patterns) and their output is checked by FileCheck or by the expected diagnostics. About 200 other command lines cannot be judged with this LLVM and are left out.',
      'runtime monitoring: documented examples run on an assertion-enabled build under perturbed heaps, output checked against the documented text')

def run(pid):
    if pid == 'setup':
        import setup_all
        return setup_all.main()
    if pid in CPP: vt.cpp_check(pid, **CPP[pid])
    else:
        importlib.import_module('checks.' + pid.lower()).main(pid)
