"""Writes /verif/properties.jsonl (the text of the properties is kept here, one call each)."""
import json, os
OUT = []
def P(id, title, statement, over, text, why, files, mech, observe, hook=None):
    OUT.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()), 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': hook}})

P('K01', 'Matrix-vector kernels compute the matrix-vector product',
  """For every matrix, vector, slot count and choice of baby-step/giant-step split or rolled/unrolled form, evaluating the diagonal-packed matrix-vector kernels on correctly packed data yields the plaintext matrix-vector product in the slots the output layout assigns.
  Skipping diagonals that are known to be zero never changes the result.""",
  ['inputs', 'programs'], 'all matrices (dense, sparse, with zero diagonals), shapes (square, wide, non-square padded), vectors, BSGS ratios, rolled and unrolled forms',
  'unit tests evaluate a handful of fixed small matrices; the fuzz tests in the tree need fuzztest and are not part of the suite',
  ['lib/Kernel/KernelImplementation.h', 'lib/Utils/RotationUtils.h'],
  [('matvec, baby-step giant-step and Halevi-Shoup kernels', 'lib/Kernel/KernelImplementation.h')], ['value of the evaluated arithmetic DAG'])
P('K02', 'Rotate-and-reduce and ciphertext-product kernels compute the reduction',
  """For every vector length, period, number of steps and reduction operation, the rotate-and-reduce kernels (tree and baby-step/giant-step forms, rolled or not, with or without plaintext multiplicands) produce in the documented slots the reduction of the rotated terms; the dot-product, broadcast-reduce and ciphertext-ciphertext kernels likewise equal their definitions.""",
  ['inputs', 'programs'], 'all tensor sizes, periods, step counts, plaintext operands and reduction operations satisfying the documented preconditions',
  'the tests fix a few (length, period, steps) triples with power-of-two values',
  ['lib/Kernel/KernelImplementation.h'], [('rotate-and-reduce kernels', 'lib/Kernel/KernelImplementation.h')], ['value of the evaluated arithmetic DAG'])
P('K03', 'Bicyclic and tricyclic kernels compute matrix products',
  """For all coprime dimensions accepted by the compiler, the bicyclic matrix-multiplication kernel and the tricyclic batch kernel, evaluated on operands packed with the corresponding layouts, return the (batched) matrix product packed in the result layout.""",
  ['inputs', 'programs'], 'all pairwise coprime dimension triples/quadruples up to the slot count, all matrices',
  'tests use one or two dimension triples; the fuzz tests are not part of the suite',
  ['lib/Kernel/KernelImplementation.h', 'lib/Utils/Layout/Utils.h'], [('bicyclic and tricyclic kernels', 'lib/Kernel/KernelImplementation.h')], ['value of the evaluated arithmetic DAG'])
P('K04', 'Predicted rotations and rotation costs match what a kernel performs',
  """The set of rotation amounts computed for a kernel (used to generate rotation keys) covers every non-zero rotation the kernel performs when it is evaluated, and contains no amount it does not perform.
  The static rotation cost reported for a kernel equals the number of distinct rotations its evaluation performs, each shared sub-expression counted once.""",
  ['inputs', 'programs'], 'all kernels, sizes, zero-diagonal patterns, rolled and unrolled forms',
  'the tests compare one or two sizes against hand-written sets',
  ['lib/Utils/RotationUtils.h', 'lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp', 'lib/Kernel/RotationCountVisitor.cpp'],
  [('rotation index helpers', 'lib/Utils/RotationUtils.h'), ('rotation evaluator', 'lib/Analysis/RotationAnalysis/RotationEvalVisitor.h'), ('cost visitor', 'lib/Kernel/RotationCountVisitor.h')], ['rotations seen while evaluating the DAG'])
P('K05', 'Arithmetic DAG evaluation follows the semantics of its nodes',
  """Evaluating an arithmetic DAG on concrete data equals the direct mathematical meaning of its nodes (sums, differences, products, quotients, powers, cyclic rotations, comparisons, selections, slices, loops and yields), for every DAG built from the public constructors.
  A shared node is evaluated exactly once per visitor run, and evaluation never depends on construction or traversal order.""",
  ['programs', 'inputs'], 'all DAGs over the node types, with arbitrary sharing and loop nesting',
  'tests cover a dozen fixed expressions',
  ['lib/Kernel/ArithmeticDag.h', 'lib/Kernel/EvalVisitor.cpp', 'lib/Kernel/EvalVisitor.h'], [('caching visitor', 'lib/Kernel/ArithmeticDag.h'), ('evaluation visitor', 'lib/Kernel/EvalVisitor.cpp')], ['visitor results and visit counts'])
P('P01', 'Polynomial evaluation circuits evaluate the polynomial',
  """For every list of coefficients and every point of the domain, the Horner, Paterson-Stockmeyer and Chebyshev Paterson-Stockmeyer circuits evaluate to the polynomial (in the monomial or Chebyshev basis) up to floating-point error proportional to the coefficients.
  The Paterson-Stockmeyer forms use a number of non-scalar multiplications of the order of the square root of the degree, and the Chebyshev form a multiplicative depth logarithmic in the degree.""",
  ['inputs', 'programs'], 'all degrees, coefficient patterns (sparse, zero-leading, constant, even/odd) and points',
  'tests pick a few coefficient lists and points',
  ['lib/Utils/Polynomial/Horner.h', 'lib/Utils/Polynomial/PatersonStockmeyer.h', 'lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h', 'lib/Utils/Polynomial/ChebyshevDecomposition.cpp'],
  [('evaluation circuits', 'lib/Utils/Polynomial'), ('coefficient decomposition', 'lib/Utils/Polynomial/ChebyshevDecomposition.cpp')], ['value, multiplication count and depth of the DAG'])
P('P02', 'Polynomial algebra and basis conversion are exact',
  """Sums, differences, products, derivatives, compositions, scalings, shifts and conversions between monomial and Chebyshev bases of polynomials denote the mathematically correct polynomial: evaluating the result at any point equals combining the evaluations of the operands.
  Results are in canonical form (terms sorted, no duplicate exponents), and printing, hashing and comparing respect that identity.""",
  ['inputs'], 'all integer, float and Chebyshev polynomials, including zero, constants and sparse high-degree terms',
  'tests use a few hand-made polynomials',
  ['lib/Utils/Polynomial/Polynomial.cpp', 'lib/Utils/Polynomial/Polynomial.h'], [('polynomial classes', 'lib/Utils/Polynomial/Polynomial.h')], ['polynomial values'])
P('P03', 'Function approximations are accurate on their interval',
  """Chebyshev interpolation and the Carathéodory-Fejér approximation return a polynomial of at most the requested degree whose error on the requested interval is within a small factor of the best polynomial approximation of that degree, for every smooth function, degree and interval; polynomials of that degree are reproduced exactly up to rounding.""",
  ['inputs'], 'smooth functions, degrees and intervals (symmetric, shifted, scaled)',
  'tests check four functions at fixed degrees', ['lib/Utils/Approximation/CaratheodoryFejer.cpp', 'lib/Utils/Approximation/Chebyshev.h'], [('CF approximation', 'lib/Utils/Approximation/CaratheodoryFejer.cpp'), ('Chebyshev interpolation', 'lib/Utils/Approximation/Chebyshev.cpp')], ['error of the returned polynomial'])
P('A01', 'Number-theoretic transforms are inverse and diagonalise multiplication',
  """For every power-of-two size, every suitable prime modulus and every root of unity, the inverse transform undoes the forward transform, and pointwise multiplication between them equals negacyclic polynomial multiplication modulo the prime.
  All values stay reduced modulo the prime.""",
  ['inputs'], 'all sizes, NTT-friendly primes of any supported width, roots and coefficient vectors', 'tests use three moduli and sizes',
  ['lib/Utils/Polynomial/NTT.cpp', 'lib/Utils/APIntUtils.cpp'], [('transforms', 'lib/Utils/Polynomial/NTT.cpp')], ['transform outputs'])
P('A02', 'Modular arithmetic, primality and root search are correct',
  """Modular inverses, modular exponentiation, primality tests, primitive-root search, and the generic integer math helpers return the mathematically correct answer for every input in their documented domain, at every bit width, and report failure exactly when no answer exists.""",
  ['inputs'], 'all moduli, operands and bit widths', 'tests sample a handful of values',
  ['lib/Utils/APIntUtils.cpp', 'lib/Utils/MathUtils.cpp', 'lib/Utils/MathUtils.h'], [('APInt helpers', 'lib/Utils/APIntUtils.cpp'), ('math helpers', 'lib/Utils/MathUtils.cpp')], ['returned values'])
P('A03', 'Log-domain arithmetic matches exact arithmetic',
  """Addition, multiplication, comparison and conversion of numbers represented by their base-two logarithm agree with the same operations on the represented numbers within floating-point rounding, for every magnitude including zero and infinity, and never produce NaN from valid numbers.""",
  ['inputs'], 'all magnitudes and operand pairs', 'tests check a few pairs', ['lib/Utils/LogArithmetic.cpp', 'lib/Utils/LogArithmetic.h'], [('Log2Arithmetic', 'lib/Utils/LogArithmetic.h')], ['returned values'])
P('N01', 'Noise estimates follow their documented formulas and never shrink with more noise',
  """For every parameter set, each BGV and BFV noise model's estimate for encryption, addition, multiplication, relinearization, modulus switching and rotation follows the documented formula of that model, is finite and positive, and is monotone in the noise of its inputs.
  Bound-based models never report less noise than a simulated encryption or homomorphic operation with the same parameters actually incurs.""",
  ['inputs', 'programs'], 'ring dimensions, plaintext moduli, modulus chains, operand noise levels and operation sequences', 'there are no unit tests of these models',
  ['lib/Analysis/NoiseAnalysis/BGV', 'lib/Analysis/NoiseAnalysis/BFV', 'lib/Analysis/NoiseAnalysis/Noise.cpp'], [('noise models', 'lib/Analysis/NoiseAnalysis')], ['estimates'])
P('N02', 'Chosen encryption parameters are secure and usable',
  """Whenever the compiler selects a ring dimension for a modulus size, the pair meets the 128-bit entry of the published homomorphic-encryption security table, and the ring-dimension search returns the smallest supported power of two that does.
  Generated modulus chains consist of distinct primes congruent to one modulo twice the ring dimension (and compatible with the plaintext modulus when asked), with sizes covering the requested levels.""",
  ['configurations', 'inputs'], 'all total modulus sizes, minimal ring dimensions, plaintext moduli, levels and slot counts', 'there are no unit tests of parameter selection',
  ['lib/Parameters/RLWESecurityParams.cpp', 'lib/Parameters/BGV/Params.cpp', 'lib/Parameters/RLWEParams.cpp', 'lib/Parameters/CKKS/Params.cpp'], [('security table', 'lib/Parameters/RLWESecurityParams.cpp'), ('parameter generation', 'lib/Parameters/RLWEParams.cpp')], ['returned parameters'])
P('L01', 'Packing layouts place every data element correctly and lose nothing',
  """For every tensor shape and ciphertext shape, the row-major, per-row, diagonal, bicyclic, tricyclic and padded/replicated layouts map each data element to the slots given by their documented formula, every in-range slot holds at most one element, and unpacking a packed tensor returns it unchanged.
  Layout predicates (equality, density, recognition of a known layout, point counts) agree with the explicit enumeration of the relation.""",
  ['inputs', 'configurations'], 'all tensor ranks/shapes, ciphertext sizes and element values', 'tests fix a few shapes',
  ['lib/Utils/Layout/Utils.cpp', 'lib/Utils/Layout/Utils.h', 'lib/Utils/Layout/Evaluate.cpp', 'lib/Utils/Layout/Evaluate.h', 'lib/Utils/Layout/IslConversion.cpp'],
  [('layout relations', 'lib/Utils/Layout/Utils.cpp'), ('packing evaluation', 'lib/Utils/Layout/Evaluate.h')], ['enumerated relation points', 'packed and unpacked tensors'])
P('L02', 'Convolution layouts turn a convolution into a matrix-vector product',
  """For all input, filter, padding, stride and channel sizes, packing the filter with the convolution layouts and multiplying by the packed input yields, in the slots given by the result layout, exactly the plaintext convolution.""",
  ['inputs', 'configurations'], 'all data/filter shapes, strides, paddings, channel counts, interchange settings', 'tests fix a few shapes',
  ['lib/Utils/Layout/Convolution.cpp', 'lib/Utils/Layout/Convolution.h'], [('convolution relations', 'lib/Utils/Layout/Convolution.cpp')], ['packed matrices and products'])
P('L03', 'Moving a layout through an operation preserves where data ends up',
  """Pushing a layout conversion through matrix-vector products, slice insertion/extraction, reshapes (collapse/expand), shifts and paddings yields a relation under which every data element occupies the same slot as doing the operation and then the conversion.""",
  ['inputs', 'configurations'], 'all layouts and shapes/slices accepted by the helpers', 'tests check a couple of hand-written relations',
  ['lib/Utils/Layout/Hoisting.cpp', 'lib/Utils/Layout/Utils.cpp'], [('hoisters', 'lib/Utils/Layout/Hoisting.cpp')], ['enumerated relation points'])
P('L04', 'Shift networks realise exactly the requested slot permutation',
  """For every mapping of source slots to target slots over any number of ciphertexts, the planned network of rotations and masks moves every requested value to its target slot, and no two values ever collide in a round, whatever shift order is chosen.""",
  ['inputs', 'configurations'], 'all (partial, many-to-one, multi-ciphertext) mappings, sizes and shift orders', 'there are no stable unit tests for this in the suite',
  ['lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp', 'lib/Dialect/TensorExt/Transforms/ShiftScheme.h'], [('shift strategy', 'lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp')], ['simulated rounds'])
P('G01', 'Graph algorithms return what they promise on every graph',
  """On every graph and after every history of vertex/edge insertions and edge contractions, topological orders respect all edges (and fail exactly on cycles), levels are longest-path levels, strongly connected components and the condensation are exact and acyclic, unweighted shortest paths are valid and shortest, and colourings are proper within the greedy bound.
  Adjacency, degree, source and sink queries always agree with the edges present.""",
  ['inputs', 'histories'], 'all directed and undirected graphs and mutation histories', 'tests use a dozen hand-drawn graphs', ['lib/Utils/Graph/Graph.h'], [('graph templates', 'lib/Utils/Graph/Graph.h')], ['returned orders, sets, paths and colours'])
P('M01', 'Index flattening and affine helpers address the right element',
  """Flattening a multi-dimensional index (as a number, an affine map, a generated loop nest or a source expression) maps distinct in-bounds indices to distinct offsets in row-major order, unflattening inverts it, and the affine/tensor shape helpers evaluate to their documented values for every shape, stride and offset.""",
  ['inputs'], 'all shapes, strides, offsets and indices', 'tests check a few constant shapes',
  ['lib/Transforms/MemrefToArith/Utils.cpp', 'lib/Utils/AffineMapUtils.cpp', 'lib/Utils/TensorUtils.cpp', 'lib/Utils/TargetUtils.cpp'], [('flattening', 'lib/Transforms/MemrefToArith/Utils.cpp')], ['returned indices and expressions'])
P('T01', 'Backend constraints are exactly those declared, with later overrides winning',
  """A compilation target declared in a target description is registered under its name with precisely the fields declared, inherited or overridden there, and looking a target up returns it; user overrides of a field change that field only, and unknown targets, fields or ill-typed values are rejected with a diagnostic.""",
  ['configurations', 'inputs'], 'all target declarations, override strings and lookups', 'one golden-file test covers a single declaration',
  ['lib/Target/CompilationTarget/CompilationTarget.cpp', 'lib/Tablegen/CompilationTargetEmitter.cpp', 'lib/Transforms/AnnotateModule/ApplyConfigOverride.cpp', 'lib/Transforms/AnnotateModule/AnnotateModule.cpp'],
  [('registry', 'lib/Target/CompilationTarget/CompilationTarget.cpp'), ('emitter', 'lib/Tablegen/CompilationTargetEmitter.cpp')], ['registered targets', 'generated code', 'annotated modules'])
P('E01', 'Generated source code names and references every value consistently',
  """Source text generated from a module declares every variable before use with a name unique in its scope, refers to each program value by the name it was declared with, and computes the same values as the module; constness annotations never mark as immutable a value the generated code mutates.""",
  ['programs'], 'all modules accepted by the code generators', 'the generators are exercised only by golden files that are not in the stable suite',
  ['lib/Target/TfheRust', 'lib/Target/TfheRustBool', 'lib/Target/TfheRustHL', 'lib/Target/Metadata', 'lib/Analysis/SelectVariableNames', 'lib/Analysis/Cpp/ConstQualifierAnalysis.cpp'],
  [('emitters', 'lib/Target'), ('variable naming', 'lib/Analysis/SelectVariableNames/SelectVariableNames.cpp')], ['emitted text'])
P('F01', 'The Python frontend emits programs equivalent to the Python function',
  """For every supported Python function and every input in range, the intermediate program emitted by the Python frontend is well-typed and computes the same result as running the function in Python with fixed-width integers (or floats), including loops, branches, casts, shifts, tensors and mixed bit widths.
  Unsupported constructs are rejected with an error, never silently mistranslated.""",
  ['programs', 'inputs'], 'all functions in the supported subset, all argument values', 'the frontend tests that compile programs cannot run without the compiler binary, and the others fix a handful of programs',
  ['frontend/heir/mlir_emitter.py', 'frontend/heir/mlir/types.py', 'frontend/heir/pipeline.py'], [('textual emitter', 'frontend/heir/mlir_emitter.py')], ['emitted program and its execution'])
P('F02', 'The client interface never mixes up arguments, keys or results',
  """A value encrypted for one argument is accepted only in that argument's position, plaintext is refused where a ciphertext is required and vice versa, keyword arguments are rejected, and the value reaching the compiled function is exactly the one supplied.
  Signature analysis marks exactly the annotated arguments as secret and keeps the shape of every tensor argument, the original function stays callable and unchanged, compiling one function has no effect on the options or outcome of the next, and a failing step surfaces as an error.""",
  ['inputs', 'histories'], 'all signatures, argument orders, mixes of secret and plain arguments and call histories', 'tests make a few calls',
  ['frontend/heir/backends/cleartext.py', 'frontend/heir/backends/openfhe/backend.py', 'frontend/heir/backends/util/common.py', 'frontend/heir/interfaces.py', 'frontend/heir/mlir/types.py'], [('argument verification', 'frontend/heir/backends/util/common.py')], ['calls and results of the client interface'])
P('F03', 'Toolchain and library configuration resolves in the documented order',
  """For every combination of environment variables, installed files and search paths, the tool and library configuration picks the first existing candidate in the documented order of preference, fails with an error when a required one is missing, and passes exactly the resolved paths, flags and libraries to the tools it runs.
  A failing tool always surfaces as an error carrying its output.""",
  ['configurations'], 'all environment/filesystem combinations and tool outcomes', 'tests cover a few combinations with mocks',
  ['frontend/heir/heir_cli/heir_cli_config.py', 'frontend/heir/heir_cli/heir_cli.py', 'frontend/heir/backends/openfhe/config.py', 'frontend/heir/backends/util/cpp_compiler.py', 'frontend/heir/backends/util/pybind_helpers.py'], [('resolution', 'frontend/heir/heir_cli/heir_cli_config.py')], ['resolved configuration', 'executed commands'])
P('S01', 'Developer scripts reproduce test commands and versions faithfully',
  """Commands derived from a test file's run lines execute the same pipeline of tools, flags, pipes and redirections that the file specifies, with only output-checking stages removed; release versions are always newer than any published one of the same day; coverage reports account for every model exactly once. Generated root tables list primitive roots, author statistics add up, documents get their footers once, and boilerplate is rendered under the requested names without overwriting files.""",
  ['inputs', 'configurations'], 'all run-line layouts, published-version sets, event types and tool outcomes', 'tests check a dozen fixed strings',
  ['scripts/lit_to_bazel_lib.py', 'scripts/e2e_to_bazel_lib.py', 'scripts/get_version.py', 'scripts/torch_ci/entrypoint.py', 'scripts/generate_static_roots.py', 'scripts/author_stats.py', 'scripts/disable_mdformat.py', 'scripts/docs/lit_to_doc.py', 'scripts/templates/templates.py'], [('run-line conversion', 'scripts/lit_to_bazel_lib.py')], ['printed commands, versions and tables'])
P('O01', 'Loop, memory and call clean-up passes preserve program results',
  """Running any of the plaintext clean-up passes (loop unrolling, store-to-load and insert-to-extract forwarding, unused-buffer and unused-call removal, buffer flattening and expansion) on any valid program leaves the values it returns, and the memory it exposes, unchanged on every input, and the output always verifies.""",
  ['programs', 'inputs'], 'all programs over the supported operations, including aliasing, nested loops, calls and branches', 'the existing pass tests are text comparisons on a few inputs and cannot run in the suite here',
  ['lib/Transforms/FullLoopUnroll/FullLoopUnroll.cpp', 'lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp', 'lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp', 'lib/Transforms/UnusedMemRef/UnusedMemRef.cpp', 'lib/Transforms/RemoveUnusedPureCall/RemoveUnusedPureCall.cpp', 'lib/Transforms/MemrefToArith'],
  [('passes', 'lib/Transforms')], ['results of executing the program before and after'])
P('O02', 'Data-oblivious rewrites preserve results and remove secret-dependent control',
  """After the data-oblivious rewrites, no branch, loop bound, loop exit or memory index depends on a secret value, and the program returns the same results as before on every input that respects the declared loop bounds.""",
  ['programs', 'inputs'], 'all programs mixing secret and public conditionals, loops and indexed accesses', 'the existing pass tests are text comparisons on a few inputs and cannot run in the suite here',
  ['lib/Transforms/ConvertIfToSelect', 'lib/Transforms/ConvertSecretForToStaticFor', 'lib/Transforms/ConvertSecretWhileToStaticFor', 'lib/Transforms/ConvertSecretExtractToStaticExtract', 'lib/Transforms/ConvertSecretInsertToStaticInsert'], [('passes', 'lib/Transforms')], ['results of executing the program before and after', 'dependence of control on secrets'])
P('O03', 'Lowering modular and polynomial arithmetic preserves its values',
  """Lowering modular-integer, residue-number-system and polynomial arithmetic (including number-theoretic transforms) to machine integers preserves the mathematical result for every modulus, bit width and operand, including operands at the edges of their range.""",
  ['programs', 'inputs'], 'all moduli, widths, ring polynomials and operands', 'the tests that execute lowered code need the full toolchain and are not in the suite',
  ['lib/Dialect/ModArith/Conversions/ModArithToArith', 'lib/Dialect/Polynomial/Conversions/PolynomialToModArith', 'lib/Dialect/ModArith/Transforms'], [('lowerings', 'lib/Dialect')], ['results of executing lowered programs'])
P('O04', 'Tensor programs keep their meaning through packing into ciphertext slots',
  """For every supported tensor program, the program obtained by assigning layouts and rewriting it in terms of ciphertext slots (rotations, masks and slot-wise arithmetic) returns, after unpacking, the same values as the original on every input.""",
  ['programs', 'inputs'], 'tensor programs over elementwise, reduction, matrix, convolution and slicing operations', 'the end-to-end examples are not in the suite',
  ['lib/Pipelines', 'lib/Transforms/ConvertToCiphertextSemantics', 'lib/Transforms/LayoutPropagation', 'lib/Transforms/LayoutOptimization', 'lib/Dialect/TensorExt'], [('pipelines', 'lib/Pipelines')], ['results of executing the program before and after'])
P('O05', 'Scheme programs respect level, scale, dimension and key discipline',
  """Every program the compiler lowers to a scheme has operands of each homomorphic operation at the same level (and scale where required), relinearizes before rotating or exceeding the supported dimension, never drops below level zero, requests at setup every rotation and relinearization key its operations use, never overwrites a ciphertext that is still needed, and decrypts to the results of the original program.""",
  ['programs'], 'all programs accepted by the scheme pipelines', 'the end-to-end examples are not in the suite',
  ['lib/Transforms/SecretInsertMgmt', 'lib/Dialect/LWE', 'lib/Dialect/Openfhe/Transforms', 'lib/Dialect/Lattigo/Transforms', 'lib/Pipelines'], [('management insertion', 'lib/Transforms/SecretInsertMgmt'), ('crypto-context configuration', 'lib/Dialect/Openfhe/Transforms/ConfigureCryptoContext.cpp')], ['lowered programs'])
P('O06', 'Compilation is deterministic and textual programs round-trip',
  """Compiling the same program twice gives byte-identical output whatever the thread count or memory layout, and printing then parsing any intermediate program yields the same program.""",
  ['programs', 'schedules'], 'all programs, pipelines and thread schedules', 'tests run each input once', ['lib/Dialect', 'lib/Pipelines', 'lib/Transforms'], [('passes and printers', 'lib')], ['output text'])
P('U01', 'Library code passes its own tests, in any order, free of memory errors and undefined behaviour',
  """Every unit test of the library passes, and runs without memory errors, undefined behaviour or reliance on uninitialised or out-of-bounds data, whatever order the tests run in and however often they are repeated.""",
  ['inputs', 'schedules'], 'all existing unit tests under shuffled orders and repetitions', 'the tests are run without instrumentation and in one order', ['lib'], [('sanitizer instrumentation', 'lib')], ['sanitizer reports'])
P('U02', 'The compiler keeps the documented output of its examples',
  """Every textual example of the passes, conversions and emitters produces the output or diagnostics it documents, whatever the memory layout, when compiled by the tools built from the current sources with assertions enabled.""",
  ['programs', 'schedules'], 'all textual examples under perturbed memory', 'the textual examples need heir-opt, which the normal build here does not produce', ['tests', 'lib', 'tools'], [('passes, conversions and emitters', 'lib')], ['output text and diagnostics'])

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(HERE + '/properties.jsonl', 'w') as f:
    for o in OUT: f.write(json.dumps(o, ensure_ascii=False) + '\n')
print(len(OUT))
