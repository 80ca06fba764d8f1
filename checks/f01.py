import pyw, vt

def main(pid):
    res = vt.Result(pid)
    res.rule = 'a case is one generated function (its source text), run on up to 14 argument vectors; refused functions of the unrestricted family count as trivial'
    res.assumptions = ['integer semantics are two\'s complement at the inferred types; inputs on which Python itself divides by zero or shifts too far are excluded',
                       'conversion of out-of-range floats to integers is excluded', 'mlir-opt (LLVM 20) is trusted to reject ill-formed programs and to lower affine loops']
    pyw.run(res, 'f01_worker.py', 8.0 if vt.THOROUGH else 1.0)
    res.finish()
