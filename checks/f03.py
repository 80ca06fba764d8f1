import pyw, vt

def main(pid):
    res = vt.Result(pid)
    res.rule = 'a case is one generated environment (variables, files, search path, installed packages) and the configurations or tool runs obtained in it'
    res.assumptions = ['the system prefixes /usr and /usr/local are redirected into the scratch world', 'an empty CXX beside a set CC is not judged']
    pyw.run(res, 'f03_worker.py', 40.0 if vt.THOROUGH else 4.0)
    res.finish()
