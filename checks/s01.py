import pyw, vt

def main(pid):
    res = vt.Result(pid)
    res.rule = 'a case is one generated input of one tool: a test file, a target, a release history, a set of moduli, a repository history, a document or a template request'
    res.assumptions = ['bazel, git, PyPI and the compiler are stand-ins that record how they are called', 'failures to reach PyPI are not judged', 'pipes in the error text of the statistics table are not judged']
    pyw.run(res, 's01_worker.py', 24.0 if vt.THOROUGH else 4.0)
    res.finish()
