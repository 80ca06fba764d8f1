import pyw, vt

def main(pid):
    res = vt.Result(pid)
    res.rule = 'a case is one generated history: a program, a backend, a way of compiling it and the calls made on the returned client, or one annotation list or operation on wrapped values'
    res.assumptions = ['heir-opt, heir-translate, the C++ compiler and the compiled extension module are stand-ins that record how they are called and answer with distinguishable values',
                       'in the cleartext backend encrypt_x of a name that is no argument may be accepted, as it changes nothing']
    pyw.run(res, 'f02_worker.py', 60.0 if vt.THOROUGH else 6.0)
    res.finish()
