"""Drives the client interface and the pipeline with recording stand-ins for the tools, and checks what reaches each of them."""
import json, os, re, sys, tempfile, types, stat
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pylib
from pylib import REPO, run_all
sys.path.insert(0, REPO + '/frontend'); sys.path.insert(0, REPO)
import warnings; warnings.filterwarnings('ignore')
from heir import pipeline
from heir.interfaces import *
from heir.interfaces import BackendInterface, CompilationResult, EncValue, CompilerError
from heir.backends.cleartext import CleartextBackend, CleartextClientInterface
from heir.backends.util import common
from heir.backends.openfhe import backend as ob, config as oc
from heir.heir_cli import heir_cli, heir_cli_config
import heir.mlir as hm
from heir.mlir import *
import types
from heir.mlir import types as ht
import numba.core.types as nt

ANY = (Exception,)
NAMES = ['a', 'b', 'x', 'y', 'lhs', 'rhs', 'arg0', 'arg1', 'value', 'encrypt_x', 'x_1', 'weights', 'result', 'self_', 'data']
SCAL = {'I1': nt.boolean, 'I8': nt.int8, 'I16': nt.int16, 'I32': nt.int32, 'I64': nt.int64, 'F32': nt.float32, 'F64': nt.float64}
BITS = {'I1': 1, 'I8': 8, 'I16': 16, 'I32': 32, 'I64': 64}

def sig(r, lo=1, hi=6):
    n = r.randint(lo, hi)
    names = r.sample(NAMES, n)
    p = r.choice([0.0, 0.5, 0.5, 1.0])
    return names, [i for i in range(n) if r.random() < p]

class Tok:
    """A value with an identity: only itself is equal to it."""
    def __init__(self, s): self.s = s
    def __repr__(self): return f'<{self.s}>'

# ---------------------------------------------------------------- argument verification on its own
def f_verify(c):
    r = c.r
    names, sec = sig(r)
    n = len(names)
    cr = CompilationResult(module=None, func_name='f', arg_names=list(names), secret_args=r.sample(sec, len(sec)))
    vals = [r.choice([Tok(f'v{i}'), r.randint(-5, 5), None, [1, i], 0]) for i in range(n)]
    args = [EncValue(names[i], vals[i]) if i in sec else vals[i] for i in range(n)]
    fault = r.choice(['none', 'none', 'swap', 'plain', 'enc', 'wrongname', 'kw', 'nested', 'twin'])
    k = r.randrange(n)
    kw = {}
    bad = False
    if fault == 'swap' and len(sec) >= 2:
        i, j = r.sample(sec, 2); args[i], args[j] = args[j], args[i]; bad = True
    elif fault == 'plain' and sec: k = r.choice(sec); args[k] = vals[k]; bad = True
    elif fault == 'enc' and len(sec) < n:
        k = r.choice([i for i in range(n) if i not in sec]); args[k] = EncValue(names[k], vals[k]); bad = True
    elif fault == 'wrongname' and sec:
        k = r.choice(sec); args[k] = EncValue(r.choice(['', names[k] + '_', names[k].upper(), 'encrypt_' + names[k], names[k][:-1], None, k]), vals[k]); bad = True
    elif fault == 'kw':
        k = n - 1; kw = {names[k]: args.pop()}; bad = True
    elif fault == 'nested' and sec:   # an encrypted value that carries another one: only the outer layer is removed
        k = r.choice(sec); vals[k] = EncValue(names[k], vals[k]); args[k] = EncValue(names[k], vals[k])
    elif fault == 'twin' and sec:     # the same encrypted object twice
        k = r.choice(sec); args[k] = EncValue(str(names[k]), vals[k])
    c.describe(names, sec, fault, k)
    snap = list(args), [a.value if isinstance(a, EncValue) else None for a in args]
    if bad:
        c.ev('mixed-up calls refused')
        c.raises('mixup-accepted', ANY, lambda: common.strip_and_verify_eval_arg_consistency(cr, *args, **kw), f'{fault} at {k} of {names} (secret {sec})')
    else:
        got, gkw = common.strip_and_verify_eval_arg_consistency(cr, *args)
        c.ev('consistent calls accepted')
        c.check(len(got) == n and all(g is v for g, v in zip(got, vals)) and not gkw, 'argument-changed', lambda: f'{args} became {got} {gkw}')
    c.check([a is b for a, b in zip(args, snap[0])] == [True] * len(args) and [a.value if isinstance(a, EncValue) else None for a in args] == snap[1], 'caller-values-changed', lambda: f'{args}')

# ---------------------------------------------------------------- functions to compile
def gen_func(r):
    names, sec = sig(r, 1, 5)
    ty = r.choice(['I8', 'I16', 'I32', 'I64'])
    e = ' + '.join(f'{k + 2} * {n}' if r.random() < 0.5 else n for k, n in enumerate(names))
    ret = r.random() < 0.3
    order = ', '.join(f'{n}: ' + (f'Secret[{ty}]' if i in sec else ty) for i, n in enumerate(names))
    fn = r.choice(['f', 'foo', 'main', 'compute_it'])
    src = f'def {fn}({order})' + (f' -> {ty}' if ret else '') + f':\n  return {e}\n'
    ns = {k: getattr(hm, k) for k in ('Secret', 'I8', 'I16', 'I32', 'I64')}
    ns['__name__'] = r.choice(['m', 'a.b', '__main__', 'my-mod'])
    import linecache
    fnm = f'<gen {id(src)} {r.random()}>'
    linecache.cache[fnm] = (len(src), None, src.splitlines(True), fnm)
    exec(compile(src, fnm, 'exec'), ns)
    f = ns[fn]
    if r.random() < 0.5:
        f.__qualname__ = r.choice(['A.b', 'outer.<locals>.' + fn, 'é' + fn, fn])
    return f, names, sec, src

class FakeTools:
    """Stand-ins for heir-opt and heir-translate; every call is recorded."""
    def __init__(self, r):
        self.log, self.fail_at, self.info, self.n = [], None, None, 0
        tools = self
        class Base:
            def __init__(self, binary_path=None): self.path = binary_path
            def _go(self, options, input):
                tools.n += 1
                tools.log.append((self.kind, list(options), input, self.path))
                key = self.kind + (':' + tools.step(options))
                if tools.fail_at == key:
                    raise heir_cli.CLIError(self.path, list(options), input, 'some stdout', 'the-tool-says-no')
                if tools.step(options) == 'info': return tools.info
                return f'// output {tools.n} of {self.kind}\n'
            def run_binary(self, options, input): return self._go(options, input)
            def run_binary_stderr(self, options, input):
                out = self._go(options, input)
                return out, f'graph {tools.n}'
        class Opt(Base): kind = 'opt'
        class Tr(Base): kind = 'translate'
        self.Opt, self.Tr = Opt, Tr
    def step(self, options):
        s = ' '.join(str(o) for o in options)
        if '--emit-function-info' in s: return 'info'
        if '--mlir-print-op-generic' in s: return 'generic'
        if '--shape-inference' in s: return 'shape'
        if '--annotate-secretness' in s: return 'annotate'
        if '--scheme-to-openfhe' in s: return 'tobackend'
        return 'main'

class Capture(BackendInterface):
    """A backend that records what it is handed."""
    def __init__(self): self.calls = []
    def run_backend(self, *args, **kwargs):
        names = ['workspace_dir', 'heir_opt', 'heir_translate', 'func_name', 'arg_names', 'secret_args', 'heir_opt_output', 'debug']
        d = dict(zip(names, args)); d.update(kwargs)
        d['existed'] = os.path.isdir(d['workspace_dir'])
        self.calls.append(d)
        class R: pass
        return R()

class patched:
    def __init__(self, tools): self.t = tools
    def __enter__(self):
        self.old = heir_cli.HeirOptBackend, heir_cli.HeirTranslateBackend, dict(os.environ)
        heir_cli.HeirOptBackend, heir_cli.HeirTranslateBackend = self.t.Opt, self.t.Tr
    def __exit__(self, *a):
        heir_cli.HeirOptBackend, heir_cli.HeirTranslateBackend = self.old[:2]
        os.environ.clear(); os.environ.update(self.old[2])

CFG = heir_cli_config.HEIRConfig(heir_opt_path='/nonexistent/heir-opt', heir_translate_path='/nonexistent/heir-translate', techmap_dir_path='/nonexistent/tm', abc_path='/nonexistent/abc')
def val(r): return r.randint(-3, 3)

# ---------------------------------------------------------------- the cleartext client along histories
def f_cleartext(c):
    r = c.r
    f, names, sec, src = gen_func(r)
    c.describe(src)
    t = FakeTools(r)
    with patched(t):
        cl = pipeline.run_pipeline(f, ['--canonicalize', '--mlir-to-bgv'], CleartextBackend(), CFG, False)
    c.check(cl.func is f, 'original-function', lambda: 'the client does not hold the original function')
    for _ in range(r.randint(2, 6)):
        v = [val(r) for _ in names]
        want = f(*v)
        act = r.choice(['call', 'original', 'eval', 'eval', 'swap', 'missing', 'decrypt', 'kw', 'func'])
        c.ev(f'{act} on the cleartext client')
        if act == 'call': c.same('call-result', cl(*v), want, f'{src} on {v}')
        elif act == 'original': c.same('original-result', cl.original(*v), want, f'{src} on {v}')
        elif act == 'func': c.same('function-changed', f(*v), want)
        elif act == 'decrypt':
            o = Tok('r'); c.check(cl.decrypt_result(o) is o, 'decrypt-result', 'decryption changes the result')
        else:
            enc = [getattr(cl, 'encrypt_' + n)(x) if i in sec else x for i, (n, x) in enumerate(zip(names, v))]
            for i in sec: c.check(isinstance(enc[i], EncValue) and enc[i].identifier == names[i] and enc[i].value is v[i], 'encrypted-value', lambda: f'encrypt_{names[i]}({v[i]}) gives {enc[i]}')
            if act == 'eval': c.same('eval-result', cl.eval(*enc), want, f'{src} on {v}')
            elif act == 'swap':
                if len(sec) < 2: continue
                i, j = r.sample(sec, 2); enc[i], enc[j] = enc[j], enc[i]
                c.raises('mixup-accepted', ANY, lambda: cl.eval(*enc), 'swapped ciphertexts')
            elif act == 'missing':
                if not sec: continue
                i = r.choice(sec); enc[i] = v[i]
                c.raises('mixup-accepted', ANY, lambda: cl.eval(*enc), 'plaintext for a secret argument')
            elif act == 'kw': c.raises('mixup-accepted', ANY, lambda: cl.eval(*enc[:-1], **{names[-1]: enc[-1]}), 'keyword argument')
    c.raises('unknown-attribute', (AttributeError,), lambda: getattr(cl, 'no_such_thing'), 'unknown attribute')

# ---------------------------------------------------------------- the OpenFHE client, with a module that records calls
class Keys:
    n = 0
    def __init__(self):
        Keys.n += 1
        self.publicKey, self.secretKey = Tok(f'pk{Keys.n}'), Tok(f'sk{Keys.n}')
class Ctx:
    def __init__(self, log, k): self.log, self.k = log, k
    def KeyGen(self):
        ks = Keys(); self.log.append(('keygen', self, ks)); return ks
    def __repr__(self): return f'ctx{self.k}'

def fake_module(fn, names, sec, log):
    m = types.SimpleNamespace()
    cnt = [0]
    def gen():
        cnt[0] += 1; x = Ctx(log, cnt[0]); log.append(('generate', x)); return x
    def conf(ctx, sk): log.append(('configure', ctx, sk))
    setattr(m, f'{fn}__generate_crypto_context', gen)
    setattr(m, f'{fn}__configure_crypto_context', conf)
    for i in range(len(names)):
        def enc(ctx, v, pk, i=i):
            o = Tok(f'ct{i}'); log.append(('encrypt', i, ctx, v, pk, o)); return o
        # only the secret arguments have one, as in generated code
        if i in sec: setattr(m, f'{fn}__encrypt__arg{i}', enc)
    def main(ctx, *args):
        if len(args) != len(names): raise TypeError(f'incompatible arguments: {len(args)} for {len(names)}')
        o = Tok('res'); log.append(('main', ctx, list(args), o)); return o
    def dec(ctx, res, sk):
        o = Tok('dec'); log.append(('decrypt', ctx, res, sk, o)); return o
    setattr(m, fn, main); setattr(m, f'{fn}__decrypt__result0', dec)
    m.helper = Tok('helper')
    return m

def fake_cxx(d, rc=0):
    p = f'{d}/fakecxx'
    with open(p, 'w') as f:
        f.write('#!/bin/sh\nprintf "%s\\n" "$@" "--end--" >> ' + f'{d}/cxx.log\n' + ('while [ $# -gt 0 ]; do if [ "$1" = -o ]; then : > "$2"; fi; shift; done\n' if rc == 0 else f'echo the-compiler-says-no >&2; exit {rc}\n'))
    os.chmod(p, 0o755)
    return p

def f_openfhe(c):
    r = c.r
    names, sec = sig(r, 1, 5)
    fn = r.choice(['f', 'main', 'mod_f_0', 'x__encrypt__arg0']) + f'_{r.randrange(10**6)}'
    debug = r.random() < 0.2
    fail = r.choice([None] * 6 + ['cxx', 'tool'])
    c.describe(names, sec, fn, debug, fail)
    log = []
    t = FakeTools(r)
    cfg = oc.OpenFHEConfig(include_dirs=['/inc/one', '/inc/two'], include_type=r.choice(['install-relative', 'source-relative']), lib_dir='/some/lib', link_libs=r.choice([['openfhe'], ['/abs/libcore.so', 'pke']]))
    b = ob.OpenFHEBackend(cfg)
    env = dict(os.environ)
    with tempfile.TemporaryDirectory() as d:
        path = list(sys.path)
        mod = fake_module(fn, names, sec, log)
        sys.modules[f'_heir_{fn}'] = mod
        try:
            os.environ['CXX'] = fake_cxx(d, 3 if fail == 'cxx' else 0)
            os.environ['PYBIND11_INCLUDE_PATH'] = '/pb/include'
            if fail == 'tool': t.fail_at = r.choice(['opt:tobackend', 'translate:main'])
            go = lambda: b.run_backend(d, t.Opt('o'), t.Tr('t'), fn, list(names), list(sec), 'scheme text', debug)
            if fail:
                c.ev('failing tools')
                e = c.raises('tool-failure-ignored', ANY, go, f'{fail} failing')
                if e is not None: c.check('says-no' in str(e) or 'says-no' in str(getattr(e, 'stderr', '')), 'tool-output-lost', lambda: f'the error does not carry the output of the tool: {e}')
                c.check(not log, 'called-after-failure', lambda: log)
                return
            cl = go()
            lines = open(f'{d}/cxx.log').read().split('\n') if os.path.exists(f'{d}/cxx.log') else []
        finally:
            del sys.modules[f'_heir_{fn}']; sys.path[:] = path
            os.environ.clear(); os.environ.update(env)
        # what the tools were asked
        opts = [l for l in t.log if l[0] == 'opt']
        c.check(len(opts) == 1 and opts[0][2] == 'scheme text' and any(o == f'--scheme-to-openfhe=entry-function={fn}' for o in opts[0][1]), 'backend-lowering', lambda: opts)
        trs = [l for l in t.log if l[0] == 'translate']
        emitted = {}
        for _, o, i, _p in trs:
            c.check(i == '// output 1 of opt\n', 'translated-text', lambda: f'heir-translate is given {i!r}')
            o = [str(x) for x in o]
            emitted[o[0]] = o
        want = {'--emit-openfhe-pke-header': f'{d}/{fn}.h', '--emit-openfhe-pke': f'{d}/{fn}.cpp', '--emit-openfhe-pke-pybind': f'{d}/{fn}_bindings.cpp'}
        c.same('emitted-kinds', sorted(emitted), sorted(want))
        for k, p in want.items():
            o = emitted.get(k, [])
            c.check('-o' in o and o[o.index('-o') + 1] == p, 'emitted-file', lambda: f'{k} written with {o}')
            if k != '--emit-openfhe-pke-pybind': c.check(f'--openfhe-include-type={cfg.include_type}' in o, 'include-type', lambda: f'{k} with {o}')
            else: c.check(f'--pybind-header-include={fn}.h' in o and f'--pybind-module-name=_heir_{fn}' in o, 'pybind-options', lambda: o)
        runs, cur = [], []
        for l in lines:
            if l == '--end--': runs.append(cur); cur = []
            else: cur.append(l)
        c.check(len(runs) == 2, 'compilations', lambda: runs)
        if len(runs) == 2:
            srcs = [[a for a in x if a.endswith('.cpp')] for x in runs]
            c.same('compiled-sources', srcs, [[want['--emit-openfhe-pke']], [want['--emit-openfhe-pke-pybind']]])
            c.check(f'{d}/{fn}.so' in runs[1], 'bindings-not-linked', lambda: runs[1])
            for x in runs: c.check('-I/inc/one' in x and '-I/inc/two' in x and '-L/some/lib' in x and all((l if l[0] == '/' else '-l' + l) in x for l in cfg.link_libs), 'compile-flags', lambda: x)
        c.same('config-changed', (cfg.include_dirs, cfg.lib_dir), (['/inc/one', '/inc/two'], '/some/lib'))
    # histories
    c.check(not log, 'ran-before-setup', lambda: log)
    if r.random() < 0.5:
        early = r.choice(['encrypt', 'eval', 'decrypt'])
        c.ev('used before setup')
        if early == 'encrypt' and sec:
            i = r.choice(sec); c.raises('before-setup', (RuntimeError,), lambda: getattr(cl, 'encrypt_' + names[i])(1), 'encrypt before setup')
        elif early == 'eval': c.raises('before-setup', (RuntimeError,), lambda: cl.eval(*[EncValue(n, 1) if i in sec else 1 for i, n in enumerate(names)]), 'eval before setup')
        else: c.raises('before-setup', (RuntimeError,), lambda: cl.decrypt_result(1), 'decrypt before setup')
        c.check(not log, 'ran-before-setup', lambda: log)
    ctx = ks = None
    def setup_checked(lo):
        nonlocal ctx, ks
        s = [l for l in log[lo:] if l[0] in ('generate', 'keygen', 'configure')]
        if not c.check([l[0] for l in s] == ['generate', 'keygen', 'configure'], 'setup-order', lambda: s): return False
        ctx, ks = s[0][1], s[1][2]
        return c.check(s[1][1] is ctx and s[2][1] is ctx and s[2][2] is ks.secretKey, 'setup-keys', lambda: f'{s}')
    for step in range(r.randint(3, 8)):
        act = r.choice(['setup', 'call', 'call', 'round', 'round', 'round', 'override', 'swap', 'plain', 'kw', 'arity', 'attr', 'callkw', 'callarity'])
        if ctx is None and act not in ('call', 'callkw', 'callarity', 'attr'): act = 'setup'
        c.ev(f'{act} on the OpenFHE client')
        v = [Tok(f'p{i}') for i in range(len(names))]
        lo = len(log)
        if act == 'setup':
            cl.setup()
            if not setup_checked(lo): return
        elif act == 'call':
            got = cl(*v)
            if not setup_checked(lo): return
            rest = [l for l in log[lo:] if l[0] not in ('generate', 'keygen', 'configure')]
            encs = {l[1]: l for l in rest if l[0] == 'encrypt'}
            c.same('encrypted-arguments', sorted(l[1] for l in rest if l[0] == 'encrypt'), sec)
            for i, l in encs.items(): c.check(l[2] is ctx and l[3] is v[i] and l[4] is ks.publicKey, 'encrypt-call', lambda: f'argument {i}: {l}')
            mains = [l for l in rest if l[0] == 'main']; decs = [l for l in rest if l[0] == 'decrypt']
            if not c.check(len(mains) == 1 and len(decs) == 1, 'call-steps', lambda: rest): return
            m, dd = mains[0], decs[0]
            c.check(m[1] is ctx and len(m[2]) == len(names) and all(m[2][i] is (encs[i][5] if i in encs else v[i]) for i in range(len(names))), 'main-arguments', lambda: f'{m} for {names}, secret {sec}')
            c.check(dd[1] is ctx and dd[2] is m[3] and dd[3] is ks.secretKey and got is dd[4], 'decrypt-call', lambda: f'{dd}, {got}')
        elif act in ('callkw', 'callarity'):
            if act == 'callkw': c.raises('keyword-accepted', ANY, lambda: cl(*v[:-1], **{names[-1]: v[-1]}), 'calling with a keyword')
            else: c.raises('arity-accepted', ANY, lambda: cl(*(v[:-1] if r.random() < 0.5 else v + [Tok('extra')])), 'calling with the wrong number of arguments')
            c.check(not any(l[0] == 'main' for l in log[lo:]), 'ran-inconsistent-call', lambda: log[lo:])
            gens = [l for l in log[lo:] if l[0] == 'generate']
            if gens and not setup_checked(lo): return
        elif act == 'attr':
            c.check(cl.helper is mod.helper, 'module-attribute', 'attributes of the module are not reachable')
            c.raises('unknown-attribute', (AttributeError,), lambda: cl.no_such_thing, 'unknown attribute')
            c.raises('unknown-encrypt', ANY, lambda: cl.encrypt_no_such_argument(1), 'encrypting for an unknown argument')
            pub = [n for i, n in enumerate(names) if i not in sec]
            if pub: c.raises('unknown-encrypt', ANY, lambda: getattr(cl, 'encrypt_' + r.choice(pub))(1), 'encrypting for a plain argument')
        else:
            enc = list(v)
            oc_, ok_, osk = Tok('octx'), Tok('opk'), Tok('osk')
            for i in sec:
                use_c, use_k = act == 'override' and r.random() < 0.5, act == 'override' and r.random() < 0.5
                kw = {}
                if use_c: kw['crypto_context'] = oc_
                if use_k: kw['public_key'] = ok_
                l0 = len(log)
                enc[i] = getattr(cl, 'encrypt_' + names[i])(v[i], **kw)
                l = log[l0:]
                if not c.check(len(l) == 1 and l[0][0] == 'encrypt', 'encrypt-call', lambda: l): return
                l = l[0]
                c.check(l[1] == i and l[2] is (oc_ if use_c else ctx) and l[3] is v[i] and l[4] is (ok_ if use_k else ks.publicKey), 'encrypt-call', lambda: f'encrypt_{names[i]}: {l} overriding {kw}')
                c.check(isinstance(enc[i], EncValue) and enc[i].identifier == names[i] and enc[i].value is l[5], 'encrypted-value', lambda: f'{enc[i]}')
            cts = {i: enc[i].value for i in sec if isinstance(enc[i], EncValue)}
            l0 = len(log)
            if act in ('round', 'override'):
                res = cl.eval(*enc)
                l = log[l0:]
                if not c.check(len(l) == 1 and l[0][0] == 'main', 'eval-steps', lambda: l): return
                c.check(l[0][1] is ctx and len(l[0][2]) == len(names) and all(l[0][2][i] is cts.get(i, v[i]) for i in range(len(names))) and res is l[0][3], 'main-arguments', lambda: f'{l} for {names}, secret {sec}')
                kw = {}
                if act == 'override':
                    if r.random() < 0.5: kw['crypto_context'] = oc_
                    if r.random() < 0.5: kw['secret_key'] = osk
                l1 = len(log)
                out = cl.decrypt_result(res, **kw)
                l = log[l1:]
                c.check(len(l) == 1 and l[0][0] == 'decrypt' and l[0][1] is kw.get('crypto_context', ctx) and l[0][2] is res and l[0][3] is kw.get('secret_key', ks.secretKey) and out is l[0][4], 'decrypt-call', lambda: f'{l} overriding {kw}')
            elif act == 'swap' and len(sec) >= 2:
                i, j = r.sample(sec, 2); enc[i], enc[j] = enc[j], enc[i]
                c.raises('mixup-accepted', ANY, lambda: cl.eval(*enc), 'swapped ciphertexts')
                c.check(not any(x[0] == 'main' for x in log[l0:]), 'ran-inconsistent-call', lambda: log[l0:])
            elif act == 'plain':
                i = r.randrange(len(names)); enc[i] = v[i] if i in sec else EncValue(names[i], v[i])
                c.raises('mixup-accepted', ANY, lambda: cl.eval(*enc), f'argument {i} of {names} (secret {sec}) of the wrong kind')
                c.check(not any(x[0] == 'main' for x in log[l0:]), 'ran-inconsistent-call', lambda: log[l0:])
            elif act == 'kw':
                c.raises('keyword-accepted', ANY, lambda: cl.eval(*enc[:-1], **{names[-1]: enc[-1]}), 'keyword argument')
                c.check(not any(x[0] == 'main' for x in log[l0:]), 'ran-inconsistent-call', lambda: log[l0:])
            elif act == 'arity':
                c.raises('arity-accepted', ANY, lambda: cl.eval(*(enc[:-1] if r.random() < 0.5 else enc + [Tok('extra')])), 'wrong number of arguments')

# ---------------------------------------------------------------- what the pipeline hands to the tools and the backend
def f_pipeline(c):
    r = c.r
    f, names, sec, src = gen_func(r)
    opts = r.choice([['--mlir-to-bgv'], ['--canonicalize', '--mlir-to-ckks=min-slot-count=8'], ['--cse', '--mlir-to-bgv', '--canonicalize']])
    given = list(opts)
    c.describe(src, opts)
    t = FakeTools(r)
    doc, q = f.__doc__, f.__qualname__
    seen = []
    want = f(*[1] * len(names))
    for rep in range(r.choice([1, 2, 3])):
        b = Capture()
        lo = len(t.log)
        with patched(t):
            cl = pipeline.run_pipeline(f, opts, b, CFG, False)
            c.same('tool-environment', (os.environ.get('HEIR_ABC_BINARY'), os.environ.get('HEIR_YOSYS_SCRIPTS_DIR')), ('/nonexistent/abc', '/nonexistent/tm'))
        log = t.log[lo:]
        c.ev('pipelines run')
        c.same('caller-options-changed', opts, given, f'options after compiling {rep + 1} times')
        if not c.check([x[0] for x in log] == ['opt', 'opt'], 'pipeline-steps', lambda: [x[:2] for x in log]): return
        c.check('--shape-inference' in log[0][1], 'shape-inference', lambda: log[0][1])
        c.check(log[0][3] == CFG.heir_opt_path, 'tool-path', lambda: log[0][3])
        c.check([o for o in log[1][1] if o in given] == given and set(log[1][1]) - set(given) <= {'--mlir-print-debuginfo'} and len(log[1][1]) == len(given) + 1, 'pass-options', lambda: f'heir-opt is run with {log[1][1]}, asked for {given}')
        c.check(log[1][2] == f'// output {t.n - 1} of opt\n', 'pipeline-input', lambda: f'the passes are run on {log[1][2]!r}')
        if not c.check(len(b.calls) == 1, 'backend-calls', lambda: b.calls): return
        k = b.calls[0]
        c.check(k['heir_opt_output'] == f'// output {t.n} of opt\n', 'backend-input', lambda: f'{k["heir_opt_output"]!r}')
        c.check(re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', k['func_name']) is not None, 'function-name', lambda: f'{k["func_name"]} is not an identifier')
        c.check(k['func_name'] not in seen, 'function-name-reused', lambda: k['func_name']); seen.append(k['func_name'])
        c.check(f'@{k["func_name"]}(' in log[0][2], 'function-name-emitted', lambda: f'{k["func_name"]} in\n{log[0][2]}')
        c.same('argument-names', list(k['arg_names']), names); c.same('secret-arguments', sorted(k['secret_args']), sec, src)
        c.check(k['existed'] and not os.path.exists(k['workspace_dir']), 'workspace', lambda: f'{k["workspace_dir"]} existed: {k["existed"]}, left: {os.path.exists(k["workspace_dir"])}')
        c.check(cl.func is f, 'original-function', 'the client does not hold the original function')
        c.check(k['debug'] is False, 'debug-flag', lambda: k['debug'])
    c.check(f.__qualname__ == q and f.__doc__ == doc and f(*[1] * len(names)) == want, 'function-changed', src)

class Boom(BackendInterface):
    def run_backend(self, workspace_dir, *a, **k):
        self.dir = workspace_dir
        raise ZeroDivisionError('from the backend')

def f_failures(c):
    r = c.r
    kind = r.choice(['tool', 'tool', 'cggi', 'notbackend', 'noannot', 'badtype', 'backend', 'compile'])
    f, names, sec, src = gen_func(r)
    text = r.random() < 0.5
    c.describe(kind, text, src)
    t = FakeTools(r)
    t.info = 'main\narg_0, arg_1\n0\n'
    inp = 'func.func @main() { return }' if text else f
    run = lambda fn, o, b: pipeline.run_pipeline(fn, o, b, CFG, False)
    before = set(os.listdir(tempfile.gettempdir()))
    with patched(t):
        b = Capture()
        if kind == 'tool':
            t.fail_at = r.choice(['opt:main', 'opt:main', 'opt:shape'] + (['opt:generic', 'translate:info'] if text else []))
            e = c.raises('tool-failure-ignored', (CompilerError, heir_cli.CLIError), lambda: run(inp, ['--mlir-to-bgv'], b), f'{t.fail_at} failing for {"text" if text else "a function"}')
            if e is not None:
                c.check('the-tool-says-no' in str(e), 'tool-output-lost', lambda: str(e))
                if t.fail_at == 'opt:main': c.check(isinstance(e, CompilerError) and '--mlir-to-bgv' in str(e), 'tool-options-lost', lambda: str(e))
        elif kind == 'cggi':
            o = ['--canonicalize', r.choice(['--mlir-to-cggi', '--mlir-to-cggi=data-type=Bool'])]
            c.raises('cggi-backend', (NotImplementedError,), lambda: run(inp, o, b), 'CGGI with another backend')
            cl = run(inp, o, CleartextBackend()); c.check(isinstance(cl, CleartextClientInterface), 'cggi-cleartext', 'the cleartext backend accepts CGGI')
        elif kind == 'notbackend':
            c.raises('not-a-backend', (TypeError,), lambda: run(inp, ['--mlir-to-bgv'], r.choice([Capture, CleartextBackend, None, 'x'])), 'not a backend')
        elif kind == 'noannot':
            f.__annotations__.clear() if r.random() < 0.5 else f.__annotations__.pop(r.choice(list(f.__annotations__)))
            if set(names) <= set(f.__annotations__): f.__annotations__.clear()
            c.raises('missing-annotations', (CompilerError,), lambda: run(f, ['--mlir-to-bgv'], b), f'annotations {list(f.__annotations__)} of {names}')
        elif kind == 'badtype':
            n = r.choice(names); f.__annotations__[n] = r.choice([int, str, 'I8', Secret, Secret[Secret[I8]], Tensor[[4], Secret[I8]], Tensor[[4], Tensor[[2], I8]], Tensor[I8]])
            c.raises('bad-annotation', (CompilerError,), lambda: run(f, ['--mlir-to-bgv'], b), f'{n}: {f.__annotations__[n]}')
        elif kind == 'backend':
            bb = Boom(); c.raises('backend-error-lost', (ZeroDivisionError,), lambda: run(inp, ['--mlir-to-bgv'], bb))
            c.check(not os.path.exists(bb.dir), 'workspace', 'the scratch directory is left behind after an error')
        else:
            t.fail_at = r.choice([None, 'opt:main'])
            scheme = r.choice(['bgv', 'ckks', 'cggi'])
            own = r.choice([None, ['--my-pass']])
            kw = dict(backend=CleartextBackend(), config=CFG, scheme=scheme, heir_opt_options=own)
            go = (lambda: pipeline.compile(mlir_str=inp, **kw)) if text else (lambda: pipeline.compile(**kw)(f))
            if t.fail_at: e = c.raises('compile-error', (SystemExit,), go); c.check(e is None or e.code == 1, 'exit-code', lambda: e.code)
            else:
                cl = go()
                main = [x for x in t.log if t.step(x[1]) == 'main'][-1][1]
                c.check([o for o in main if o != '--mlir-print-debuginfo'] == (own if own else ['--canonicalize', f'--mlir-to-{scheme}']), 'scheme-options', lambda: main)
                if text: c.raises('text-has-no-function', (NotImplementedError,), lambda: cl.original(1))
                else: c.check(cl.func is f, 'original-function', '')
        c.ev(f'{kind} failures')
        c.check(not b.calls, 'backend-after-failure', lambda: b.calls)
    left = {x for x in os.listdir(tempfile.gettempdir()) if x not in before}
    c.check(not left, 'workspace', lambda: f'left behind: {left}')

def f_text(c):
    """Programs given as text: names and secrets are those reported by the tool."""
    r = c.r
    n = r.randint(0, 6)
    sec = [i for i in range(n) if r.random() < r.choice([0, 0.5, 1])]
    name = r.choice(['main', 'f_1', '_x'])
    c.describe(name, n, sec)
    t = FakeTools(r)
    t.info = f'{name}\n' + ', '.join(f'arg_{i}' for i in range(n)) + '\n' + ', '.join(map(str, sec)) + '\n'
    b = Capture()
    text = f'func.func @{name}() {{ return }} // {r.random()}'
    with patched(t): cl = pipeline.run_pipeline(text, ['--mlir-to-bgv'], b, CFG, False)
    k = b.calls[0]
    c.same('function-name', k['func_name'], name); c.same('argument-names', list(k['arg_names']), [f'arg_{i}' for i in range(n)]); c.same('secret-arguments', list(k['secret_args']), sec)
    steps = [(x[0], t.step(x[1])) for x in t.log]
    c.same('pipeline-steps', steps, [('opt', 'generic'), ('translate', 'info'), ('opt', 'shape'), ('opt', 'main')])
    c.check(t.log[0][2] == text and t.log[1][2] == '// output 1 of opt\n' and t.log[2][2] == text and t.log[3][2] == '// output 3 of opt\n', 'pipeline-input', lambda: t.log)
    c.raises('text-has-no-function', (NotImplementedError,), lambda: cl.func(1, 2))
    c.ev('text programs')

# ---------------------------------------------------------------- annotations
def f_annot(c):
    r = c.r
    def leaf():
        s = r.choice(list(SCAL)); return getattr(hm, s), SCAL[s], None
    def ty(depth=0):
        k = r.random()
        if k < 0.55: return leaf() + ('ok',)
        if k < 0.85:
            shape = [r.randint(1, 5) for _ in range(r.randint(1, 3))]
            a, n, _ = leaf()
            return Tensor[shape, a], n, shape, 'ok'
        bad = r.choice([int, list, Tensor[[2], Tensor[[2], I8]], Tensor[[2], Secret[I8]], Tensor[I8]])
        return bad, None, None, 'bad'
    n = r.randint(1, 6)
    names = r.sample(NAMES, n)
    ann, want, sec, bad = {}, [], [], False
    clean = r.random() < 0.7
    for i, nm in enumerate(names):
        a, nty, shape, st = ty()
        while clean and st == 'bad': a, nty, shape, st = ty()
        if r.random() < 0.5: ann[nm] = Secret[a]; sec.append(i)
        else: ann[nm] = a
        if st == 'bad': bad = True
        want.append((nty, shape))
    ret = None
    if r.random() < 0.5:
        a, nty, shape, st = ty()
        if st == 'bad' and clean: a, nty, shape, st = leaf() + ('ok',)
        ann['return'] = a; ret = (nty, shape); bad |= st == 'bad'
        if r.random() < 0.15: ann['return'] = Secret[a]; bad = True
    c.describe(ann)
    snap = dict(ann)
    def fits(t, w):
        nty, shape = w
        if shape is None: return t == nty
        return isinstance(t, nt.Array) and t.dtype == nty and t.ndim == len(shape) and list(t.shape) == shape
    if bad:
        c.raises('bad-annotation', (TypeError, NotImplementedError), lambda: ht.parse_annotations(ann), f'{ann}')
        c.ev('annotations refused')
    else:
        args, s, rt = ht.parse_annotations(ann)
        c.same('secret-arguments', sorted(s), sec, f'{ann}')
        c.check(len(args) == n and all(fits(t, w) for t, w in zip(args, want)), 'argument-types', lambda: f'{ann} gives {args}')
        c.check((rt is None) if ret is None else fits(rt, ret), 'return-type', lambda: f'{ann} gives {rt}')
        c.ev('annotations parsed', n)
    c.check(ann == snap and list(ann) == list(snap), 'annotations-changed', lambda: ann)
    c.raises('missing-annotations', (TypeError,), lambda: ht.parse_annotations({}))

import operator as op
OPS = {'+': op.add, '-': op.sub, '*': op.mul, '<<': op.lshift, '>>': op.rshift, '==': op.eq, '!=': op.ne}
def f_wrap(c):
    """Casts in plain Python: arithmetic on a wrapped value is arithmetic on the value."""
    r = c.r
    w = r.choice([I8, I16, I32, I64, I1])
    c.describe(w.__name__, r.getstate()[1][0])
    for _ in range(20):
        o = r.choice(list(OPS))
        a = r.choice([0, 1, -1, r.randint(-200, 200), r.randint(-2**40, 2**40)]); b = r.choice([0, 1, r.randint(0, 9)]) if o in '<<>>' else r.choice([a, r.randint(-200, 200)])
        if o in ('<<', '>>'):
            x, y = (w(a), b)
            wx, wy = a, abs(b) % 64
            if r.random() < 0.5: got = OPS[o](w(wx), wy)
            else: got = OPS[o](wx, w(wy))
            want = OPS[o](wx, wy)
        else:
            if r.random() < 0.5: got = OPS[o](w(a), b)
            elif r.random() < 0.5: got = OPS[o](a, w(b))
            else: got = OPS[o](w(a), w(b))
            want = OPS[o](a, b)
        c.same('wrapped-arithmetic', int(got) if not isinstance(got, bool) else got, want, f'{w.__name__}: {a} {o} {b}')
        c.ev('wrapped operations')
    v = r.randint(-100, 100)
    c.same('wrapped-conversion', (int(w(v)), str(w(v)), list(range(200))[w(abs(v))]), (v, str(v), abs(v)))
    t = w()
    for o in OPS: c.raises('operator-without-value', (RuntimeError,), lambda: OPS[o](t, 1), f'{o} on a type')
    c.raises('operator-without-value', (RuntimeError,), lambda: int(t))

FAMS = {'verify': (f_verify, 1500), 'cleartext': (f_cleartext, 160), 'openfhe': (f_openfhe, 400), 'pipeline': (f_pipeline, 120), 'failures': (f_failures, 240), 'text': (f_text, 120), 'annot': (f_annot, 500), 'wrap': (f_wrap, 150)}
if __name__ == '__main__': run_all(FAMS)
