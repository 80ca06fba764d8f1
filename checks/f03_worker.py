"""Resolves the tool and library configuration in generated environments and file systems, and records what the tools are given."""
import json, os, pathlib, shutil, sys, tempfile, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pylib
from pylib import REPO, run_all
sys.path.insert(0, REPO + '/frontend'); sys.path.insert(0, REPO)
import warnings; warnings.filterwarnings('ignore')
import sysconfig
import heir
from heir import _extras, entrypoints
from heir.heir_cli import heir_cli, heir_cli_config as hc
from heir.backends.openfhe import config as oc
from heir.backends.util import cpp_compiler as cc, pybind_helpers as ph, common
Path = pathlib.Path
ANY = (Exception,)

class world:
    """A scratch directory, with the environment (emptied but for what is asked) restored afterwards."""
    def __init__(self, env): self.env = env
    def __enter__(self):
        self.old, self.cwd = dict(os.environ), os.getcwd()
        self.t = tempfile.TemporaryDirectory(); self.d = os.path.realpath(self.t.name)
        os.environ.clear(); os.environ['TMPDIR'] = self.old.get('TMPDIR', '/tmp'); os.environ.update({k: v.replace('{D}', self.d) for k, v in self.env.items()})
        return self.d
    def __exit__(self, *a):
        os.environ.clear(); os.environ.update(self.old); os.chdir(self.cwd); self.t.cleanup()

def touch(p, mode=None, text=''):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f: f.write(text)
    if mode is not None: os.chmod(p, mode)

def pip_as(yes):
    """Makes the package look installed in, or outside, the directory of installed packages."""
    class M:
        def __enter__(s):
            s.old = sysconfig.get_paths
            def gp(*a, **k):
                d = dict(s.old(*a, **k)); d['purelib' if yes != 'plat' else 'platlib'] = REPO + '/frontend' if yes else '/nonexistent/lib'
                if yes == 'plat': d['purelib'] = '/nonexistent/lib'
                return d
            sysconfig.get_paths = gp
        def __exit__(s, *a): sysconfig.get_paths = s.old
    return M()

DEFROOT = next((p for p in reversed(Path(common.__file__).resolve().parents) if (p / 'bazel-bin').exists()), None)

# ---------------------------------------------------------------- the compiler's own tools
def f_tools(c):
    r = c.r
    opt = lambda p: r.random() < p
    marker = opt(0.6)
    dev = {k: opt(0.5) for k in ('heir-opt', 'heir-translate', 'abc', 'abc+', 'tm')}
    onpath = {k: r.choice(['no', 'yes', 'noexec', 'second']) for k in ('heir-opt', 'heir-translate', 'abc')}
    setenv = {k: r.choice([None, None, '', '/some/where', 'relative/tool', '{D}/env/tool']) for k in ('HEIR_OPT_PATH', 'HEIR_TRANSLATE_PATH', 'HEIR_ABC_BINARY', 'HEIR_YOSYS_SCRIPTS_DIR')}
    c.describe(marker, dev, onpath, setenv)
    env = {k: v for k, v in setenv.items() if v is not None}
    env['PATH'] = '{D}/p1:{D}/p2'
    if marker: env['HEIR_REPO_ROOT_MARKER'] = '{D}/root'
    with world(env) as d:
        for s in ('p1', 'p2', 'root'): os.makedirs(f'{d}/{s}')
        for k, v in onpath.items():
            if v == 'yes': touch(f'{d}/p1/{k}', 0o755); touch(f'{d}/p2/{k}', 0o755)
            if v == 'noexec': touch(f'{d}/p1/{k}', 0o644)
            if v == 'second': touch(f'{d}/p2/{k}', 0o755)
        B = f'{d}/root/bazel-bin/tools'
        for k in ('heir-opt', 'heir-translate'):
            if dev[k]: touch(f'{B}/{k}', r.choice([0o755, 0o644]))
        if dev['abc']: touch(f'{B}/heir-opt.runfiles/abc/abc_bin', 0o755)
        if dev['abc+']: touch(f'{B}/heir-opt.runfiles/abc+/abc_bin', 0o755)
        tm = f'{B}/heir-opt.runfiles/_main/lib/Transforms/YosysOptimizer/yosys'
        if dev['tm']: os.makedirs(tm)
        root = f'{d}/root' if marker else (str(DEFROOT) if DEFROOT else None)
        if root and not marker: c.trivial = True; return
        found = lambda k: {'no': None, 'noexec': None, 'yes': f'{d}/p1/{k}', 'second': f'{d}/p2/{k}'}[onpath[k]]
        sub = lambda v: v.replace('{D}', d) if v else v
        def req(k, e):
            if setenv[e]: return sub(setenv[e])
            if root and dev[k]: return f'{B}/{k}'
            return found(k)
        devabc = (f'{B}/heir-opt.runfiles/abc/abc_bin' if dev['abc'] else f'{B}/heir-opt.runfiles/abc+/abc_bin' if dev['abc+'] else '') if root else ''
        wo, wt = req('heir-opt', 'HEIR_OPT_PATH'), req('heir-translate', 'HEIR_TRANSLATE_PATH')
        wa = sub(setenv['HEIR_ABC_BINARY']) or devabc or found('abc') or ''
        wy = sub(setenv['HEIR_YOSYS_SCRIPTS_DIR']) or (tm if root and dev['tm'] else '')
        # the development configuration on its own
        dc = hc.development_heir_config()
        c.same('development-config', [str(x) for x in (dc.heir_opt_path, dc.heir_translate_path, dc.techmap_dir_path, dc.abc_path)],
               [f'{B}/heir-opt', f'{B}/heir-translate', tm if dev['tm'] else '', devabc] if root else ['', '', '', ''])
        if wo is None or wt is None:
            e = c.raises('missing-tool', (RuntimeError,), hc.from_os_env, f'{"heir-opt" if wo is None else "heir-translate"} is nowhere')
            if e is not None:
                k, v = ('heir-opt', 'HEIR_OPT_PATH') if wo is None else ('heir-translate', 'HEIR_TRANSLATE_PATH')
                c.check(k in str(e) and v in str(e), 'missing-tool-message', lambda: str(e))
            c.ev('missing tools')
        else:
            g = hc.from_os_env()
            c.same('resolved-tools', [str(x) for x in (g.heir_opt_path, g.heir_translate_path, g.abc_path, g.techmap_dir_path)], [wo, wt, wa, wy])
            c.ev('tool configurations')
        yes = r.choice([False, True, 'plat'])
        with pip_as(yes):
            c.same('pip-installed', bool(common.is_pip_installed()), bool(yes))
            if yes:
                g = hc.from_pip_installation(); P = REPO + '/frontend/heir/'
                c.same('pip-tools', [str(x) for x in (g.heir_opt_path, g.heir_translate_path, g.techmap_dir_path, g.abc_path)], [P + 'heir-opt', P + 'heir-translate', P + 'techmaps', P + 'abc'])
                c.same('pip-backends', [str(heir_cli.HeirOptBackend.from_pip().binary_path), str(heir_cli.HeirTranslateBackend.from_pip().binary_path)], [P + 'heir-opt', P + 'heir-translate'])
            else: c.raises('pip-not-installed', (RuntimeError,), hc.from_pip_installation)

# ---------------------------------------------------------------- OpenFHE
LIBS = ['libopenfhe.so', 'libOPENFHEcore.so', 'libOPENFHEpke.so', 'libOPENFHEbinfhe.so', 'libOPENFHEcore.so.1', 'libOPENFHEpke.so.1.2.3', 'libopenfhecore.dylib', 'libopenfhepke.dylib', 'libopenfhebinfhe.dylib', 'libOpenFHE.dylib',
        'libcore.so', 'libpke.so', 'openfhe.txt', 'libopenfhe.a', 'libOPENFHEcore_static.a', 'libntl.so', 'README', 'libopenfhe_extra.so']
def fill_libs(r, d):
    os.makedirs(d, exist_ok=True)
    mode = r.choice(['none', 'split', 'split', 'mono', 'mix', 'mix', 'mix'])
    names = {'none': ['libntl.so'], 'split': ['libOPENFHEcore.so', 'libOPENFHEpke.so', 'libOPENFHEbinfhe.so'], 'mono': ['libopenfhe.so'], 'mix': r.sample(LIBS, r.randint(0, 7))}[mode]
    for n in names:
        k = r.random()
        if k < 0.15: os.makedirs(f'{d}/{n}', exist_ok=True)          # a directory of that name is no library
        elif k < 0.35:                                               # a link to the real file
            touch(f'{d}/real/{n}.9'); os.symlink(f'real/{n}.9', f'{d}/{n}')
        elif k < 0.4: os.symlink('gone', f'{d}/{n}')                 # a dangling link
        else: touch(f'{d}/{n}')
    return names

def want_libs(d):
    """The acceptable answers: libraries in the directory, split ones first, then whole ones, else the bare name."""
    if not os.path.isdir(d): return lambda g: g == ['openfhe'], 'openfhe'
    so = [f'{d}/{n}' for n in os.listdir(d) if os.path.isfile(f'{d}/{n}') and ('.so' in n.lower() or '.dylib' in n.lower()) and 'openfhe' in n.lower()]
    kind = lambda p: next((k for k in ('core', 'pke', 'binfhe') if k in os.path.basename(p).lower()), None)
    by = {k: {os.path.realpath(p) for p in so if kind(p) == k} for k in ('core', 'pke', 'binfhe')}
    if all(by.values()): return lambda g: len(g) == 3 and all(g[i] in by[k] for i, k in enumerate(('core', 'pke', 'binfhe'))), str(by)
    whole = sorted(os.path.realpath(p) for p in so if kind(p) is None)
    if whole: return lambda g: sorted(g) == whole, str(whole)
    return lambda g: g == ['openfhe'], 'openfhe'

def f_libs(c):
    r = c.r
    with world({}) as d:
        L = f'{d}/lib'
        names = fill_libs(r, L) if r.random() < 0.95 else touch(L)
        c.describe(sorted((n, os.path.islink(f'{L}/{n}'), os.path.isdir(f'{L}/{n}')) for n in os.listdir(L)) if os.path.isdir(L) else 'a file')
        ok, w = want_libs(L)
        g = oc._resolve_link_libs(r.choice([L, Path(L)]))
        c.check(ok(g), 'link-libraries', lambda: f'{g}, should be {w}')
        c.ev('library directories')

class redirected:
    """The system prefixes stand for directories of the scratch world."""
    def __init__(self, d):
        def R(*a):
            p = pathlib.Path(*a); s = str(p)
            return pathlib.Path(d + s) if s == '/usr' or s.startswith('/usr/') else p
        self.new = R
        self.ns = types.SimpleNamespace(**{k: getattr(pathlib, k) for k in dir(pathlib) if not k.startswith('_')}); self.ns.Path = R
    def __enter__(self):
        self.old = oc.Path, oc.pathlib
        oc.Path, oc.pathlib = self.new, self.ns
    def __exit__(self, *a): oc.Path, oc.pathlib = self.old

def system(r, d):
    """OpenFHE installed (or not) under the two prefixes; returns the configuration expected, or None."""
    want = None
    for pre in ('/usr/local', '/usr'):
        p = d + pre
        os.makedirs(p, exist_ok=True)
        if r.random() < 0.5: continue
        subs = [s for s in ('binfhe', 'core', 'pke') if r.random() < 0.7]
        for s in [''] + subs: os.makedirs(f'{p}/include/openfhe/{s}', exist_ok=True)
        for l in ('lib', 'lib64'):
            if r.random() < 0.7: fill_libs(r, f'{p}/{l}')
        if want: continue
        def has(l):
            ok, w = want_libs(f'{p}/{l}'); return os.path.isdir(f'{p}/{l}') and not (ok(['openfhe']))
        lib = next((l for l in ('lib', 'lib64') if has(l)), 'lib')
        want = ([f'{p}/include/openfhe'] + [f'{p}/include/openfhe/{s}' for s in ('binfhe', 'core', 'pke') if s in subs] + [f'{p}/include'], 'install-relative', f'{p}/{lib}')
    return want

def same_config(c, key, g, inc, typ, lib):
    c.same(key, (list(g.include_dirs), g.include_type, str(g.lib_dir)), (inc, typ, lib))
    ok, w = want_libs(lib)
    c.check(ok(g.link_libs), key + '-libraries', lambda: f'{g.link_libs}, should be {w}')

def f_openfhe(c):
    r = c.r
    env, D = {}, '{D}'
    incs = r.sample(['{D}/inc', '{D}/inc/openfhe', '{D}/x/openfhe', '{D}/inc/openfhe/core', '', '/abs/include/openfhe', '/abs/include', 'rel/openfhe', 'rel', 'openfhe_like', '{D}/openfhe/src'], r.randint(1, 5))
    if r.random() < 0.7: env['OPENFHE_INCLUDE_DIR'] = ':'.join(incs)
    if r.random() < 0.7: env['OPENFHE_LIB_DIR'] = r.choice(['{D}/lib', '/abs/lib', 'rel/lib', 'lib', ''])
    if r.random() < 0.4: env['OPENFHE_LINK_LIBS'] = r.choice(['openfhe', 'a:b:c', '', ':', 'x::y', '/abs/lib.so:z'])
    if r.random() < 0.4: env['OPENFHE_INCLUDE_TYPE'] = r.choice(['source-relative', 'install-relative', 'embedded'])
    if r.random() < 0.3: env['RUNFILES_DIR'] = '{D}/run'
    if r.random() < 0.2: env['TEST_SRCDIR'] = '{D}/srcdir'
    if r.random() < 0.2: env['OPENFHE_DEBUG'] = r.choice(['1', '0'])
    if r.random() < 0.5:
        for k in ('OPENFHE_INCLUDE_DIR', 'OPENFHE_LIB_DIR', 'OPENFHE_LINK_LIBS'): env.pop(k, None)
    marker = r.random() < 0.7
    if marker: env['HEIR_REPO_ROOT_MARKER'] = '{D}/root'
    with world(env) as d:
        for x in ('lib', 'run/lib', 'srcdir/lib', 'run/rel/lib'):
            if r.random() < 0.7: fill_libs(r, f'{d}/{x}')
        for x in ('inc', 'inc/openfhe', 'run/rel'):
            if r.random() < 0.7: os.makedirs(f'{d}/{x}', exist_ok=True)
        os.makedirs(f'{d}/cwd'); os.chdir(f'{d}/cwd')
        c.describe(sorted(env.items()), sorted(os.listdir(f'{d}/lib')) if os.path.isdir(f'{d}/lib') else '', r.getstate()[1][0])
        want_sys = system(r, d)
        inc, lib, link = (os.environ.get(k, '') for k in ('OPENFHE_INCLUDE_DIR', 'OPENFHE_LIB_DIR', 'OPENFHE_LINK_LIBS'))
        base = os.environ.get('RUNFILES_DIR', os.environ.get('TEST_SRCDIR'))
        err = io = None
        if not (inc or lib or link): want = None
        elif not inc or not lib: want = 'error'
        else:
            dirs = inc.split(':'); ld = lib
            if base is not None: dirs = [os.path.join(base, x) for x in dirs]; ld = os.path.join(base, ld)
            extra = []
            for x in dirs:
                if os.path.basename(x) == 'openfhe':
                    p = os.path.dirname(x) or '.'
                    if p not in dirs and p not in extra: extra.append(p)
            dirs = [x for x in dirs + extra if x]
            typ = os.environ.get('OPENFHE_INCLUDE_TYPE', 'install-relative')
            ll = [x for x in link.split(':') if x] if link else None
            want = 'error' if not dirs or ll == [] else (dirs, typ, ld, ll)
        import io, contextlib
        with redirected(d), contextlib.redirect_stderr(io.StringIO()):
            for fn, cascade in ((oc.from_os_env, False), (oc.resolve_config, True)):
                if want == 'error':
                    c.raises('incomplete-environment', (ValueError,), fn, f'{env}'); c.ev('incomplete environments'); continue
                if want is None and not cascade:
                    c.check(fn() is None, 'unset-environment', 'a configuration without any variable set'); continue
                if want is None and want_sys is None:
                    if marker:
                        g = fn(); R = f'{d}/root'; E = R + '/bazel-heir/external/'
                        c.same('development-openfhe', (list(g.include_dirs), g.include_type, str(g.lib_dir), list(g.link_libs)), ([E + 'openfhe+'] + [f'{E}openfhe+/src/{s}/include' for s in ('binfhe', 'core', 'pke')] + [E + 'cereal+/include'], 'source-relative', R + '/bazel-bin/external/openfhe+', ['openfhe']))
                        c.ev('development configurations')
                    elif DEFROOT is None: c.raises('nothing-found', (RuntimeError,), fn, 'no OpenFHE anywhere')
                    continue
                g = fn()
                if want is None:
                    same_config(c, 'installed-openfhe', g, *want_sys); c.ev('installed configurations')
                    continue
                dirs, typ, ld, ll = want
                c.ev('environment configurations')
                if ll is None: same_config(c, 'environment-openfhe', g, dirs, typ, ld)
                else: c.same('environment-openfhe', (list(g.include_dirs), g.include_type, str(g.lib_dir), list(g.link_libs)), (dirs, typ, ld, ll))
            if want_sys is None: c.check(oc.get_default_installed_config() is None, 'installed-openfhe', 'an installation where there is none')
            else: same_config(c, 'installed-openfhe', oc.get_default_installed_config(), *want_sys)

# ---------------------------------------------------------------- running tools
def script(d, name, rc=0, out='', err=''):
    p = f'{d}/{name}'
    touch(p, 0o755, '#!/bin/sh\nprintf "%s\\n" "$0" "$@" > ' + f'{d}/{name}.args\ncat > {d}/{name}.in < /dev/stdin\nprintf "%s" \'{out}\'\nprintf "%s" \'{err}\' >&2\n' + (f'kill -{rc} $$' if isinstance(rc, str) else f'exit {rc}') + '\n')
    return p

def f_cli(c):
    r = c.r
    rc = r.choice([0, 0, 0, 1, 2, 77, 255, 'SEGV', 'KILL', 'ABRT'])
    out, err = r.choice(['', 'text\nmore\n', 'x' * r.choice([10, 70000])]), r.choice(['', 'warning: w', 'error: e\n' * 3])
    opts = r.sample(['--a', '--b=c d', '-o', 'out file', '--x="y"', '*', '$HOME', '', '--émoji=✓'], r.randint(0, 5))
    inp = r.choice(['', 'module {}\n', 'line\n' * r.choice([1, 20000]), 'é\n'])
    c.describe(rc, len(out), err, opts, len(inp))
    with world({'PATH': '/usr/bin:/bin', 'LANG': 'C.UTF-8'}) as d:
        os.chdir(d)
        p = script(d, 'tool', rc, out, err)
        k = r.choice(['abs', 'path', 'rel'])
        bp = {'abs': p, 'path': Path(p), 'rel': r.choice(['tool', './tool'])}[k]
        be = r.choice([heir_cli.CLIBackend, heir_cli.HeirOptBackend, heir_cli.HeirTranslateBackend])(bp)
        both = r.random() < 0.5
        go = lambda: (be.run_binary_stderr if both else be.run_binary)(options=list(opts), input=inp)
        if rc:
            e = c.raises('tool-failure-ignored', (heir_cli.CLIError,), go, f'a tool exiting with {rc}')
            if e is not None:
                c.check(e.stdout == out and e.stderr == err and e.input == inp and list(e.options) == opts and str(e.command) == str(bp), 'tool-output-lost', lambda: f'{e.command} {e.options} {e.stdout[:50]!r} {e.stderr!r}')
                c.check(err in str(e) and out in str(e) and str(bp) in str(e) and all(o in str(e) for o in opts), 'tool-message', lambda: str(e)[:500])
            c.ev('failing tools run')
        else:
            c.same('tool-output', go(), (out, err) if both else out)
            c.ev('tools run')
        c.same('tool-arguments', open(f'{d}/tool.args').read(), '\n'.join([p] + opts) + '\n')
        c.same('tool-input', open(f'{d}/tool.in').read(), inp)

def f_cxx(c):
    r = c.r
    pathset = {k: r.choice(['no', 'yes', 'noexec']) for k in ('clang++', 'clang', 'g++', 'gcc')}
    setenv = {k: r.choice([None, None, None, 'mycc', '']) for k in ('CXX', 'CC')}
    explicit = r.random() < 0.2
    rc = r.choice([0, 0, 0, 1, 4])
    R = lambda xs: r.choice([None, [], r.sample(xs, r.randint(1, len(xs)))])
    inc, lsp, libs = R(['/i/a', '/i/b c', 'rel']), R(['/l/a', 'l']), R(['openfhe', '/abs/libx.so', 'm', '/abs/liby.so.1'])
    largs, absl = R(['-rpath', '/r:/s', '-z', 'now']), R(['/abs/one.so', Path('/abs/two.so')])
    flags = r.choice([None, ['-O0'], ['-g', '-std=c++20']])
    ext = r.choice(['.so', '.so', '.so', '.so', '.cpython-312-x86_64-linux-gnu.so', '.o', '', '.so.1', '.dylib'])
    c.describe(pathset, setenv, explicit, rc, inc, lsp, libs, largs, absl, flags, ext)
    env = {'PATH': '{D}/bin'}
    for k, v in setenv.items():
        if v is not None: env[k] = f'{{D}}/{k}-{v}' if v else ''
    with world(env) as d:
        os.makedirs(f'{d}/bin')
        # the stand-ins must not need a search path of their own
        tool = '#!/bin/sh\n: > {D}/ran\nprintf "%s\\n" "$0" "$@" > {D}/args\necho the-compiler-says-no >&2\necho on stdout\nexit {rc}\n'.replace('{D}', d).replace('{rc}', str(rc))
        for k, v in pathset.items():
            if v != 'no': touch(f'{d}/bin/{k}', 0o755 if v == 'yes' else 0o644, tool)
        for k in ('CXX', 'CC'): touch(f'{d}/{k}-mycc', 0o755, tool)
        touch(f'{d}/explicit', 0o755, tool)
        found = next((f'{d}/bin/{k}' for k in ('clang++', 'clang', 'g++', 'gcc') if pathset[k] == 'yes'), None)
        # CXX decides, CC only when CXX is not there at all
        if explicit: want = f'{d}/explicit'
        elif setenv['CXX'] is not None: want = os.environ['CXX'] or found
        else: want = os.environ.get('CC') or found
        ambiguous = not explicit and setenv['CXX'] == '' and setenv['CC']   # an empty CXX beside a set CC: both readings are fine
        mk = lambda: cc.CppCompilerBackend(f'{d}/explicit') if explicit else cc.CppCompilerBackend()
        if want is None:
            if not ambiguous: c.raises('no-compiler', (ValueError,), mk, 'no compiler anywhere'); c.ev('no compiler')
            return
        be = mk()
        if not ambiguous: c.same('compiler', str(be.compiler_binary_path), want)
        src, out = Path('/src/x.cpp'), Path(f'/out/x{ext}')
        kw = dict(include_paths=inc, linker_search_paths=lsp, link_libs=libs, linker_args=largs, abs_link_lib_paths=absl)
        if flags is not None: kw['compiler_flags'] = list(flags)
        snap = {k: list(v) if v is not None else None for k, v in kw.items()}
        printed = []
        if r.random() < 0.5: kw['arg_printer'] = printed.append
        go = lambda: be.compile_to_shared_object(src, out, **kw)
        if not ext.endswith('.so'):
            c.raises('not-a-shared-object', (ValueError,), go, str(out)); c.check(not os.path.exists(f'{d}/ran'), 'ran-anyway', ''); return
        if rc:
            e = c.raises('compiler-failure-ignored', (ValueError,), go, f'a compiler exiting with {rc}')
            if e is not None: c.check('the-compiler-says-no' in str(e) and '/src/x.cpp' in str(e), 'compiler-output-lost', lambda: str(e))
        else: go()
        args = open(f'{d}/args').read().split('\n')[:-1]
        c.ev('compilations')
        S = lambda xs, p='': [x if p == '-l' and str(x).startswith('/') else p + str(x) for x in (xs or [])]
        expect = [str(be.compiler_binary_path), '/src/x.cpp', '-o', str(out)] + S(absl) + (flags if flags is not None else ['-O3', '-fPIC', '-shared', '-std=c++17']) + S(inc, '-I') + S(lsp, '-L') + S(libs, '-l') + (['-Wl,' + ','.join(largs)] if largs else [])
        # order matters within a kind, and libraries must follow the source
        c.same('compile-arguments', sorted(args), sorted(expect))
        for p in ('-I', '-L'): c.same('compile-argument-order', [a for a in args if a.startswith(p)], [a for a in expect if a.startswith(p)])
        ls = set(S(libs, '-l')); c.same('compile-argument-order', [a for a in args if a in ls], S(libs, '-l'))
        c.check('-o' in args and args[args.index('-o') + 1] == str(out), 'compile-argument-order', lambda: args)
        c.check(all(args.index(x) > args.index('/src/x.cpp') for x in ls), 'compile-argument-order', lambda: args)
        c.check(not kw.get('arg_printer') or (len(printed) == 1 and [str(x) for x in printed[0]] == args), 'printed-arguments', lambda: printed)
        c.same('caller-lists-changed', {k: kw[k] for k in snap}, snap)
        c.same('default-flags-changed', cc.DEFAULT_COMPILER_FLAGS, ['-O3', '-fPIC', '-shared', '-std=c++17'])

def f_misc(c):
    r = c.r
    have = r.random() < 0.5
    inc, pinc = r.choice(['/py/inc', '/py inc', '']), r.choice(['/py/inc', '/py/plat'])
    penv = r.choice([None, '', '/pb', '/pb with space', '/py/inc'])
    plat = r.choice(['linux', 'darwin'])
    c.describe(have, inc, pinc, penv, plat)
    from shlex import quote
    env = {} if penv is None else {'PYBIND11_INCLUDE_PATH': penv}
    old = sysconfig.get_path, sysconfig.get_config_var, sys.platform
    mods = {k: v for k, v in sys.modules.items() if k.split('.')[0] == 'pybind11'}
    with world(env) as d:
        try:
            for k in mods: del sys.modules[k]
            if have:
                sys.modules['pybind11'] = types.ModuleType('pybind11'); m = types.ModuleType('pybind11.commands'); m.get_include = lambda *a: '/pkg/pybind11'; sys.modules['pybind11.commands'] = m
            else: sys.modules['pybind11'] = None; sys.modules['pybind11.commands'] = None
            sysconfig.get_path = lambda k, *a, **w: {'include': inc, 'platinclude': pinc, 'stdlib': '/py/lib/python3.12'}.get(k) if k in ('include', 'platinclude', 'stdlib') else old[0](k, *a, **w)
            sysconfig.get_config_var = lambda k: {'LIBDIR': '/py/libdir x', 'EXT_SUFFIX': '.abi.so'}.get(k) if k in ('LIBDIR', 'EXT_SUFFIX') else old[1](k)
            sys.platform = plat
            if not have and not penv: c.raises('pybind-missing', (ValueError,), ph.pybind11_includes)
            else:
                want = []
                for x in (inc, pinc, '/pkg/pybind11' if have else penv):
                    if x and x not in want: want.append(x)
                c.same('pybind-includes', ph.pybind11_includes(), [quote(x) for x in want])
            c.same('pybind-libs', ph.pybind11_libs(), [quote('/py/libdir x'), '/py/lib'])
            c.same('extension-suffix', ph.pyconfig_ext_suffix(), '.abi.so')
            libs = ph.python_link_libs()
            c.check(libs == ([f'python{sysconfig.get_python_version()}'] if plat == 'darwin' else []), 'python-libs', lambda: libs)
        finally:
            sysconfig.get_path, sysconfig.get_config_var, sys.platform = old
            for k in ('pybind11', 'pybind11.commands'): sys.modules.pop(k, None)
            sys.modules.update(mods)
    dep = r.choice(['json', 'numba', 'no_such_module_x', 'no_such_y'])
    if dep.startswith('no_'):
        e = c.raises('missing-extra', (ImportError,), lambda: _extras.require(dep, extra='myextra')); c.check(e is None or (dep in str(e) and 'myextra' in str(e)), 'missing-extra-message', lambda: str(e))
    else: c.check(_extras.require(dep, extra='x') is None, 'extra', dep)
    c.ev('helper configurations')

def f_entry(c):
    """The installed entry points replace themselves with the packaged tool, with the same arguments."""
    r = c.r
    where = r.choice(['package', 'parent', 'both', 'none'])
    tool = r.choice(['heir-opt', 'heir-translate'])
    argv = ['prog'] + r.sample(['--a', 'file name', '', '-o', '$X'], r.randint(0, 4))
    c.describe(where, tool, argv)
    calls = []
    old = entrypoints.__file__, os.execv, sys.argv, sys.stderr
    with world({}) as d:
        try:
            os.makedirs(f'{d}/pkg/heir'); entrypoints.__file__ = f'{d}/pkg/heir/entrypoints.py'
            if where in ('package', 'both'): touch(f'{d}/pkg/heir/{tool}', 0o755)
            if where in ('parent', 'both'): touch(f'{d}/pkg/{tool}', 0o755)
            class Gone(BaseException): pass
            def execv(p, a): calls.append((str(p), [str(x) for x in a])); raise Gone
            os.execv = execv; sys.argv = argv
            import io; sys.stderr = io.StringIO()
            fn = entrypoints.run_heir_opt if tool == 'heir-opt' else entrypoints.run_heir_translate
            try: fn(); end = 'returned'
            except Gone: end = 'exec'
            except SystemExit as e: end = e.code
        finally: entrypoints.__file__, os.execv, sys.argv, sys.stderr = old
        if where == 'none': c.check(end == 1 and not calls, 'entry-missing', lambda: f'{end} {calls}')
        else:
            p = f'{d}/pkg/{tool}' if where == 'parent' else f'{d}/pkg/heir/{tool}'
            c.check(end == 'exec' and calls == [(p, [p] + argv[1:])], 'entry-exec', lambda: f'{end} {calls}')
    c.ev('entry points run')

FAMS = {'tools': (f_tools, 1200), 'libs': (f_libs, 500), 'openfhe': (f_openfhe, 1200), 'cli': (f_cli, 500), 'cxx': (f_cxx, 900), 'misc': (f_misc, 200), 'entry': (f_entry, 120)}
if __name__ == '__main__': run_all(FAMS)
