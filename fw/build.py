"""Builds harnesses and tools from /repo's working tree into /verif/.build/<name>, offline.

flavour 'native': the flags and header shim /opt/vp/build.sh uses (unmodified sources, apt LLVM/MLIR 20).
flavour 'ovl':    LLVM 20 headers with the newer API HEIR expects grafted on (patches.py); reaches the sources
                  build.sh cannot compile.  Repository sources are used as they are, except purely syntactic
                  spelling changes (newer MLIR -> LLVM 20), written to .build/<name>/down.
Objects are rebuilt on every call; ccache (keyed by content) makes that cheap when it has seen the input.
"""
import fcntl, os, re, shutil, subprocess, sys, time
sys.path.insert(0, '/opt/vp/heir')
sys.dont_write_bytecode = True
import buildfiles

FW = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(FW)
REPO = os.environ.get('HEIR_REPO', '/repo')
LLVM = '/usr/lib/llvm-20'
WORK = os.environ.get('VERIF_BUILD', VERIF + '/.build')
SKIPT = ('lib/Transforms/YosysOptimizer:',)
SAN = '-fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=all -fno-omit-frame-pointer -g1'


class BuildError(Exception):
    pass


def wr(path, text):
    os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
    if os.path.islink(path): os.remove(path)
    elif os.path.exists(path) and open(path).read() == text: return
    with open(path, 'w') as f: f.write(text)


# ------------------------------------------------------------------ BUILD files
_targets = None
def load_targets():
    global _targets, _gen
    if _targets is not None: return _targets, _gen
    targets, gen = {}, []
    cwd = os.getcwd(); os.chdir(REPO)
    try:
        for pkg, kind, kw in buildfiles.load_all('lib') + buildfiles.load_all('tools'):
            targets[f"{pkg}:{kw.get('name')}"] = (pkg, kind, kw)
            if kind == 'gentbl_cc_library':
                outs = kw['tbl_outs']; td = norm(pkg, kw['td_file']).replace(':', '/')
                for opts, out in [(v, k) for k, v in outs.items()] if isinstance(outs, dict) else outs:
                    if out.endswith('.inc'): gen.append((f'{pkg}/{out}', td, ' '.join(opts), 'heir-tblgen' in kw['tblgen']))
    finally:
        os.chdir(cwd)
    _targets, _gen = targets, sorted(set(gen))
    return _targets, _gen

def norm(pkg, dep):
    dep = dep.removeprefix('@heir')
    if dep.startswith('@'): return dep
    if dep.startswith(':'): return pkg + dep
    if not dep.startswith('//'): return pkg + ':' + dep
    dep = dep[2:]
    return dep if ':' in dep else dep + ':' + dep.split('/')[-1]

def sources(l):
    pkg, _, kw = load_targets()[0][l]
    return [f'{pkg}/{s}' for s in kw.get('srcs') or [] if s.endswith(('.cpp', '.cc', '.c'))]

def closure(*labels):
    """All .cpp sources in the transitive deps of the given BUILD labels ('lib/Pkg:name')."""
    targets = load_targets()[0]
    seen, stack = set(), list(labels)
    while stack:
        x = stack.pop()
        if x in seen or x.startswith(SKIPT): continue
        seen.add(x)
        if x in targets: stack += [norm(targets[x][0], d) for d in targets[x][2].get('deps') or []]
        elif not x.startswith('@') and x in labels: raise BuildError(f'no BUILD target {x}')
    return sorted({s for x in seen if x in targets for s in sources(x)})

def label_of(src):
    """The BUILD label whose srcs contain this file."""
    for l in load_targets()[0]:
        if src in sources(l): return l
    raise BuildError(f'no BUILD target has {src}')


# ------------------------------------------------------------------ header overlay
def overlay(OV):
    if not os.path.exists(OV + '/.done'):
        shutil.rmtree(OV, ignore_errors=True)
        os.makedirs(OV + '/include', exist_ok=True)
        for d in ('mlir', 'mlir-c', 'llvm', 'llvm-c'):
            subprocess.run(['cp', '-rsL', os.path.realpath(f'{LLVM}/include/{d}'), f'{OV}/{d}'], check=True)
        for l, t in (('mlir/include', '..'), ('llvm/include', '..'), ('include/isl', '/usr/include/isl')):
            if not os.path.lexists(f'{OV}/{l}'): os.symlink(t, f'{OV}/{l}')
        wr(OV + '/.done', '')
    ns = {'CUR': {}, 'DOWNRULES': [], 're': re, 'os': os, 'REPO': REPO, 'LLVM': LLVM}
    CUR = ns['CUR']
    def cur(rel):
        if rel not in CUR: CUR[rel] = open(f'{LLVM}/include/{rel}').read()
        return CUR[rel]
    def patch(rel, *subs):
        t = cur(rel)
        for a, b in subs:
            assert a in t, (rel, a)
            t = t.replace(a, b, 1)
        CUR[rel] = t
    def rsub(rel, pat, rep, n=1):
        t, k = re.subn(pat, rep, cur(rel), count=n, flags=re.S)
        assert k, (rel, pat)
        CUR[rel] = t
    def append(rel, text):
        t = cur(rel)
        i = t.rfind('#endif')
        CUR[rel] = t[:i] + text + t[i:]
    def new(rel, text): CUR[rel] = text
    ns.update(cur=cur, patch=patch, rsub=rsub, append=append, new=new)
    exec(open(f'{FW}/patches.py').read(), ns)
    for rel, t in CUR.items(): wr(f'{OV}/{rel}', t)
    return ns['DOWNRULES']

def repo_files():
    out = []
    for top in ('lib', 'tools'):
        for root, _, fs in os.walk(f'{REPO}/{top}'):
            out += [os.path.relpath(os.path.join(root, f), REPO) for f in fs if f.endswith(('.td', '.cpp', '.h'))]
    return sorted(out)

def build(name, flavour, exes, opt='-O1', san=False, extra_flags='', jobs=8, targets=None, libs=''):
    """exes: {exe: (list of harness sources under /verif, list of repo sources)}. Returns the build directory."""
    t0 = time.time()
    B = f'{WORK}/{name}'
    os.makedirs(B, exist_ok=True)
    lock = open(f'{WORK}/{name}.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    for d in ('obj', 'gen', 'down', 'h'): shutil.rmtree(f'{B}/{d}', ignore_errors=True)
    for f in ('.ninja_log', '.ninja_deps', 'heir-tblgen', *exes):
        if os.path.exists(f'{B}/{f}'): os.remove(f'{B}/{f}')
    _, gen = load_targets()
    tb = closure('lib/Tablegen:heir-tblgen')
    DOWN, pch = set(), ''
    if flavour == 'ovl':
        OV = f'{WORK}/OV'
        l2 = open(f'{WORK}/OV.lock', 'w'); fcntl.flock(l2, fcntl.LOCK_EX)
        rules = overlay(OV)
        fcntl.flock(l2, fcntl.LOCK_UN)
        for f in repo_files():
            try: t = n = open(f'{REPO}/{f}').read()
            except UnicodeDecodeError: continue
            for pat, fn in rules:
                if re.search(pat, f): n = fn(n)
            if n != t:
                DOWN.add(f); wr(f'{B}/down/{f}', n)
        incl = f'-Idown -I{REPO} -Igen -I{FW} -I{FW}/solver -isystem ../OV -isystem /opt/vp/heir/shim/include -isystem /usr/include/eigen3'
        tinc = '-I../OV'
    else:
        incl = f'-I{REPO} -Igen -I{FW} -isystem /opt/vp/heir/shim -isystem {LLVM}/include -isystem /usr/include/eigen3'
        tinc = f'-I{LLVM}/include'
    cc = 'ccache ' if shutil.which('ccache') else ''
    s = SAN if san else ''
    out = f"""
cxxflags = -std=c++20 {opt} -w -ferror-limit=8 -DHEIR_ABC_BINARY='""' -DHEIR_YOSYS_SCRIPTS_DIR='""' {incl} {extra_flags}
san = {s}
ldflags = -fuse-ld=lld -L{LLVM}/lib -Wl,-rpath,{LLVM}/lib
rule cxx
  command = {cc}{LLVM}/bin/clang++ $cxxflags $fsan $pch -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule pch
  command = {LLVM}/bin/clang++ $cxxflags $fsan -x c++-header -Xclang -fno-pch-timestamp -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule cc
  command = {LLVM}/bin/clang -w -I{REPO} -MD -MF $out.d -c $in -o $out
rule link
  command = {LLVM}/bin/clang++ $in $fsan $ldflags $libs -o $out
rule tblgen
  command = $tool $opts $tdown -I{REPO} -I$dir {tinc} $in -d $out.d -o $out
  depfile = $out.d
  deps = gcc
tdown = {'-Idown' if flavour == 'ovl' else ''}
"""
    src = lambda f: ('down/' if f in DOWN else REPO + '/') + f
    for o, td, opts, heir in gen:
        tool = './heir-tblgen' if heir else LLVM + '/bin/mlir-tblgen'
        out += f"build gen/{o}: tblgen {src(td)} | {'heir-tblgen' if heir else tool}\n  tool = {tool}\n  opts = {opts}\n  dir = {REPO}/{os.path.dirname(td)}\n"
    unb = set()
    if flavour == 'native':
        unb = {x.strip() for x in open('/opt/vp/heir/unbuildable.txt')}
    out += 'build incs: phony ' + ' '.join(f'gen/{g[0]}' for g in gen if g[0] not in unb) + '\n'
    allsrc, hsrc = set(), set()
    for h, r in exes.values(): allsrc |= set(r); hsrc |= set(h)
    nob = lambda x: f'obj/tb/{x}.o'
    for x in tb: out += f"build {nob(x)}: cxx {src(x)}\n"
    out += f"build heir-tblgen: link {' '.join(map(nob, tb))}\n  libs = -lLLVMTableGen -lLLVM-20\n"
    dep, pf = 'incs', ''
    use_pch = flavour == 'ovl'
    if use_pch: out += f"build pch.h.pch: pch {FW}/pch.h\n  fsan = $san\n"
    ob = lambda x: f'obj/{x}.o'
    def rule(o, i, x):
        if x.endswith('.c'): return f"build {o}: cc {i}\n"
        if use_pch: return f"build {o}: cxx {i} | pch.h.pch || incs\n  pch = -include-pch pch.h.pch\n  fsan = $san\n"
        return f"build {o}: cxx {i} || incs\n  fsan = $san\n"
    for x in sorted(allsrc): out += rule(ob(x), src(x), x)
    for x in sorted(hsrc): out += rule(f'h/{x}.o', f'{VERIF}/{x}', x)
    for e, (h, r) in exes.items():
        objs = ' '.join([f'h/{x}.o' for x in h] + [ob(x) for x in sorted(set(r))])
        out += f"build {e}: link {objs}\n  libs = -lisl -lMLIR -lLLVM-20 -labsl_int128 -lpthread {libs}\n  fsan = $san\n"
    wr(f'{B}/build.ninja', out)
    env = dict(os.environ, CCACHE_DIR=os.environ.get('CCACHE_DIR', f'{VERIF}/.cache/ccache'), CCACHE_NOHASHDIR='1', CCACHE_MAXSIZE='6G',
               CCACHE_SLOPPINESS='pch_defines,time_macros,include_file_mtime,include_file_ctime', CCACHE_BASEDIR=WORK)
    os.makedirs(env['CCACHE_DIR'], exist_ok=True)
    p = subprocess.run(['ninja', '-j', str(jobs), *(targets or list(exes))], cwd=B, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        errs = [l for l in p.stdout.splitlines() if ' error: ' in l or l.startswith('ld') or 'FAILED' in l]
        raise BuildError(f'{name}: build failed\n' + '\n'.join(errs)[:3000] + '\n...\n' + p.stdout[-1500:])
    fcntl.flock(lock, fcntl.LOCK_UN)
    return B, time.time() - t0
