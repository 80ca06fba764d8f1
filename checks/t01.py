"""T01: target descriptions, generated and real, compiled with the repository's emitter and exercised."""
import concurrent.futures, json, os, random, shutil, subprocess, sys
import build, vt

BLGEN = build.LLVM + '/bin/llvm-tblgen'

def declared(td, incs):
    """What a description declares, as llvm-tblgen itself evaluates it: (class fields with their types and defaults, targets)."""
    p = subprocess.run([BLGEN, '-dump-json', *incs, td], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode: return None, p.stderr
    j = json.loads(p.stdout)
    return [dict(j[n], _def=n) for n in j['!instanceof'].get('CompilationTarget', [])], ''

def cstr(s): return json.dumps(s)
def cint(v): return f'INT64_C({v})'

def expected(fields, targets, registered, variant):
    """fields: [(name, 'int' or 'string', default)] without backendName."""
    I = [f for f in fields if f[1] == 'int']; T = [f for f in fields if f[1] == 'string']
    o = '#define INT_FIELDS(X) ' + ' '.join(f'X({f[0]})' for f in I) + '\n#define STR_FIELDS(X) ' + ' '.join(f'X({f[0]})' for f in T) + '\n'
    def want(d, name, e, reg, vals, fn):
        return (f'{{{cstr(d)}, {cstr(name)}, {e}, {fn}, {"true" if reg else "false"}, {{' + ', '.join(f'{{{cstr(f[0])}, {cint(vals[f[0]])}}}' for f in I) + '}, {'
                + ', '.join(f'{{{cstr(f[0])}, {cstr(vals[f[0]])}}}' for f in T) + '}}')
    o += 'const std::vector<Want> EXPECTED = {' + ',\n  '.join(want(t['_def'], t['backendName'], f'BackendName::{t["_def"]}', t['_def'] in registered, t, f'&registerTarget{t["_def"]}' if variant else 'nullptr') for t in targets) + '};\n'
    o += 'const Want DEFAULT = ' + want('', '', 'BackendName::None', False, {f[0]: (f[2] if f[2] is not None else (0 if f[1] == 'int' else '')) for f in fields}, 'nullptr') + ';\n'
    return o

def generate(r):
    """A target description and its fields."""
    fields = [('bootstrapLevelsConsumed', 'int'), ('has_kernel_chebyshev', 'int'), ('has_kernel_linear_transform', 'int')]
    for i in range(r.choice([0, 0, 1, 2, 4])): fields.append((r.choice(['extra', 'max_', 'libName', 'Q']) + str(i), r.choice(['int', 'string'])))
    if r.random() < 0.7: r.shuffle(fields)
    num = lambda: r.choice([0, 1, r.randint(-5, 60), r.randint(-2**62, 2**62)])
    text = lambda: ''.join(r.choice('abz._-/ 0') for _ in range(r.randint(0, 8)))
    val = lambda f: num() if f[1] == 'int' else text()
    lit = lambda v: str(v) if isinstance(v, int) else f'"{v}"'
    fields = [f + (val(f),) for f in fields]
    td = 'class CompilationTarget<string name> {\n'
    body = [f'  {t} {n} = {lit(d)};\n' for n, t, d in fields]
    body.insert(r.choice([0, 0, r.randint(0, len(body))]), '  string backendName = name;\n')
    td += ''.join(body) + '}\n'
    bases = [('CompilationTarget', False)]
    for i in range(r.randint(0, 3)):
        b, n = f'Base{i}', r.choice(bases)
        f = r.choice(fields)
        if f[1] == 'int' and r.random() < 0.5 and not n[1]:
            td += f'class {b}<string nm, int v> : {n[0]}<nm> {{\n  let {f[0]} = !add(v, {r.randint(0, 3)});\n}}\n'
            bases.append((b, True))
        else:
            td += f'class {b}<string nm{", int v" if n[1] else ""}> : {n[0]}<nm{", v" if n[1] else ""}> {{\n' + ''.join(f'  let {g[0]} = {lit(val(g))};\n' for g in r.sample(fields, r.randint(1, len(fields)))) + '}\n'
            bases.append((b, n[1]))
    names = set()
    for i in range(r.randint(1, 6)):
        b = r.choice(bases)
        d = r.choice(['T', 'OpenFHE', 'lattigo', 'Some_Target', 'X']) + r.choice(['', 'A', 'b']) + str(i)
        while True:
            n = r.choice([d.lower(), 'target-%d' % i, 'ns.t%d' % i, r.choice('abc') * r.randint(1, 3), 'openfhe' + 'x' * r.randint(0, 2)])
            if n not in names and n != 'none' and n != 'config_override': break
        names.add(n)
        lets = ''.join(f'  let {g[0]} = {lit(val(g))};\n' for g in r.sample(fields, r.randint(0, len(fields))))
        text_ = f'def {d} : {b[0]}<"{n}"{", " + str(num() // 8) if b[1] else ""}> {{\n{lets}}}\n'
        if r.random() < 0.2:
            g = r.choice(fields); text_ = f'let {g[0]} = {lit(val(g))} in {{\n{text_}}}\n'
        td += text_
    if r.random() < 0.3:
        g = r.choice([f for f in fields if f[1] == 'int'])
        td += f'foreach i = [1, 2] in {{\n  def Each#i : CompilationTarget<"each"#i> {{ let {g[0]} = i; }}\n}}\n'
    return td, fields

def main(pid):
    res = vt.Result(pid)
    res.rule = 'a case is one module with its attributes and the operations on it, or one override spelling, under one target description (the repository\'s, or a generated one); non-trivial cases are distinct by their full text'
    res.assumptions = ['llvm-tblgen -dump-json says what a description declares', 'override attributes of integer fields are signless and at most 64 bits wide; modules naming several backends, and unknown schemes, are not judged']
    n = 24 if vt.THOROUGH else 8
    srcs = ['lib/Target/CompilationTarget/CompilationTarget.cpp', 'lib/Target/CompilationTarget/RegisterAllBackends.cpp', 'lib/Transforms/AnnotateModule/AnnotateModule.cpp',
            'lib/Transforms/AnnotateModule/ApplyConfigOverride.cpp', 'lib/Dialect/ModuleAttributes.cpp']
    R, V = build.REPO, build.VERIF
    W = f'{build.WORK}/target/variants'
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W + '/real')
    inc = ['-I', R]
    ts, err = declared(f'{R}/lib/Target/CompilationTarget/AllTargets.td', inc)
    if not ts: print('error: the target descriptions are not understood', err); sys.exit(2)
    # the fields and defaults of the repository's class: a target that overrides nothing shows them
    open(W + '/real/probe.td', 'w').write('include "lib/Target/CompilationTarget/HEIRTarget.td"\ndef Probe : CompilationTarget<"probe">;\n')
    probe = declared(W + '/real/probe.td', inc)[0][0]
    fields = [(k, 'int' if isinstance(v, int) else 'string', v) for k, v in probe.items() if not k.startswith(('!', '_')) and k != 'backendName']
    build.wr(W + '/real/expected.inc', expected(fields, ts, {t['_def'] for t in ts}, False))
    try:
        B, secs = build.build('target', 'native', {'target.exe': (['harness/target.cpp'], srcs), 'sanblgen': ([], build.closure('lib/Tablegen:heir-tblgen'))},
                              san=True, extra_flags=f'-I{W}/real', libs='-lLLVMTableGen')
    except build.BuildError as e:
        print('error:', e); sys.exit(2)
    flags = f'-std=c++20 -O0 -w -DVARIANT -I{R} -I{B}/gen -I{V}/fw -isystem /opt/vp/heir/shim -isystem {build.LLVM}/include {build.SAN}'.split()
    env = dict(vt.ENV, CCACHE_DIR=os.environ.get('CCACHE_DIR', f'{V}/.cache/ccache'), CCACHE_NOHASHDIR='1', CCACHE_BASEDIR=build.WORK)
    def variant(i):
        D = f'{W}/v{i}'
        os.makedirs(D)
        td, fs = generate(random.Random(f'{vt.SEED}/target/{i}'))
        build.wr(D + '/t.td', td)
        ts, err = declared(D + '/t.td', [])
        if ts is None: return i, td, 'bad-description', err
        r = random.Random(f'{vt.SEED}/reg/{i}')
        reg = {t['_def'] for t in ts if r.random() < 0.8}
        build.wr(D + '/expected.inc', expected(fs, ts, reg, True))
        C = 'lib/Target/CompilationTarget/CompilationTarget'
        for act, out in (('struct', f'{C}Struct.h.inc'), ('overrides', f'{C}Overrides.cpp.inc'), ('registration', 'registration.inc')):
            os.makedirs(os.path.dirname(f'{D}/{out}'), exist_ok=True)
            p = subprocess.run([B + '/sanblgen', f'-gen-compilation-target-{act}', f'{D}/t.td', '-o', f'{D}/{out}'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode: return i, td, f'emitter-failed-{act}', p.stdout[-2000:]
        cc = ['ccache'] if shutil.which('ccache') else []
        p = subprocess.run(cc + [build.LLVM + '/bin/clang++', f'-I{D}', *flags, '-c', V + '/harness/target.cpp', '-o', f'{D}/t.o'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: return i, td, 'generated-code-does-not-compile', p.stdout[:3000]
        L = build.LLVM + '/lib'
        p = subprocess.run([build.LLVM + '/bin/clang++', f'{D}/t.o', *build.SAN.split(), '-fuse-ld=lld', f'-L{L}', f'-Wl,-rpath,{L}', '-lMLIR', '-lLLVM-20', '-lpthread', '-o', f'{D}/target.exe'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: return i, td, 'link', p.stdout[:3000]
        return i, td, None, None
    with concurrent.futures.ThreadPoolExecutor(8) as ex: vs = list(ex.map(variant, range(n)))
    vt.run_monitor(res, B, 'target.exe')
    for i, td, bad, msg in vs:
        if bad in ('link', 'bad-description'): print(f'error: variant {i}: {bad}: {msg}\n{td}'); sys.exit(2)
        if bad:
            res.case('T01_emitted', td); res.fail(bad, td, msg); continue
        res.case('T01_emitted', td); res.ev('descriptions compiled')
        before = {k: len(v) for k, v in res.viol.items()}
        vt.run_monitor(res, f'{W}/v{i}', 'target.exe', scale=0.25)
        for k, v in res.viol.items():
            for j in range(before.get(k, 0), len(v)): v[j] = (v[j][0] + '\ndescription:\n' + td, v[j][1], v[j][2])
    res.extra['instrumentation'] = 'AddressSanitizer + UndefinedBehaviorSanitizer, assertions on'
    res.finish()
