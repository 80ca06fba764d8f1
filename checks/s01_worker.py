"""Runs the developer scripts on generated inputs with recording stand-ins for the programs they call."""
import contextlib, datetime, io, json, os, pathlib, re, shlex, shutil, stat, subprocess, sys, tempfile, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pylib
from pylib import REPO, run_all
sys.path.insert(0, REPO)
ARGV = sys.argv; sys.argv = ['x']
from scripts import lit_to_bazel_lib as lit, e2e_to_bazel_lib as e2e, get_version as gv
from scripts.torch_ci import entrypoint as tc
sys.argv = ARGV
ANY = (Exception,)

class scratch:
    def __init__(self, env={}): self.env = env
    def __enter__(self):
        self.old, self.cwd = dict(os.environ), os.getcwd()
        self.t = tempfile.TemporaryDirectory(); d = os.path.realpath(self.t.name)
        os.environ.update({k: v.replace('{D}', d) for k, v in self.env.items()})
        return d
    def __exit__(self, *a):
        os.chdir(self.cwd); os.environ.clear(); os.environ.update(self.old); self.t.cleanup()

def printed(fn, *a, **k):
    b = io.StringIO()
    with contextlib.redirect_stdout(b): v = fn(*a, **k)
    return v, b.getvalue()

# ---------------------------------------------------------------- run lines
def logical(text):
    """The commands of a test file, joined over continued lines as lit joins them."""
    out = []
    for l in text.split('\n'):
        if '// RUN:' not in l: continue
        t = l.split('// RUN:', 1)[1].strip()
        if out and out[-1].endswith('\\'): out[-1] = out[-1][:-1].rstrip() + ' ' + t
        else: out.append(t)
    return out

def stages(cmd, sep='|'):
    out, q = [''], None
    for ch in cmd:
        if q: q = None if ch == q else q
        elif ch in '"\'': q = ch
        elif ch == sep: out.append(''); continue
        out[-1] += ch
    return [' '.join(s.split()) for s in out]

def expected(text):
    """Pipelines, without the stages that only check output."""
    ps = [[s for s in stages(c) if 'FileCheck' not in s] for c in logical(text)]
    return [p for p in ps if p]

def pipelines(cmd):
    """A printed command, as pipelines of stages; commands may be separated by &&, ; or new lines."""
    out = []
    for part in re.split(r'&&|;|\n', cmd):
        ss = stages(part)
        if ss != ['']: out.append(ss)
    return out

TOOLS = ['heir-opt', 'heir-translate', 'mlir-opt', 'mlir-translate', 'not heir-opt', 'llc', 'sed s/a/b/']
FLAGS = ['--canonicalize', '--cse', '--mlir-to-ckks=min-slot-count=8', '"--annotate-module=backend=openfhe scheme=ckks"', '--emit-verilog', '--pass-pipeline="builtin.module(func.func(cse))"', '-split-input-file', '--verify-diagnostics', "--x='a b'", '--yosys-optimizer="mode=LUT abc-fast=true"', '%s', '-o -', '2>&1']
def gen_cmds(r):
    cmds = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.random()
        n = r.randint(1, 3)
        st = [[r.choice(TOOLS)] + r.sample(FLAGS[:-1], r.randint(0, 4)) for _ in range(n)]
        if k < 0.55: st.append(['FileCheck', '%s'] + (['--check-prefix=' + r.choice(['A', 'HDR'])] if r.random() < 0.3 else []))
        elif k < 0.8:
            st[-1] += ['>', r.choice(['%t', '%t.ll', '/dev/null'])]
            cmds.append(st)
            st = [['FileCheck', '%s', '<', '%t']]
        cmds.append(st)
    return cmds

def render(r, cmds):
    lines = []
    for st in cmds:
        words = []
        for i, s in enumerate(st):
            if i: words.append('|')
            words += s
        cur = []
        for i, w in enumerate(words):
            cur.append(w)
            if i + 1 < len(words) and r.random() < 0.25:
                lines.append('// RUN: ' + ' '.join(cur) + ' \\'); cur = []
        lines.append('// RUN: ' + ' '.join(cur))
    out = []
    for l in lines:
        if r.random() < 0.15: out.append(r.choice(['', '// CHECK: x | y', '// a comment > here', 'func.func @f() {', '// REQUIRES: x']))
        out.append(r.choice(['', '', '  ']) + l + r.choice(['', '', '  ']))
    return '\n'.join(out + ['module {}', '']), len(lines)

def judge_lit(c, text, got, key):
    want = pipelines(' && '.join(' | '.join(p) for p in expected(text)))
    c.check(pipelines(got) == want, key, lambda: f'the run lines ask for {want}, the command is\n  {got}\nfor\n' + '\n'.join(l for l in text.split('\n') if 'RUN' in l))

def f_lit(c):
    r = c.r
    cmds = gen_cmds(r)
    text, nl = render(r, cmds)
    c.describe(text)
    with scratch() as d:
        p = f'{d}/t.mlir'
        open(p, 'w').write(text)
        if not expected(text): c.trivial = True; return
        judge_lit(c, text, lit.get_command_without_bazel_prefix(p), f'run-lines')
        c.ev('run lines converted', nl)
        # the list of commands keeps every stage, in order
        lst = [' '.join(x.split()) for x in lit.convert_to_run_commands([l + '\n' for l in text.split('\n') if r.random() < 2])]
        c.same('run-commands', [x for x in lst if x != lit.PIPE], [s for cmd in logical(text) for s in stages(cmd)], 'stages')
        # the whole conversion
        pre, tr, root = r.choice(['bazel run //tools', '/bin/x']), r.choice([lit.DEFAULT_HEIR_TRANSLATE_PREFIX, '/opt/heir-translate']), r.choice(['', '/git'])
        os.chdir(d)
        _, out = printed(lit.lit_to_bazel, r.choice([p, 't.mlir']), git_root=root, tool_prefix=pre, heir_translate_prefix=tr)
        out = out.strip().split('\n')[-1] if '\n' not in out.strip() else out.strip()
        want = [[s.replace('heir-opt', pre + ':heir-opt --').replace('heir-translate', tr.format(git_root=root)).replace('%s', p) for s in q] for q in expected(text)]
        c.check(pipelines(out) == [[' '.join(s.split()) for s in q] for q in want], 'bazel-command', lambda: f'{out}\nshould run {want}')
    c.raises('missing-file', (ValueError,), lambda: printed(lit.lit_to_bazel, r.choice(['', '/no/such/file.mlir'])))

FILES = []
def f_real(c):
    """The test files of the repository themselves."""
    if not FILES:
        for dd, ds, fs in os.walk(REPO + '/tests'):
            ds.sort()
            for f in sorted(fs):
                p = f'{dd}/{f}'
                if f.endswith(('.mlir', '.td', '.test', '.tosa')):
                    t = open(p, errors='ignore').read()
                    if '// RUN:' in t and expected(t): FILES.append((p, t))
    if not FILES: c.trivial = True; return
    c.describe('files of the repository')
    mine = c.r.sample(FILES, min(len(FILES), 60))
    for p, t in mine: judge_lit(c, t, lit.get_command_without_bazel_prefix(p), 'run-lines-of-tests')
    c.ev('test files converted', len(mine))

def f_norm(c):
    """Names of tests, as labels or paths, resolve to the file meant."""
    r = c.r
    base = r.choice(['', 'base', 'third_party/heir'])
    ws = r.random() < 0.6
    sub = r.choice(['tests', 'tests/Transforms/x', 'a'])
    name = r.choice(['t.mlir', 'my-test.mlir', 'x_y.mlir'])
    where = r.choice(['plain', 'inbase', 'both', 'none'])
    form = r.choice(['path', 'label', 'label//', 'prefixed'])
    c.describe(base, ws, sub, name, where, form)
    with scratch({'BUILD_WORKSPACE_DIRECTORY': '{D}/ws'} if ws else {}) as d:
        if not ws: os.environ.pop('BUILD_WORKSPACE_DIRECTORY', None)
        os.makedirs(f'{d}/ws'); os.makedirs(f'{d}/cwd')
        top = f'{d}/ws' if ws else f'{d}/cwd'
        os.chdir(f'{d}/cwd')
        rel = f'{sub}/{name}'
        def mk(p): os.makedirs(os.path.dirname(f'{top}/{p}'), exist_ok=True); open(f'{top}/{p}', 'w').close()
        if where in ('plain', 'both'): mk(rel)
        if where in ('inbase', 'both') and base: mk(f'{base}/{rel}')
        p0 = {'path': rel, 'label': f'{sub}:{name}.test', 'label//': f'//{sub}:{name}.test', 'prefixed': f'{base}/{rel}' if base else rel}[form]
        asked = f'{base}/{rel}' if form == 'prefixed' and base else rel
        ex = lambda p: os.path.exists(f'{top}/{p}')
        if ex(asked): want = asked
        elif base and ex(f'{base}/{asked}'): want = f'{base}/{asked}'
        elif base and asked.startswith(base + '/') and ex(asked[len(base) + 1:]): want = asked[len(base) + 1:]
        else: want = None
        (got, _) = printed(lit.normalize_lit_test_file_arg, p0, base_path=base)
        if want is not None: c.same('test-file', os.path.realpath(got) if not ws else os.path.normpath(got), f'{top}/{want}', p0); c.ev('test names resolved')
        else: c.check(not os.path.exists(got), 'test-file', lambda: f'{p0} resolves to {got}'); c.ev('test names refused')
        # the same, as a label
        hb = r.random() < 0.7
        if hb:
            for q in (rel, f'{base}/{rel}'):
                if os.path.isdir(f'{top}/{os.path.dirname(q)}'): open(f'{top}/{os.path.dirname(q)}/BUILD', 'w').close()
        if not form.startswith('label'):
            got = e2e.path_to_label(asked, base_path=base)
            if want is not None and hb: c.same('label', got, f'//{os.path.dirname(want)}:{name}', asked)
            else: c.same('label', got, asked)
        c.same('label', e2e.path_to_label('//x:y'), '//x:y')

def f_e2e(c):
    r = c.r
    flags = [r.choice(['--cse', '--annotate-module=backend=openfhe scheme=ckks', '--x="q"', "--y='z'", '--mlir-to-ckks=min-slot-count=1024', '--w=a$b', '--s=a;b', '--empty=', '--amp=a&b', '--star=*', '--lt=<x>']) for _ in range(r.randint(0, 5))]
    pkg, tgt, src = r.choice(['tests/Examples/a', 'x/y']), r.choice(['dot_test', 'foo']), r.choice(['dot.mlir', 'my_file.mlir'])
    spkg = r.choice(['tests/Examples/common', 'x'])
    form = r.choice(['label', 'file', 'dir', 'dep', 'nothing', 'otherrule', 'nosrc', 'badxml'])
    ws = r.random() < 0.6
    rc = r.choice([0, 3])
    c.describe(flags, pkg, tgt, src, form, ws, rc)
    label = f'//{pkg}:{tgt}_heir_opt'
    from xml.sax.saxutils import quoteattr as qa
    extra = r.random() < 0.5
    xml = '<?xml version="1.1" encoding="UTF-8" standalone="no"?>\n<query version="2"><rule class=' + ('"cc_test"' if form == 'otherrule' else '"heir_opt"') + f' name={qa(label)}>' + \
        ('<string name="name" value="n"/><list name="other"><string value="--not-a-pass"/></list><label name="tool" value="//tools:heir-opt"/>' if extra else '') + \
        '<list name="pass_flags">' + ''.join(f'<string value={qa(f)}/>' for f in flags) + '</list>' + ('' if form == 'nosrc' else f'<label name="src" value="//{spkg}:{src}"/>') + '</rule></query>'
    if form == 'badxml': xml = '<query><rule'
    with scratch({'PATH': '{D}/bin:/usr/bin:/bin'}) as d:
        os.environ.pop('BUILD_WORKSPACE_DIRECTORY', None)
        if ws: os.environ['BUILD_WORKSPACE_DIRECTORY'] = f'{d}/ws'
        for s in ('bin', f'ws/{pkg}', f'ws/{spkg}'): os.makedirs(f'{d}/{s}', exist_ok=True)
        open(f'{d}/ws/{pkg}/BUILD', 'w').close(); open(f'{d}/ws/{spkg}/BUILD', 'w').close(); open(f'{d}/ws/{spkg}/{src}', 'w').close()
        open(f'{d}/xml', 'w').write(xml)
        first = {'label': f'kind(heir_opt, //{pkg}:*)', 'file': f'kind(heir_opt, rdeps(//tests/Examples/..., //{spkg}:{src}))', 'dir': f'kind(heir_opt, //{pkg}:*)', 'dep': f'kind(heir_opt, deps(//{pkg}:{tgt}))'}.get(form, f'kind(heir_opt, //{pkg}:*)')
        # as bazel does: any order of options, the query is the argument that is not one
        open(f'{d}/bin/bazel', 'w').write('#!/usr/bin/env python3\nimport sys, os\n'
            f'open({d + "/log"!r}, "a").write(repr((os.getcwd(), sys.argv[1:])) + "\\n")\n'
            f'if sys.argv[1:3] == ["info", "workspace"]: print({d + "/ws"!r}); sys.exit(0)\n'
            'q = [a for a in sys.argv[2:] if not a.startswith("--")]\n'
            f'if "--output=xml" in sys.argv: print(open({d + "/xml"!r}).read() if q == [{label!r}] else "")\n'
            f'elif {form != "nothing"!r} and q == [{first!r}]: print({label!r})\n'
            f'sys.exit({rc})\n')
        os.chmod(f'{d}/bin/bazel', 0o755)
        os.chdir(f'{d}/ws')
        arg = {'label': f'//{pkg}:{tgt}', 'file': f'{spkg}/{src}', 'dir': pkg, 'dep': f'//{pkg}:{tgt}', 'nothing': r.choice(['//q:r', 'nowhere', 'no/such.mlir'])}.get(form, f'//{pkg}:{tgt}')
        pre = r.choice(['bazel run //tools', 'blaze run //dummy/tools'])
        _, out = printed(e2e.e2e_to_bazel, arg, tool_prefix=pre)
        if form in ('nothing', 'otherrule', 'nosrc', 'badxml'):
            c.check(':heir-opt --' not in out and out.strip(), 'command-from-nothing', lambda: out); c.ev('targets refused')
        else:
            cmd = out.strip().split('\n')[-1]
            try: words = shlex.split(cmd)
            except ValueError: words = None
            c.same('target-command', words, shlex.split(pre + ':heir-opt') + ['--'] + flags + [f'{d}/ws/{spkg}/{src}'], f'{form} {arg}')
            c.ev('targets converted')
        for l in (open(f'{d}/log').read().split('\n')[:-1] if os.path.exists(f'{d}/log') else []):
            cwd, a = eval(l)
            c.check(a[0] == 'info' or '--keep_going' in a and (not ws or cwd == f'{d}/ws'), 'query', lambda: l)

# ---------------------------------------------------------------- versions
class Clock:
    """A datetime module whose present moment is fixed."""
    def __init__(self, now):
        class DT(datetime.datetime):
            @classmethod
            def now(cls, tz=None): return now.astimezone(tz) if tz else now.astimezone().replace(tzinfo=None)
            @classmethod
            def utcnow(cls): return now.astimezone(datetime.timezone.utc).replace(tzinfo=None)
            @classmethod
            def today(cls): return cls.now()
        self.ns = types.SimpleNamespace(**{k: getattr(datetime, k) for k in dir(datetime) if not k.startswith('_')}); self.ns.datetime = DT
    def __enter__(self): self.old = gv.datetime; gv.datetime = self.ns
    def __exit__(self, *a): gv.datetime = self.old

def vkey(v):
    """Order of versions: the numbers, then development releases before the release itself."""
    m = re.fullmatch(r'(\d+(?:\.\d+)*)(?:\.dev(\d+))?', v)
    if not m: return None
    n = [int(x) for x in m[1].split('.')]
    while n and n[-1] == 0: n.pop()
    return n, float('inf') if m[2] is None else int(m[2])

def f_version(c):
    r = c.r
    now = datetime.datetime(r.choice([2024, 2026, 2027]), r.randint(1, 12), r.randint(1, 28), r.choice([0, 0, 23, 23, r.randint(0, 23)]), r.choice([0, 59, 30]), tzinfo=datetime.timezone.utc)
    day = now.strftime('%Y.%m.%d')
    near = [(now + datetime.timedelta(days=k)).strftime('%Y.%m.%d') for k in (-1, -2, -31)]
    pub = []
    for _ in range(r.choice([0, 1, 3, 8, 30])):
        k = r.random()
        if k < 0.5: pub.append(f'{day}.dev{r.choice([r.randint(0, 12), r.randint(0, 120)])}')
        elif k < 0.7: pub.append(f'{r.choice(near)}.dev{r.randint(0, 300)}')
        elif k < 0.8: pub.append(r.choice([near[0], '0.1.0', '2023.01.01']))
        else: pub.append(r.choice([f'{day}.dev{r.randint(300, 999)}.post1', f'{day}.dev', f'{day}.devx', f'{day}.rc{r.randint(1, 9)}', f'1{day}.dev500', f'{day}1.dev700', f'{day.replace(".", "x")}.dev800', f'{day}.dev9a']))
    r.shuffle(pub)
    pkg = r.choice(['heir_py', 'other'])
    c.describe(now.isoformat(), sorted(pub), pkg)
    asked = []
    class Resp:
        def __init__(self, s): self.status_code = s; self.ok = s == 200
        def json(self): return {'info': {}, 'releases': {v: [] for v in pub}}
        def raise_for_status(self):
            if self.status_code != 200: raise gv.requests.exceptions.HTTPError(str(self.status_code))
    mode = r.choice(['ok'] * 8 + ['404', 'raise'])
    def get(url, *a, **k):
        asked.append(url)
        if mode == 'raise': raise gv.requests.exceptions.ConnectionError('no network')
        return Resp(200 if mode == 'ok' else 404)
    old = gv.requests.get
    gv.requests.get = get
    try:
        with Clock(now), contextlib.redirect_stderr(io.StringIO()):
            v = gv.get_next_dev_version(pkg)
            c.check(bool(asked) and all(re.search(rf'/{pkg}/', u + '/') for u in asked), 'package-asked', lambda: asked)
            c.check(re.fullmatch(re.escape(day) + r'\.dev\d+', v) is not None, 'version-form', lambda: f'{v} on {now}')
            if mode == 'ok':
                mine = [p for p in pub if re.fullmatch(re.escape(day) + r'\.dev\d+', p)]
                c.check(v not in pub and all(vkey(v) > vkey(p) for p in mine), 'version-not-newest', lambda: f'{v} with {sorted(mine)} published')
                c.same('version-skips', v, f'{day}.dev{max([int(p.rsplit("dev", 1)[1]) for p in mine], default=-1) + 1}')
                c.check(all(vkey(v) > vkey(p) for p in pub if vkey(p) and (p.split('.dev')[0] in near or p in near)), 'version-not-newest', lambda: f'{v} against {pub}')
                c.ev('versions computed')
            # the publishing decision
            ev = r.choice(['workflow_dispatch', 'schedule', 'pull_request', 'push'])
            tag = r.choice([None, '', 'v1.2.3', '2026.04.01', 'v2026.4.1'])
            ref = r.choice(['refs/heads/main', 'refs/heads/dev', 'refs/tags/v1', 'refs/pull/1/merge', 'refs/heads/main2'])
            got = gv.calculate_version(ev, ref, tag, pkg)
            bare = (tag or '').lstrip('v')
            if ev == 'workflow_dispatch': want = (bare, 'true') if tag else (v, 'true') if ref == 'refs/heads/main' else ('0.0.0', 'false')
            elif ev == 'schedule': want = (bare if tag else day, 'true')
            else: want = ('0.0.0', 'false')
            c.same('version', tuple(got), want, f'{ev} {ref} {tag}')
            with scratch({'GITHUB_OUTPUT': '{D}/out'}) as d:
                open(f'{d}/out', 'w').write('before=1\n')
                gha = r.random() < 0.6
                sys.argv = ['get_version.py', '--event', ev, '--ref', ref, '--package', pkg] + (['--tag', tag] if tag is not None else []) + (['--gha'] if gha else [])
                try: _, out = printed(gv.main)
                finally: sys.argv = ARGV
                c.same('version-printed', out.split(), [f'version={want[0]}', f'should_publish={want[1]}'])
                c.same('version-output', open(f'{d}/out').read(), 'before=1\n' + (f'version={want[0]}\nshould_publish={want[1]}\n' if gha else ''))
    finally: gv.requests.get = old

# ---------------------------------------------------------------- coverage
def f_torch(c):
    r = c.r
    names = r.sample(['add', 'conv2d', 'relu', 'matmul', 'z', 'a_b', 'Softmax', 'max.pool', 'x-y', 'op10', 'op9'], r.randint(0, 8))
    plan = {n: r.choice(['pass', 'pass', 'export', 'nomlir', 'opt', 'crash', 'noisy']) for n in names}
    c.describe(sorted(plan.items()))
    errs = {n: r.choice(['boom', 'line one\nline two', 'x' * 300, '<unknown>:0: error: bad thing', '', '{D}/ci/models/m.mlir:3:9: error: no good\nnote: x', 'é error']) for n in names}
    with scratch() as d:
        M = pathlib.Path(f'{d}/ci/models'); M.mkdir(parents=True)
        for n in names: (M / f'{n}.py').touch()
        for x in r.sample(['README.md', 'add.mlir.bak', '__init__.pyc', 'notes.txt', 'BUILD'], 2): (M / x).touch()
        if r.random() < 0.5: (M / 'dir.py').mkdir()
        if r.random() < 0.5: (M / '__pycache__').mkdir()
        log = []
        class Ex:
            def run(self, cmd, cwd=None):
                log.append((cmd, cwd))
                R = types.SimpleNamespace
                m = re.search(r'([^/ ]+)\.(py|mlir)$', cmd)
                n = m[1]
                if m[2] == 'py':
                    if plan[n] not in ('export', 'nomlir'): (M / f'{n}.mlir').touch()
                    return R(returncode=3 if plan[n] == 'export' else 0, stderr=errs[n] if plan[n] == 'export' else r.choice(['', 'warning']), stdout=f'export of {n}')
                bad = plan[n] in ('opt', 'crash')
                return R(returncode={'opt': 1, 'crash': -6}.get(plan[n], 0), stderr=(errs[n] if plan[n] == 'opt' else 'PLEASE submit a bug report to https://x\nStack dump:\n0. ' + 'z' * 200 if bad else 'warning: w' if plan[n] == 'noisy' else ''), stdout=r.choice(['', f'out of {n}']))
        run = tc.CoverageRunner(executor=Ex(), models_dir=M, heir_opt_path='/tools/heir-opt')
        with contextlib.redirect_stderr(io.StringIO()): res = run.run_all()
        c.same('models-covered', sorted(res), sorted(names)); c.check(list(res) == sorted(res), 'models-order', lambda: list(res))
        status = {'pass': 'PASS', 'noisy': 'PASS', 'export': 'FAIL (Export)', 'nomlir': 'FAIL (No MLIR)', 'opt': 'FAIL (heir-opt)', 'crash': 'FAIL (heir-opt)'}
        for n in names:
            if n not in res: continue
            c.same('model-status', res[n][0], status[plan[n]], n)
            if plan[n] in ('export', 'opt'): c.same('model-details', res[n][1], errs[n], n)
            ex = [l for l in log if l[0].endswith(f'/{n}.py')]; op = [l for l in log if l[0].endswith(f'/{n}.mlir')]
            c.check(len(ex) == 1 and len(op) == (plan[n] not in ('export', 'nomlir')), 'model-runs', lambda: f'{n}: {ex} {op}')
            for l in op: c.check(l[0].startswith('/tools/heir-opt ') and str(M / f'{n}.mlir') in l[0], 'model-command', lambda: l)
            logs = [f for f in (os.listdir(f'{d}/ci/failure_logs') if os.path.isdir(f'{d}/ci/failure_logs') else []) if f.startswith(n + '_')]
            c.check((len(logs) == 1) == (status[plan[n]] != 'PASS'), 'failure-log', lambda: f'{n}: {logs}')
            if plan[n] in ('export', 'opt') and logs: c.check(errs[n] in open(f'{d}/ci/failure_logs/{logs[0]}').read(), 'failure-log', lambda: f'{n}: the log lacks the error output')
            c.ev('models covered')
        table = run.format_results_table(res)
        rows = [l for l in table.split('\n') if l.startswith('| ') and not l.startswith(('| Operator', '| ---'))]
        c.same('table-rows', [l.split(' | ')[0][2:] for l in rows], list(res)); c.check(len([l for l in table.split('\n') if l.strip()]) == len(rows) + 3, 'table-form', lambda: table)
        for l, n in zip(rows, res):
            c.check(l.endswith('|') and f'| {n} | {res[n][0]} |' in l, 'table-row', lambda: l)
            c.check(len(l) <= len(n) + 140, 'table-row-long', lambda: l)
            if plan[n] in ('export', 'opt'):
                head = errs[n].split('\n')[0]
                head = head[head.index('error:'):] if re.match(r'.*(\.mlir:\d+:\d+|<unknown>:\d+): error:', head) else head
                c.check(head[:90] in l, 'table-details', lambda: f'{l} for {errs[n]!r}')
    # the real executor
    rc = r.choice([0, 1, 9])
    with scratch() as d:
        x = tc.CommandExecutor().run(f'echo out; echo err >&2; pwd; exit {rc}', cwd=d)
        c.check((x.returncode, x.stdout, x.stderr) == (rc, f'out\n{d}\n', 'err\n'), 'executor', lambda: x)

# ---------------------------------------------------------------- other generators
def optional(name):
    import importlib
    sys.argv = ['x']
    try: return importlib.import_module(name)
    except ImportError: return None
    finally: sys.argv = ARGV

def f_roots(c):
    m = optional('scripts.generate_static_roots')
    if m is None: c.trivial = True; c.ev('not importable: generate_static_roots'); return
    r = c.r
    q = r.choice([17, 97, 193, 257, 769, 7681, 12289, 40961, 65537, 114689, 147457, 163841, 557057, 3, 7, 13, 786433, 1032193])
    n = 2 ** r.randint(1, 9)
    c.describe(q, n)
    x = m.primitive_2nth_root(n, q)
    exists = (q - 1) % (2 * n) == 0
    c.check((x is not None) == exists, 'root-existence', lambda: f'{x} for degree {n} modulo {q}')
    if x is not None: c.check(pow(x, n, q) == q - 1, 'root-order', lambda: f'{x}^{n} is not -1 modulo {q}')
    buf = io.StringIO(); ds = [2 ** k for k in range(1, 7)]
    mp = {p: m.generate_roots(p, ds) for p in r.sample([17, 97, 193, 257], 2)}
    m.output_map(buf, mp, '32', ds)
    ent = re.findall(r'\{\{(\d+), (\d+)\}, (\d+)\}', buf.getvalue())
    c.same('root-table', sorted(tuple(map(int, e)) for e in ent), sorted((p, dg, rt) for p, v in mp.items() for dg, rt in zip(ds, v) if rt))
    c.ev('roots generated', len(ent) + 1)

def f_stats(c):
    m = optional('scripts.author_stats')
    if m is None: c.trivial = True; return
    r = c.r
    raw = []
    for _ in range(r.randint(0, 25)):
        raw.append({'commit': {'author': {'date': f'20{r.randint(23, 26)}-{r.randint(1, 12):02}-{r.randint(1, 28):02}T0{r.randint(0, 9)}:00:00Z', 'email': r.choice(['a@x', 'b@y', '49699333+dependabot[bot]@users', 'no-reply@google.com', None]), 'name': r.choice(['Ann', 'Bob', 'Cy'])},
                               'message': r.choice(['fix\n\nmore', 'Integrate LLVM at llvm/llvm-project@abc', 'Bump x (dependabot)', 'one line'])}})
    c.describe(raw)
    got = m.extract_commits(raw)
    keep = [x for x in raw if not (x['commit']['author']['email'] and any(p in x['commit']['author']['email'] for p in ('dependabot', 'no-reply@google.com'))) and not any(p in x['commit']['message'] for p in ('Integrate LLVM at', 'dependabot'))]
    c.same('commits-kept', [(g['author'], g['email'], g['message']) for g in got], [(x['commit']['author']['name'], x['commit']['author']['email'], x['commit']['message'].split('\n')[0]) for x in keep])
    st = m.compute_stats(got)
    mon = {}
    for x in keep: mon.setdefault(x['commit']['author']['date'][:7], []).append(x['commit']['author']['name'])
    c.same('monthly-stats', sorted((s['date'], s['distinct authors'], s['commits']) for s in st), sorted((k, len(set(v)), len(v)) for k, v in mon.items()))
    # pages of commits are all fetched, each once
    pages = [raw[i:i + 4] for i in range(0, len(raw), 4)] or [[]]
    asked = []
    class P:
        def __init__(s, i): s.i = i; s.links = {'next': {'url': f'u{i + 1}'}} if i + 1 < len(pages) else {}
        def raise_for_status(s): pass
        def json(s): return pages[s.i]
    old = m.requests.get, m.time.sleep
    try:
        m.requests.get = lambda url, **k: (asked.append(url), P(int(url[1:]) if re.fullmatch(r'u\d+', url) else 0))[1]
        m.time.sleep = lambda s: None
        got, _ = printed(m.fetch_commits, 'o/r')
    finally: m.requests.get, m.time.sleep = old
    c.check(got == raw and len(asked) == len(pages), 'commits-fetched', lambda: f'{len(got)} of {len(raw)} in {asked}'); c.ev('statistics computed')

def f_footer(c):
    m = optional('scripts.disable_mdformat')
    if m is None: c.trivial = True; return
    r = c.r
    with scratch() as d:
        files = {}
        for i in range(r.randint(1, 6)):
            t = r.choice(['', 'text', 'text\n', 'a\n\n', 'é\n', f'x\n{m.LINE_TO_ADD}\n', f'{m.LINE_TO_ADD}\ny', f'{m.LINE_TO_ADD}'])
            n = r.choice([f'f{i}.md', f'sub/f{i}.md', f'with space {i}.md']); files[n] = t
            os.makedirs(os.path.dirname(f'{d}/{n}') or d, exist_ok=True); open(f'{d}/{n}', 'w', encoding='utf-8').write(t)
        open(f'{d}/bin.md', 'wb').write(b'\xff\xfe\x00'); os.makedirs(f'{d}/dir.md')
        c.describe(sorted(files.items()))
        lst = list(files) + ['bin.md', 'dir.md', 'gone.md']
        need = sum(m.LINE_TO_ADD not in t for t in files.values())
        for rep in (0, 1):
            code = 0
            try: printed(m.add_footer_to_files, d, lst)
            except SystemExit as e: code = e.code
            c.same('footer-exit', code, 1 if need and not rep else 0)
            for n, t in files.items():
                g = open(f'{d}/{n}', encoding='utf-8').read()
                want = t if m.LINE_TO_ADD in t else t + ('\n' if t and not t.endswith('\n') else '') + m.LINE_TO_ADD + '\n'
                c.same('footer', g, want, n)
            c.same('footer', open(f'{d}/bin.md', 'rb').read(), b'\xff\xfe\x00')
    c.ev('files given footers', len(files))

def f_doc(c):
    m = optional('scripts.docs.lit_to_doc')
    if m is None: c.trivial = True; return
    r = c.r
    body = r.choice(['func.func @f() {\n  return\n}\n', 'module {\n}\n// a comment\n'])
    text, _ = render(r, [[['heir-opt'] + r.sample(['--cse', '--canonicalize', '"--annotate-module=backend=openfhe scheme=ckks"'], r.randint(0, 3)) + ['%s'], ['FileCheck', '%s']]])
    text = '\n'.join(l for l in text.split('\n') if 'RUN' in l) + '\n' + '// CHECK-LABEL: @f\n' + body
    c.describe(text)
    have = r.random() < 0.5
    with scratch({'PATH': '{D}/bin:/usr/bin:/bin'}) as d:
        os.environ.pop('BUILD_WORKSPACE_DIRECTORY', None)
        p = f'{d}/{"bin" if have else "bazel-bin/tools"}/heir-opt'; os.makedirs(os.path.dirname(p)); open(p, 'w').write(f'#!/bin/sh\nprintf "%s\\n" "$@" > {d}/args\necho "  the output"\n'); os.chmod(p, 0o755)
        os.chdir(d); open('t.mlir', 'w').write(text)
        doc, _ = printed(m.lit_to_doc, 't.mlir')
        cmd = expected(text)[0][0].replace('%s', 't.mlir')
        g = re.search(r'Command: `(.*?)`', doc, re.S)
        c.same('doc-command', ' '.join(g[1].split()) if g else None, cmd)
        blocks = re.findall(r'```mlir\n(.*?)\n```', doc, re.S)
        c.same('doc-blocks', blocks, [body.strip(), 'the output'])
        c.same('doc-run', open(f'{d}/args').read().split('\n')[:-1], shlex.split(cmd)[1:])
    c.ev('documents generated')

def f_templates(c):
    m = optional('scripts.templates.templates')
    if m is None: c.trivial = True; return
    r = c.r
    kind = r.choice(['conversion', 'dtransform', 'transform', 'dialect'])
    nm = lambda: r.choice(['Foo', 'MyDialect', 'TfheRust', 'Q9'])
    A, B, Pn = nm(), nm(), r.choice(['ForgetSecrets', 'MyPass'])
    force = r.random() < 0.3; exists = r.random() < 0.3
    flag = r.choice([None, 'my-flag'])
    en = [r.random() < 0.6 for _ in range(3)]
    c.describe(kind, A, B, Pn, force, exists, flag, en)
    with scratch() as d:
        shutil.copytree(REPO + '/scripts/templates', f'{d}/scripts/templates', ignore=shutil.ignore_patterns('__pycache__'))
        cli = m.CLI.__new__(m.CLI); cli.root = pathlib.Path(d)
        L = f'{d}/lib/'
        if kind == 'conversion':
            p = r.choice([None, 'Special']); name = p or f'{A}To{B}'
            L += f'Dialect/{A}/Conversions/{name}'; want = ['BUILD'] + [name + e for e in ('.h', '.td', '.cpp')]
            go = lambda: cli.new_conversion_pass(pass_name=p, source_dialect_name=A, target_dialect_name=B, force=force)
            words = {f'{name}.td': [name, f'{B.lower()}'], f'{name}.cpp': [name]}
        elif kind == 'dtransform':
            L += f'Dialect/{A}/Transforms'; want = ['BUILD', f'{Pn}.cpp', f'{Pn}.h', 'Passes.h', 'Passes.td']
            go = lambda: cli.new_dialect_transform(pass_name=Pn, pass_flag=flag, dialect_name=A, force=force)
            words = {'Passes.td': [f'def {Pn} :', f'Pass<"{flag or A.lower() + "-" + Pn.lower()}"'], f'{Pn}.cpp': [Pn]}
        elif kind == 'transform':
            L += f'Transforms/{Pn}'; want = ['BUILD'] + [Pn + e for e in ('.h', '.td', '.cpp')]
            go = lambda: cli.new_transform(pass_name=Pn, pass_flag=flag, force=force)
            words = {f'{Pn}.td': [f'def {Pn} :'] + ([f'Pass<"{flag}"'] if flag else []), f'{Pn}.cpp': [f'struct {Pn} ']}
        else:
            L += f'Dialect/{A}/IR'; want = ['BUILD'] + [f'{A}Dialect{e}' for e in ('.cpp', '.h', '.td')] + [f'{A}{k}{e}' for k, on in zip(('Attributes', 'Types', 'Ops'), en) if on for e in ('.h', '.td', '.cpp')]
            go = lambda: cli.new_dialect(dialect_name=A, enable_attributes=en[0], enable_types=en[1], enable_ops=en[2], force=force)
            words = {f'{A}Dialect.td': [f'{A}', A.lower()]}
        other = f'{d}/lib/Keep/file'; os.makedirs(os.path.dirname(other)); open(other, 'w').write('keep')
        if exists: os.makedirs(L); open(L + '/old.txt', 'w').write('old')
        if exists and not force:
            c.raises('overwrites', ANY, lambda: printed(go), L)
            c.check(os.path.exists(L + '/old.txt') and os.listdir(L) == ['old.txt'], 'overwrites', lambda: 'existing files were changed'); c.ev('overwriting refused')
        else:
            printed(go)
            if c.check(os.path.isdir(L), 'generated-files', lambda: f'{L} was not made, but {[x[0] for x in os.walk(d + "/lib")]}'):
                c.same('generated-files', sorted(os.listdir(L)), sorted(want), L)
                for f in os.listdir(L):
                    t = open(f'{L}/{f}').read()
                    c.check('{{' not in t.replace('{{}}', '') and '{%' not in t and not re.search(r'\bNone\b', t), 'unresolved', lambda: f'{f}:\n{t}')
                for f, ws in words.items():
                    t = open(f'{L}/{f}').read() if os.path.exists(f'{L}/{f}') else ''
                    for w in ws: c.check(w in t, 'generated-names', lambda: f'{f} does not mention {w}:\n{t}')
            c.ev('templates rendered', len(want))
        c.check(open(other).read() == 'keep', 'other-files', '')
    for f in (lambda: cli.new_transform(), lambda: cli.new_dialect(), lambda: cli.new_conversion_pass(target_dialect_name='X'), lambda: cli.new_dialect_transform(pass_name='X')): c.raises('missing-name', ANY, lambda: printed(f))

FAMS = {'lit': (f_lit, 1500), 'real': (f_real, 24), 'norm': (f_norm, 400), 'e2e': (f_e2e, 160), 'version': (f_version, 800), 'torch': (f_torch, 200), 'roots': (f_roots, 80), 'stats': (f_stats, 80), 'footer': (f_footer, 60), 'doc': (f_doc, 60), 'templates': (f_templates, 160)}
if __name__ == '__main__': run_all(FAMS)
