"""python3 tools/trybug.py ID...: confirm seeded bugs and run the checks against them (applies to /repo and undoes)."""
import json, os, shutil, subprocess as sp, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(cmd, **kw): return sp.run(cmd, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, errors='replace', **kw)
def git(*a): return run(['git', '-C', '/repo', *a])
def demo(d):
    t = '/tmp/demo_scratch'; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    for f in os.listdir(d):
        if f not in ('meta.json', 'patch.diff'): (shutil.copytree if os.path.isdir(f"{d}/{f}") else shutil.copy)(f"{d}/{f}", f"{t}/{f}")
    r = run(['bash', f'{t}/demo.sh'], cwd='/repo', timeout=300)
    shutil.rmtree(t); return r.returncode, r.stdout[-300:]
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
assert not git('status', '--porcelain').stdout, 'repo dirty'
ids = sys.argv[1:]
print('clean build', run(['bash', '/opt/vp/build.sh']).returncode)
clean = {i: demo(f'{V}/seeded/{i}') for i in ids}
for i in ids:
    d = f'{V}/seeded/{i}'; prop = json.load(open(d + '/meta.json'))['property']
    a = git('apply', d + '/patch.diff')
    if a.returncode: print(i, 'DOES NOT APPLY', a.stdout); continue
    try:
        b = run(['bash', '/opt/vp/build.sh'])
        t = None
        if b.returncode == 0:
            run(['bash', '/opt/vp/test.sh', '/tmp/try.json'])
            r = json.load(open('/tmp/try.json')); os.remove('/tmp/try.json')
            t = sorted(stable - set(r.get('passed', [])))
            dm = demo(d)
            c = run([sys.executable, f'{V}/check.py', prop], cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            viol = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            print(f'{i}: prop={prop} build=ok tests_broken={t[:3]} demo_clean={clean[i][0]} demo_bug={dm[0]} check_rc={c.returncode} {viol[:1]}', flush=True)
            ok = not t and clean[i][0] == 0 and dm[0] != 0
            if not ok: print('   NOT VALID', clean[i][1], '|', dm[1])
            if c.returncode != 1 or not viol: print('   MISSED', c.stdout[-400:])
        else: print(i, 'DOES NOT BUILD', b.stdout[-1500:])
    finally: git('checkout', '--', '.')
run(['bash', '/opt/vp/build.sh'])
