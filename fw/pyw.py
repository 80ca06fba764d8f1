"""Runs Python workers (in the environment that has numba) over shards and folds what they report."""
import json, os, subprocess, sys, tempfile
import vt
VENV = '/opt/vp/venv/bin/python'

def run(res, worker, scale, procs=8, python=VENV, extra=(), timeout=780):
    d = tempfile.mkdtemp(prefix='pyw-')
    try:
        env = dict(os.environ, HEIR_REPO=vt.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', NUMBA_DISABLE_JIT='0', HOME=d, TMPDIR=d)
        W = f'{vt.VERIF}/checks/{worker}'
        ps = [subprocess.Popen([python, W, str(vt.SEED), str(i), str(procs), str(scale), f'{d}/{i}.json', *extra], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d) for i in range(procs)]
        for i, p in enumerate(ps):
            try: out, _ = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill(); res.inconclusive.append(f'shard {i} ran out of time'); continue
            if p.returncode or not os.path.exists(f'{d}/{i}.json'):
                print(f'error: worker {i} of {worker} failed ({p.returncode})\n{out[-3000:]}'); sys.exit(2)
            o = json.load(open(f'{d}/{i}.json'))
            for fam, desc, trivial in o['cases']: res.case(fam, desc, trivial)
            for k, n in o['events'].items(): res.ev(k, n)
            for key, desc, msg in o['fails']:
                res.fail(key, desc, msg, f'HEIR_REPO={vt.REPO} {python} {W} {vt.SEED} {i} {procs} {scale} /tmp/o.json {" ".join(extra)}')
    finally:
        subprocess.run(['rm', '-rf', d])
