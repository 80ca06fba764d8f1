"""What the workers over Python code share: cases, events and failures, and running families over a shard."""
import contextlib, io, json, os, random, shutil, sys, tempfile, traceback
sys.dont_write_bytecode = True
REPO = os.environ.get('HEIR_REPO', '/repo')
OUT = {'cases': [], 'events': {}, 'fails': []}

class Case:
    def __init__(self, fam, r):
        self.fam, self.r, self.desc, self.trivial, self.bad = fam, r, '', False, []
    def describe(self, *what): self.desc = ' '.join(str(w) for w in what)
    def ev(self, k, n=1): OUT['events'][k] = OUT['events'].get(k, 0) + n
    def fail(self, key, msg): self.bad.append((key, str(msg)))
    def check(self, ok, key, msg=''):
        self.ev('comparisons')
        if not ok: self.fail(key, msg() if callable(msg) else msg)
        return ok
    def same(self, key, got, want, what=''):
        return self.check(got == want, key, lambda: f'{what}: got {got!r}, should be {want!r}')
    def raises(self, key, kinds, fn, what=''):
        """fn must raise one of kinds; returns the exception."""
        self.ev('comparisons'); self.ev('errors expected')
        try: v = fn()
        except kinds as e: return e
        except BaseException as e: self.fail(key, f'{what}: raised {type(e).__name__}: {e}, should raise {kinds}'); return None
        self.fail(key, f'{what}: returned {v!r}, should raise {kinds}'); return None

def run_all(fams):
    """fams: name -> (function of a Case, count). Arguments of the process: seed shard shards scale out.json [family:index]."""
    seed, shard, shards, scale, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    only = sys.argv[6] if len(sys.argv) > 6 else None
    # a scratch directory of this process's own: what is left in it was left by the code under test
    tmp = tempfile.tempdir = tempfile.mkdtemp()
    os.environ['TMPDIR'] = tmp
    try: _families(fams, seed, shard, shards, scale, only)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    json.dump(OUT, open(out, 'w'))

def _families(fams, seed, shard, shards, scale, only):
    for fam, (fn, n) in fams.items():
        for i in range(max(1, int(n * scale))):
            if only and only != f'{fam}:{i}': continue
            if not only and i % shards != shard: continue
            c = Case(fam, random.Random(f'{seed}/{fam}/{i}'))
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf): fn(c)
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                inside = [t for t in tb if t.filename.startswith(REPO + '/')]
                where = f'{os.path.basename(inside[-1].filename)}-{inside[-1].name}' if inside else f'{os.path.basename(tb[-1].filename)}-{tb[-1].name}'
                c.fail(f'{fam}-raised-{type(e).__name__}-{where}', ''.join(traceback.format_exception(e))[-1500:])
            OUT['cases'].append((fam, f'{fam}:{c.desc or i}', c.trivial))
            for k, m in c.bad[:3]: OUT['fails'].append((k, f'{fam}:{i} {c.desc}', m))
