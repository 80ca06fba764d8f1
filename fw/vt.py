"""Verdicts, evidence and known findings for the checks."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
REPO = build.REPO
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'


def known(prop):
    """{key: description} of the findings recorded for this property."""
    out = {}
    path = f'{VERIF}/known_findings.txt'
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out


class Result:
    def __init__(self, prop, level='exploration'):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.evaluations = 0
        self.distinct = set()
        self.events = {}
        self.families = {}
        self.samples = []
        self.viol = {}       # key -> [(desc, msg, how to reproduce)]
        self.inconclusive = []
        self.assumptions = []
        self.extra = {}
        self.rule = ''

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def case(self, family, desc, trivial=False):
        """Counts one case; desc must identify it."""
        self.evaluations += 1
        f = self.families.setdefault(family, {'evaluations': 0, 'distinct': 0})
        f['evaluations'] += 1
        h = hashlib.sha1((family + '\0' + desc).encode()).hexdigest()[:16]
        if not trivial and h not in self.distinct:
            self.distinct.add(h); f['distinct'] += 1
            if len([s for s in self.samples if s.startswith(family + ': ')]) < 2: self.samples.append((family + ': ' + desc)[:800])

    def fail(self, key, desc, msg, repro=''):
        key = re.sub(r'\s+', '_', key)
        self.viol.setdefault(key, []).append((desc, msg, repro))

    def finish(self):
        kn = known(self.prop)
        new = [k for k in self.viol if k not in kn]
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.distinct), 'rule': self.rule or 'see families',
               'samples': self.samples[:24] or ['none'], 'families': self.families, 'observed_events': self.events}
        if self.inconclusive: cov['inconclusive'] = self.inconclusive[:20]
        cov.update(self.extra)
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        with open(f'{VERIF}/evidence/{self.prop}.json', 'w') as f:
            json.dump({'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': self.level, 'coverage': cov,
                       'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}, f, indent=1)
        for k in sorted(self.viol):
            if k in kn: print(f'KNOWN-FINDING: property={self.prop} {k}: {kn[k]}')
        print(f'{self.prop}: {self.evaluations} evaluations, {len(self.distinct)} distinct, events {self.events}, {time.time()-self.t0:.1f} s')
        for i in self.inconclusive[:5]: print('inconclusive:', i)
        if new:
            for k in sorted(new)[:8]:
                rp = f'{VERIF}/evidence/replay-{self.prop}-{re.sub(r"[^A-Za-z0-9_.-]", "_", k)[:80]}.txt'
                with open(rp, 'w') as f:
                    f.write(f'property: {self.prop}\nkey: {k}\nseed: {SEED} tier: {TIER}\noccurrences: {len(self.viol[k])}\n')
                    for desc, msg, repro in self.viol[k][:3]:
                        f.write(f'\n--- case\n{desc}\n--- observed\n{msg}\n--- reproduce\n{repro}\n')
                desc, msg, _ = self.viol[k][0]
                print(f'  {k}: {msg[:600]}\n    case: {desc[:400]}')
                print(f'VIOLATION property={self.prop} replay={rp}')
            sys.stdout.flush()
            sys.exit(1)
        if self.evaluations == 0 or len(self.distinct) == 0:
            print('error: nothing was observed')
            sys.exit(2)
        sys.exit(0)


def crash_kind(err):
    """A stable name for a sanitizer report, failed assertion or signal."""
    for pat, fmt in ((r"runtime error: ([^\n]*)", 'ubsan'), (r'AddressSanitizer: ([A-Za-z-]+)', 'asan'),
                     (r"Assertion [`'](.*?)' failed", 'assert'), (r'terminate called after throwing an instance of ([^\n]*)', 'throw'),
                     (r'LLVM ERROR: ([^\n]*)', 'llvm-error'), (r'UNREACHABLE executed([^\n]*)', 'unreachable')):
        m = re.search(pat, err)
        if m:
            d = re.sub(r'0x[0-9a-f]+|-?\b\d+(\.\d+)?(e[+-]?\d+)?\b', 'N', m.group(1))
            return fmt + ':' + re.sub(r'[^A-Za-z0-9]+', '-', d).strip('-')[:60]
    return 'died'


# allow_user_poisoning=0: LLVM's allocators poison what instrumented code allocates, and the installed libraries never unpoison it
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allow_user_poisoning=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=1:handle_sigill=1:hard_rss_limit_mb=6000',
           UBSAN_OPTIONS='print_stacktrace=1:exitcode=98', LC_ALL='C.UTF-8')


def run_monitor(res, B, exe, scale=1.0, procs=8, args=()):
    """Runs a mon.h harness and folds what it saw into res."""
    d = tempfile.mkdtemp(prefix='run-', dir=B)
    try:
        out = f'{d}/stats'
        cmd = [f'{B}/{exe}', '--seed', str(SEED), '--tier', TIER, '--out', out, '--procs', str(procs), '--scale', str(scale), '--max-seconds', '3000' if THOROUGH else '420', *args]
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if not os.path.exists(out + '.done'):
            print(f'error: {exe} did not finish: {p.returncode}\n{p.stdout[-3000:]}'); sys.exit(2)
        dropped = int(open(out + '.done').read().split()[1])
        if dropped: res.extra['batches_not_run'] = res.extra.get('batches_not_run', 0) + dropped
        repro = lambda f, i: f'VERIF_SEED={SEED} {B}/{exe} --seed {SEED} --tier {TIER} --out /dev/stdout --family {f} --case {i}   (built by: python3 /verif/check.py {res.prop})'
        for path in glob.glob(out + '.*'):
            if path.endswith(('.err', '.crashes', '.done')): continue
            j = json.load(open(path))
            fam = j['family']
            f = res.families.setdefault(fam, {'evaluations': 0, 'distinct': 0, 'trivial': 0, 'skipped': 0})
            f['evaluations'] += j['evaluations']; f['trivial'] += j['trivial']; f['skipped'] += j['skipped']
            res.evaluations += j['evaluations']
            before = len(res.distinct)
            res.distinct.update(fam + h for h in j['distinct'])
            f['distinct'] += len(res.distinct) - before
            for k, v in j['events'].items(): res.ev(k, v)
            have = sum(s.startswith(fam + ': ') for s in res.samples)
            res.samples += j['samples'][:max(0, 2 - have)]
            for v in j['violations']: res.fail(v['key'], f"{v['family']}[{v['index']}]: {v['desc']}", v['msg'], repro(v['family'], v['index']))
        seen = {}
        for line in open(out + '.crashes'):
            c = json.loads(line)
            fam, idx = c['family'], c['index']
            if c['killed']:
                res.inconclusive.append(f'{fam}[{idx}]: worker was killed (memory?)'); continue
            err = open(c['err'], errors='replace').read() if os.path.exists(c['err']) else ''
            if not c['hang'] and seen.get((fam, crash_kind(err)), 0) >= 2: continue
            try:
                r = subprocess.run([f'{B}/{exe}', '--seed', str(SEED), '--tier', TIER, '--out', f'{d}/again', '--family', fam, '--case', str(idx)], env=ENV,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=400)
                bad, text = r.returncode != 0, r.stdout
                hang = r.returncode == -signal.SIGALRM
            except subprocess.TimeoutExpired:
                bad, text, hang = True, 'timeout', True
            if not bad:
                res.inconclusive.append(f'{fam}[{idx}]: {"hang" if c["hang"] else "crash (" + crash_kind(err) + ")"} did not repeat'); continue
            kind = 'hang' if hang else crash_kind(text)
            seen[(fam, kind)] = seen.get((fam, kind), 0) + 1
            res.fail(f'crash:{fam}:{kind}', f"{fam}[{idx}]: {c['desc']}", text[-4000:] if hang else text[:4000], repro(fam, idx))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cpp_check(prop, harness, labels=(), srcs=(), flavour='native', rule='', assumptions=(), opt='-O1', exclude=r'$^', libs='', args=(), drop=()):
    """Builds one sanitized harness against the closure of the BUILD labels and runs it."""
    res = Result(prop)
    res.rule, res.assumptions = rule, list(assumptions)
    try:
        repo = sorted(set(build.closure(*labels)) | set(srcs)) if labels else list(srcs)
        repo = [s for s in repo if not re.search(exclude, s)]
        hs = [f'harness/{harness}.cpp'] if isinstance(harness, str) else [f'harness/{h}.cpp' for h in harness]
        name = hs[0][8:-4]
        B, secs = build.build(name, flavour, {name + '.exe': (hs, repo)}, opt=opt, san=True, libs=libs)
    except build.BuildError as e:
        print('error:', e); sys.exit(2)
    res.extra['build_s'] = round(secs, 1)
    res.extra['instrumentation'] = 'AddressSanitizer + UndefinedBehaviorSanitizer, assertions on'
    run_monitor(res, B, name + '.exe', args=args)
    res.finish()
