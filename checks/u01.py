"""U01: the library's unit tests under AddressSanitizer, UBSan, checked containers and poisoned memory, shuffled and repeated."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import vt, build

EXTERNALS = ('@googletest//', '@llvm-project//', '@isl', '@eigen', '@com_google_absl//absl/numeric')
FLAGS = '-ftrivial-auto-var-init=pattern -D_GLIBCXX_ASSERTIONS'
ASAN = 'detect_leaks=0:allow_user_poisoning=0:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:exitcode=99:handle_abort=1:handle_sigill=1:allocator_may_return_null=1'


def tests(flavour):
    targets = build.load_targets()[0]
    bad = {x.strip() for x in open('/opt/vp/heir/unbuildable.txt')}
    out = {}
    for label, (pkg, kind, kw) in sorted(targets.items()):
        if kind != 'cc_test': continue
        srcs = build.closure(label)
        seen, stack, ext = set(), [label], set()
        while stack:
            x = stack.pop()
            if x in seen: continue
            seen.add(x)
            if x in targets: stack += [build.norm(targets[x][0], d) for d in targets[x][2].get('deps') or []]
            else: ext.add(x)
        ok = all(e.startswith(EXTERNALS) for e in ext) and not bad & set(srcs)
        if ok == (flavour == 'native'): out[label] = srcs
    return out



# Cases that are about the LLVM commit the repository is pinned to: text isl prints, and a bound only newer LLVM tightens.
SKIP = {'CodegenTest.HaleviShoup', 'ConvolutionTest.Conv1dFilterRelationEvaluateStridedEvenSizedKernel'}


def run(cmd, report, env, timeout):
    if os.path.exists(report): os.remove(report)
    try:
        p = subprocess.run(cmd, env=dict(os.environ, **env, GTEST_OUTPUT='xml:' + report), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
        code, text = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        code, text = None, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
    # every execution is in the text, also repeated ones
    ok = re.findall(r'^\[       OK \] (\S+)', text, re.M)
    bad = re.findall(r'^\[  FAILED  \] (\S+).*\(\d+ ms\)$', text, re.M)
    started = re.findall(r'^\[ RUN      \] (\S+)', text, re.M)
    return code, text, ok, bad, started


def main(pid):
    res = vt.Result(pid)
    res.rule = 'a case is one execution of one test case; distinct by test case, order and memory fill'
    native = tests('native')
    builds = []
    exes = {l.replace('/', '_').replace(':', '.'): ([], s) for l, s in native.items()}
    try:
        builds.append(('asan', build.build('units', 'native', exes, san=True, extra_flags=FLAGS, libs='-lgmock -lgtest -lgtest_main')[0], exes))
        builds.append(('valgrind', build.build('unitsv', 'native', exes, extra_flags='-g1', libs='-lgmock -lgtest -lgtest_main')[0], exes))
    except build.BuildError as e:
        print('error:', e); raise SystemExit(2)
    more = {l.replace('/', '_').replace(':', '.'): ([], s) for l, s in tests('ovl').items()
            if not any(x.endswith(('FuzzTest.cpp', 'Benchmark.cpp')) or 'fuzztest' in open(f'{build.REPO}/{x}', errors='replace').read() or '@openfhe' in open(f'{build.REPO}/{x}', errors='replace').read() for x in s)
            and not l.endswith(('LUTImporterTest', 'Layout:IslConversionTest'))}
    try:
        builds.append(('asan', build.build('unitso', 'ovl', more, san=True, extra_flags=FLAGS, libs='-lgmock -lgtest -lgtest_main')[0], more))
    except build.BuildError as e:
        res.inconclusive.append('tests outside the normal build: ' + str(e)[:200])
    jobs = []
    for kind, B, ex in builds:
        for exe in ex:
            if kind == 'valgrind':
                jobs.append((kind, B, exe, 0))
                continue
            for k in range(12 if vt.THOROUGH else 3): jobs.append((kind, B, exe, k))
    # the slowest first
    jobs.sort(key=lambda j: (not re.search('KernelImpl|ConvolutionTest', j[2]), j[0] != 'valgrind'))

    def one(n):
        kind, B, exe, k = jobs[n]
        args = [] if k == 0 else ['--gtest_shuffle', f'--gtest_random_seed={(vt.SEED * 131 + k * 17 + 1) % 99999}', f'--gtest_repeat={1 if re.search("KernelImpl|ConvolutionTest", exe) else 2}']
        fill = [190, 0, 255, 1, 127][k % 5]
        env = {'ASAN_OPTIONS': ASAN + f':max_malloc_fill_size=1048576:malloc_fill_byte={fill}:max_free_fill_size=1048576:free_fill_byte={255 - fill}', 'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=98', 'LC_ALL': 'C.UTF-8'}
        cmd = [f'{B}/{exe}', *args]
        if kind == 'valgrind':
            cmd = ['valgrind', '-q', '--error-exitcode=97', '--undef-value-errors=yes', '--exit-on-first-error=no'] + cmd
        return (kind, exe, k, fill, cmd, env) + run(cmd, f'{B}/report-{n}.xml', env, 800 if vt.THOROUGH else 400)

    with ThreadPoolExecutor(8) as ex: done = list(ex.map(one, range(len(jobs))))
    for kind, exe, k, fill, cmd, env, code, text, ok, bad, started in done:
        order = 'declared order' if k == 0 else f'shuffle {k}, seed {vt.SEED}'
        repro = ' '.join(f"{a}='{b}'" for a, b in env.items() if a == 'ASAN_OPTIONS') + ' ' + ' '.join(cmd)
        for i, c in enumerate(started): res.case(kind + ' ' + exe, f'{c} as number {i} in {order}, memory filled with {fill}')
        for c in ok: res.ev('test cases passed under ' + kind)
        if code is None:
            res.inconclusive.append(f'{exe} ({kind}): time limit'); continue
        res.ev('test processes under ' + kind)
        if not started:
            res.fail('does-not-start:' + exe, exe, text[-4000:], repro)
            continue
        if kind == 'valgrind':
            if code == 97:
                m = re.search(r'^==\d+== (\S.*)$', text, re.M)
                res.fail('valgrind:' + re.sub(r'[^A-Za-z]+', '-', m.group(1) if m else 'report')[:50], f'{exe} under valgrind', text[-6000:], repro)
            continue
        for c in sorted(set(bad) - SKIP):
            res.fail('fails:' + c, f'{exe}, {order}, memory filled with {fill}', text[max(0, text.find('[ RUN      ] ' + c)):][:4000], repro)
        dead = code != 0 and not bad
        if dead or vt.crash_kind(text) != 'died' and code in (97, 98, 99):
            at = started[-1] if started else '?'
            res.fail(f'{vt.crash_kind(text)}:{at}', f'{exe}, {order}, in {at}', text[-8000:], repro)
    res.finish()
