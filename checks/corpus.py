"""The compiler's tools built from the current tree, and the repository's textual examples as a corpus of command lines."""
import os, re, signal, subprocess
import vt, build
from checks.o04 import LIBS
LLVM = '/usr/lib/llvm-20/bin'
TESTS = os.path.join(vt.REPO, 'tests')


def tools(res):
    opt = [s for s in build.closure('tools:heir-opt') if 'OpenFHEToEmitC' not in s]
    tr = build.closure('tools:heir-translate')
    try:
        B, secs = build.build('whole', 'ovl', {'heir-opt': (['harness/yosysstub.cpp'], opt), 'heir-translate': ([], tr)}, opt='-O0', libs=LIBS)
    except build.BuildError as e:
        print('error:', e); raise SystemExit(2)
    res.extra['build_s'] = round(secs, 1)
    os.makedirs(B + '/bin', exist_ok=True)
    p = B + '/bin/not'
    open(p, 'w').write('#!/bin/bash\n! "$@"\n'); os.chmod(p, 0o755)
    return B


def run_lines():
    """[(file relative to tests, number, command)]"""
    out = []
    for d, ds, fs in sorted(os.walk(TESTS)):
        ds.sort()
        for f in sorted(fs):
            if not f.endswith('.mlir'): continue
            p = os.path.join(d, f)
            cmd, n = '', 0
            for l in re.findall(r'//\s*RUN:\s*(.*)', open(p, errors='replace').read()):
                l = l.rstrip()
                if l.endswith('\\'): cmd += l[:-1].rstrip() + ' '; continue
                out.append((os.path.relpath(p, TESTS), n, (cmd + l).strip()))
                cmd, n = '', n + 1
    return out


def expand(cmd, f, tmp):
    p = os.path.join(TESTS, f)
    for a, b in (('%s', p), ('%t', os.path.join(tmp, os.path.basename(f) + '.t')), ('%S', os.path.dirname(p)), ('%p', os.path.dirname(p))): cmd = cmd.replace(a, b)
    return cmd


def environ(B, extra=None):
    e = dict(vt.ENV, **(extra or {}))
    e['PATH'] = f'{B}:{B}/bin:{LLVM}:/usr/bin:/bin'
    return e


def execute(argv, B, cwd, timeout=120, extra=None, stdin=b''):
    """(exit status or None when it was stopped, stdout, stderr); stops the whole process group"""
    p = subprocess.Popen(argv, env=environ(B, extra), cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try: out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate()
        return None, b'', b'stopped'
    return p.returncode, out, err


def shell(cmd, B, cwd, timeout=120, extra=None):
    return execute(['bash', '-o', 'pipefail', '-c', cmd], B, cwd, timeout, extra)
