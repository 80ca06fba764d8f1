"""O06: compiling twice gives the same bytes, and every program printed on the way reads back as itself."""
import hashlib, os, re, shutil, tempfile, concurrent.futures as cf
import vt
from checks import corpus

WRAP = '''#!/bin/bash
d=$(mktemp -d -p "$VERIF_REC")
printf '%s\\0' "$@" > "$d/argv"
pwd > "$d/cwd"
cat > "$d/stdin"
echo {tool} > "$d/tool"
{real} "$@" < "$d/stdin" > "$d/out"
rc=$?
echo $rc > "$d/rc"
cat "$d/out"
exit $rc
'''
DUMP = re.compile(rb'^// -----// IR Dump After (.*) //----- //\n', re.M)


def record(B, items, tmp):
    """runs the command lines and returns every distinct invocation of a tool: (where, tool, argv, cwd, stdin)"""
    w = tmp + '/wrap'
    os.makedirs(w)
    for t in ('heir-opt', 'heir-translate'):
        open(f'{w}/{t}', 'w').write(WRAP.format(tool=t, real=f'{B}/{t}')); os.chmod(f'{w}/{t}', 0o755)

    def go(it):
        f, n, cmd = it
        d = tempfile.mkdtemp(dir=tmp); r = d + '/rec'; os.makedirs(r)
        rc, _, _ = corpus.shell(f'export PATH={w}:$PATH; ' + corpus.expand(cmd, f, d), B, d, 100, {'VERIF_REC': r})
        if rc is None: return []
        out = []
        for x in sorted(os.listdir(r)):
            p = f'{r}/{x}/'
            if not os.path.exists(p + 'rc'): continue
            out.append((f'{f}#{n}', open(p + 'tool').read().strip(), open(p + 'argv', 'rb').read().decode(errors='replace').split('\0')[:-1], open(p + 'cwd').read().strip(), open(p + 'stdin', 'rb').read(), int(open(p + 'rc').read()), open(p + 'out', 'rb').read()))
        return out
    seen, res = set(), []
    with cf.ThreadPoolExecutor(8) as ex:
        for got in ex.map(go, items):
            for t in got:
                k = hashlib.sha1(repr((t[1], t[2], t[4], os.path.dirname(t[0]))).encode()).digest()
                if k not in seen: seen.add(k); res.append(t)
    return res


LAYOUTS = [{'MALLOC_PERTURB_': '165', 'MALLOC_MMAP_THRESHOLD_': '4096'}, {'MALLOC_PERTURB_': '85', 'MALLOC_TOP_PAD_': '4194304', 'MALLOC_ARENA_MAX': '1', 'VERIF_PADDING': 'x' * 5003}, {'MALLOC_ARENA_TEST': '32', 'MALLOC_TRIM_THRESHOLD_': '0'}]


def call(B, tool, argv, cwd, stdin, extra=None, timeout=150):
    return corpus.execute([f'{B}/{tool}'] + argv, B, cwd, timeout, extra, stdin)


def diff(a, b):
    a, b = a.decode(errors='replace').split('\n'), b.decode(errors='replace').split('\n')
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y: return f'line {k + 1}:\n  {x[:700]}\n  {y[:700]}'
    return f'lengths differ: {len(a)} and {len(b)} lines'


def slug(got, c):
    """what went wrong, in a few words"""
    m = re.search(rb'error: (.*)|(Assertion.*)|(LLVM ERROR.*)', got) if got.startswith(b'(refused)') else None
    t = (m.group(1) or m.group(2) or m.group(3)).decode(errors='replace') if m else 'reads back differently'
    return re.sub(r'[^A-Za-z0-9.]+', '-', t)[:70].strip('-')


def syntax(argv):
    return [a for a in argv if re.match(r'--?(allow-unregistered-dialect|mlir-print-local-scope)', a)]


def stays(B, chunks, flags, generic, cwd):
    """[(chunk, what it reads back as)] for the programs that do not read back as themselves"""
    def back(cs):
        text = b'\n// -----\n'.join(cs)
        if generic:
            rc, text, err = call(B, 'heir-opt', ['--split-input-file', '--mlir-print-op-generic'] + flags, cwd, text)
            if rc != 0: return rc, text, err
        return call(B, 'heir-opt', ['--split-input-file'] + flags, cwd, text)

    rc, out, err = back(chunks)
    sep = re.compile(rb'^// -----\n', re.M)
    got = [x.strip() for x in sep.split(out)]
    if rc == 0 and got == [c.strip() for c in chunks]: return []
    bad = []
    for c in chunks:
        rc, out, err = back([c])
        if rc is None: continue
        if rc != 0: bad.append((c, b'(refused) ' + err[:3000]))
        elif out.strip() != c.strip(): bad.append((c, out))
    return bad


def examine(B, t, repeats, dumps=True):
    where, tool, argv, cwd, stdin, rc0, out0 = t
    ev, fails = {}, []
    def count(k, n=1): ev[k] = ev.get(k, 0) + n
    desc = f'{where}: {tool} {" ".join(argv)}'
    for k in range(repeats):
        extra = LAYOUTS[k % len(LAYOUTS)]
        thr = ['--mlir-disable-threading'] if k % 2 == 0 and tool == 'heir-opt' else []
        rc, out, err = call(B, tool, argv + thr, cwd, stdin, extra)
        if rc is None: count('stopped'); continue
        count('compilations compared byte by byte')
        if (rc < 0 or rc > 127) != (rc0 < 0 or rc0 > 127) or (rc == 0) != (rc0 == 0): fails.append(('nondeterministic', f'exit status {rc0} once and {rc} with {extra} {thr}: {err[-2000:].decode(errors="replace")}'))
        elif rc == 0 and out != out0: fails.append(('nondeterministic', f'outputs differ with {dict((a, b[:20]) for a, b in extra.items())} {thr}, {diff(out0, out)}'))
    if tool != 'heir-opt' or rc0 != 0 or any('verify-diagnostics' in a or 'mlir-print' in a or 'pass-pipeline-crash' in a or a == '--help' for a in argv): return desc, ev, fails
    flags = syntax(argv)
    progs = []
    for c in re.split(rb'^// -----\n', out0, flags=re.M):
        if re.match(rb'\s*(module|#|!|"builtin.module|\{-#)', c) and c.strip().endswith(b'}'): progs.append(c.strip())  # some passes print reports
    if dumps:
        rc, out, err = call(B, tool, argv + ['--mlir-disable-threading', '--mlir-print-ir-after-all', '--mlir-print-ir-after-change', '--mlir-print-ir-module-scope'], cwd, stdin)
        if rc == 0:
            parts = DUMP.split(err)
            for name, body in zip(parts[1::2], parts[2::2]):
                i = body.find(b'\n}\n')  # what follows is diagnostics
                if i > 0 and re.match(rb'(module|#|!|"builtin.module)', body): progs.append(body[:i + 2].strip())
    uniq = list(dict.fromkeys(progs))
    small = [p for p in uniq if len(p) < 200000][:40]
    for gen in (False, True):
        bad = stays(B, small, flags, gen, cwd)
        count('programs read back' + (' through the generic form' if gen else ''), len(small))
        for c, got in bad[:3]:
            fails.append(('roundtrip:' + slug(got, c), ('generic form: ' if gen else '') + (got.decode(errors='replace') if got.startswith(b'(refused)') else diff(c, got)) + '\nprogram:\n' + c.decode(errors='replace')[:6000]))
    return desc, ev, fails


def main(pid):
    res = vt.Result(pid)
    res.rule = 'a case is one invocation of heir-opt or heir-translate (arguments and input), distinct by them'
    B = corpus.tools(res)
    tmp = tempfile.mkdtemp(prefix='o06.')
    try:
        lines = [(f, n, c) for f, n, c in corpus.run_lines() if '%S' not in c and re.search(r'\bheir-(opt|translate)\b', c) and not re.search(r'ilp|yosys|emitc|mlir_to_openfhe_ckks/matmul.mlir', f + c, re.I)]
        inv = record(B, lines, tmp)
        with cf.ThreadPoolExecutor(8) as ex:
            for desc, ev, fails in ex.map(lambda t: examine(B, t, 6 if vt.THOROUGH else 2), inv):
                res.case('examples', desc)
                for k, n in ev.items(): res.ev(k, n)
                for kind, msg in fails: res.fail(f'{kind}@{desc.split(":")[0]}', desc, msg)
        if len(inv) < 300: res.inconclusive.append(f'only {len(inv)} invocations were recorded')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    res.finish()
