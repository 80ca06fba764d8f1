"""O04: tensor programs keep their meaning through layout assignment and packing into ciphertext slots."""
import vt, build
LIBS = '-lz3 -labsl_status -labsl_statusor -labsl_strings -labsl_cord -labsl_time -labsl_base'


def compiler():
    """heir-opt's sources, without its main program and the one emitter whose EmitC dependency this LLVM lacks."""
    return [s for s in build.closure('tools:heir-opt') if 'OpenFHEToEmitC' not in s and not s.startswith('tools/')]


def whole(res, name, build_only=False):
    try:
        B, secs = build.build('whole', 'ovl', {name + '.exe': (['harness/yosysstub.cpp', 'harness/heiroptreg.cpp', f'harness/{name}.cpp'], compiler())}, opt='-O0', libs=LIBS)
    except build.BuildError as e:
        print('error:', e); raise SystemExit(2)
    res.extra['build_s'] = round(secs, 1)
    return B


def main(pid):
    res = vt.Result(pid)
    res.rule = 'a case is one program with its pipeline options, distinct by its full text; programs whose secret results fold to public ones, and compilations stopped after a minute, are skipped'
    B = whole(res, 'pack')
    vt.run_monitor(res, B, 'pack.exe')
    res.finish()
