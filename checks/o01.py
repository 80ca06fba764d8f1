"""O01: programs are executed before and after the clean-up passes."""
import vt, build
NATIVE = ['lib/Transforms/FullLoopUnroll/FullLoopUnroll.cpp', 'lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp', 'lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp',
          'lib/Transforms/UnusedMemRef/UnusedMemRef.cpp', 'lib/Transforms/RemoveUnusedPureCall/RemoveUnusedPureCall.cpp', 'lib/Utils/TensorUtils.cpp']


def main(pid):
    res = vt.Result(pid)
    res.rule = 'a case is one program with its passes; distinct by its full text; programs whose every execution is undefined are skipped'
    try:
        B, secs = build.build('cleanup', 'native', {'cleanup.exe': (['harness/cleanup.cpp'], NATIVE)}, san=True)
    except build.BuildError as e:
        print('error:', e); raise SystemExit(2)
    vt.run_monitor(res, B, 'cleanup.exe')
    # these passes are outside the files the normal build compiles; their sources are built against the grafted headers
    repo = build.closure('lib/Transforms/MemrefToArith:MemrefToArithRegistration')
    try:
        B, more = build.build('buffers', 'ovl', {'buffers.exe': (['harness/buffers.cpp'], [s for s in repo if 'PassRegistration' not in s])}, san=True)
        vt.run_monitor(res, B, 'buffers.exe')
        secs += more
    except build.BuildError as e:
        res.inconclusive.append('MemrefToArith passes could not be built: ' + str(e)[:500])
    res.extra['build_s'] = round(secs, 1)
    res.finish()
