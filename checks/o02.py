"""O02: the data-oblivious rewrites keep results and leave nothing secret in branches, loops and indices."""
import vt, build
NAMES = ['ConvertIfToSelect', 'ConvertSecretForToStaticFor', 'ConvertSecretWhileToStaticFor', 'ConvertSecretExtractToStaticExtract', 'ConvertSecretInsertToStaticInsert']


def main(pid):
    res = vt.Result(pid)
    res.rule = 'a case is one program with its passes and inputs; distinct by its full text; programs whose every execution is undefined or leaves its declared loop bounds are skipped'
    repo = build.closure(*[f'lib/Transforms/{n}:{n}' for n in NAMES])
    try:
        B, secs = build.build('oblivious', 'ovl', {'oblivious.exe': (['harness/oblivious.cpp'], repo)}, san=True)
    except build.BuildError as e:
        print('error:', e); raise SystemExit(2)
    vt.run_monitor(res, B, 'oblivious.exe')
    res.extra['build_s'] = round(secs, 1)
    res.finish()
