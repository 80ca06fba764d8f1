"""U02: the compiler's own textual examples keep the output they document, whatever the memory layout and thread schedule."""
import concurrent.futures as cf, json, os, shutil, tempfile
import vt
from checks import corpus
from checks.o06 import LAYOUTS


def main(pid):
    res = vt.Result(pid)
    res.rule = 'a case is one documented command line of a textual example with the file it names'
    B = corpus.tools(res)
    listed = json.load(open(os.path.join(vt.VERIF, 'checks/corpus.json')))
    items = [(f, n, c) for f, n, c in corpus.run_lines() if n in listed.get(f, ())]
    tmp = tempfile.mkdtemp(prefix='u02.')

    def go(it):
        f, n, cmd = it
        seen = []
        for k in range(len(LAYOUTS) if vt.THOROUGH else 1):
            d = tempfile.mkdtemp(dir=tmp)
            try:
                rc, out, err = corpus.shell(corpus.expand(cmd, f, d), B, d, 200, LAYOUTS[(k + vt.SEED + len(f)) % len(LAYOUTS)])
                if rc is not None and rc != 0:  # a loaded machine must not decide
                    rc, out, err = corpus.shell(corpus.expand(cmd, f, d), B, d, 200)
            finally: shutil.rmtree(d, ignore_errors=True)
            seen.append((rc, out, err))
        return it, seen
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            for (f, n, cmd), seen in ex.map(go, items):
                desc = f'{f}#{n}: {cmd}'
                res.case('examples', desc)
                for rc, out, err in seen:
                    if rc is None: res.ev('stopped after 200 s'); continue
                    res.ev('runs compared with their documented output' if 'FileCheck' in cmd else 'runs with documented diagnostics' if 'verify-diagnostics' in cmd else 'other documented runs')
                    if rc: res.fail(f'example@{f}#{n}', desc, f'exit status {rc}\n{err[-4000:].decode(errors="replace")}\n{out[-2000:].decode(errors="replace")}')
        if len(items) < 600: res.inconclusive.append(f'only {len(items)} documented command lines were found')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    res.finish()
