"""O05: programs for the CKKS, BGV and BFV schemes, OpenFHE and Lattigo keep to level, scale, dimension and key discipline and still compute what was written."""
import vt
from checks.o04 import whole


def main(pid):
    res = vt.Result(pid)
    res.rule = 'a case is one program with its scheme, backend and pipeline options, distinct by its full text; programs whose secret results fold to public ones, and compilations stopped after a minute, are skipped'
    B = whole(res, 'scheme')
    vt.run_monitor(res, B, 'scheme.exe')
    res.finish()
