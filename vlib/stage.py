"""Pipeline stages with a travelling valid: one output per valid input, in order."""
import numpy as np

import gen
from fw import Violation


def run_stage(d, ins, items, outs, pat, what, tail=60):
    """items: (n, len(ins)) values; -> array (n, len(outs)) of the outputs, their number is checked"""
    s = d.new()
    s.reset()
    src = s.source(["i_" + x for x in ins], items, valid="i_valid", pat=gen.expand(pat), hold=0)
    snk = s.sink(["o_" + x for x in outs], len(items) + 8, valid="o_valid")
    n = int(len(items) / gen.density(pat) * 1.6) + 300
    s.run([src], [snk], n + tail, stop_idle=100)
    if src.pos != len(items):
        while src.pos < len(items):
            k = src.pos
            s.run([src], [snk], n, stop_idle=900)
            if src.pos == k:
                raise RuntimeError("the source does not advance")
    if snk.n != len(items):
        raise Violation("%s: %d outputs for %d inputs" % (what, snk.n, len(items)))
    if all(w == 1 for w in snk._ws):
        return np.frombuffer(snk._k1, dtype=np.uint64, count=snk.n * snk.stride).reshape(-1, snk.stride).astype(np.int64)
    return s.records(snk)


def expect(got, exp, what, names):
    bad = np.nonzero((got != exp).any(axis=1))[0]
    if len(bad):
        i = int(bad[0])
        j = int(np.nonzero(got[i] != exp[i])[0][0])
        raise Violation("%s: output %d: %s is %d, expected %d" % (what, i, names[j], got[i][j], exp[i][j]))
