"""P12: frame geometry."""
import random

import numpy as np
from hypothesis import strategies as st

import cfgs
import core
import gen
from fw import Part, Violation

PROPERTY = "P12"
RULE = ("Case: pixels per cycle, width, height (each up to 65535, biased to one row, one input per row, two inputs in all, powers "
        "of two) and idle cycles. The geometry unit's row start and end flags are compared at every input with a counting "
        "model; whole cores are offered more pixels than the frame has and must take exactly the frame. Non-trivial: more "
        "than one row or idle cycles.")
ASSUMPTIONS = ["width and height are stable from at least one cycle before the frame", "frames of up to 4 million inputs (quick)"]


def parts(tier, seed):
    q = tier == "quick"
    r = random.Random("p12%s" % seed)
    pss = [1, 2, 3, 4, 8]
    ds = dict(zip(pss, cfgs.build_all([("signals", dict(ps=p)) for p in pss])))
    cs = [dict(bd=r.choice(range(2, 17)), ps=p, out_bits=r.choice([8, 16, 32])) for p in (1, 2, 4)]
    cores = []
    for c, d in zip(cs, cfgs.build_all([("integration3", c) for c in cs])):
        cores.append(core.Product(d, c["bd"], c["ps"], c["out_bits"], "plain", False))

    def geo(maxin):
        def mk(ps):
            wmax = 65535 // ps
            u = st.one_of(st.integers(1, min(wmax, 12)), st.integers(1, wmax), st.sampled_from([1, 2, 3, wmax, wmax - 1]),
                          st.integers(0, 15).map(lambda k: max(1, min(wmax, 1 << k))),
                          st.integers(1, 15).map(lambda k: max(1, min(wmax, (1 << k) - 1))))
            h = st.one_of(st.integers(1, 12), st.integers(1, 65535), st.sampled_from([1, 2, 3, 65535, 32768, 256, 257]))

            def fit(a, b, tall):
                if a * b <= maxin:
                    return [a * ps, b]
                return [max(1, min(a, maxin // b)) * ps, b] if tall else [a * ps, max(1, min(b, maxin // a))]
            return st.fixed_dictionaries({"ps": st.just(ps), "wh": st.builds(fit, u, h, st.booleans()), "v": gen.bits_pattern()})
        return st.sampled_from(pss).flatmap(mk)

    def sig(c):
        ps = c["ps"]
        w, h = c["wh"]
        n = w // ps * h
        s = ds[ps].new()
        s.reset()
        p = np.array(gen.expand(c["v"]) or [1], dtype=np.uint64)
        if n > 20000 and len(p) > 1:
            p = np.array([1, 1, 0, 1], dtype=np.uint64)
        reps = int(n / p.sum()) + 1
        v = np.tile(p, reps)
        v = v[:int(np.searchsorted(np.cumsum(v), n)) + 1]
        rows = np.zeros((len(v) + 3, 3), np.uint64)
        rows[:, 0] = h
        rows[:, 1] = w
        rows[3:, 2] = v
        out = s.trace_np(["i_height", "i_width", "i_new"], rows, ["o_end", "o_row"])
        k = rows[:, 2] == 1
        end, row = out[k, 0], out[k, 1]
        x = np.arange(n) % (w // ps) == 0
        what = "%d pixels per cycle, %dx%d" % (ps, w, h)
        bad = np.nonzero(row != x)[0]
        if len(bad):
            raise Violation("%s: input %d of %d (%d per row) has row start %d" % (what, bad[0], n, w // ps, row[bad[0]]))
        if end[:-1].any():
            raise Violation("%s: end of frame at input %d of %d" % (what, int(np.nonzero(end)[0][0]), n))
        if not end[-1]:
            raise Violation("%s: no end of frame with the last of %d inputs" % (what, n))
        return ["ps%d" % ps] + (["w65535"] if w // ps == 65535 // ps else []) + (["h65535"] if h == 65535 else []) \
            if h > 1 or c["v"] else None

    def ccase(maxpix):
        def mk(i):
            return st.fixed_dictionaries({"i": st.just(i), "params": st.just(cs[i]), "wh": gen.geometry(cs[i]["ps"], maxpix),
                                          "v": gen.bits_pattern(), "r": gen.ready_pattern(), "seed": st.integers(0, 2 ** 32),
                                          "more": st.integers(1, 50)})
        return st.integers(0, len(cs) - 1).flatmap(mk)

    def exact(c):
        p = cores[c["i"]]
        w, h = c["wh"]
        n = w * h
        pix = gen.image(["walk", c["seed"]], n, w, p.bd)
        exp = p.expected(pix, w, gen.table(None, p.bd))
        s = p.fresh()
        core.set_regs(s, w, h, 0xFFFFFF)
        more = gen.image(["uniform", c["seed"]], c["more"] * p.ps, 4, p.bd)
        src = p.source(s, p.items(pix + more), c["v"])
        snk = p.sink(s, len(exp) + 64, c["r"])
        s.run([src], [snk], core.budget(n // p.ps, len(exp), c["v"], c["r"]), stop_lasts=1, stop_idle=3500)
        what = "%dx%d, %d pixels per cycle" % (w, h, p.ps)
        if src.pos != n // p.ps:
            raise Violation("%s: %d inputs were taken, the frame has %d" % (what, src.pos, n // p.ps))
        core.check_words(core.raw_records(snk), exp, what, plain=True)
        return ["core_ps%d" % p.ps] if h > 1 or c["v"] else None

    return [Part("unit_small", geo(3000), sig, 4000 if q else 60000),
            Part("unit_large", geo(4000000 if q else 100000000), sig, 60 if q else 400, weight=3),
            Part("core_takes_exactly_the_frame", ccase(400), exact, 1000 if q else 20000),
            Part("core_large", ccase(150000), exact, 40 if q else 800, weight=2)]
