"""P01: the core's output is exactly the scan of the frame."""
import numpy as np
from hypothesis import strategies as st

import cfgs
import core
import gen
from fw import Part, Violation

PROPERTY = "P01"
RULE = ("Case: a configuration of the programmable core (corners + configurations drawn from the seed), frame geometry, "
        "pixel content, Huffman table, input and output timing, all drawn by Hypothesis. The emitted words up to the "
        "flagged one are compared with the reference scan. Non-trivial: more than one output word and at least two "
        "different pixel values or a timing pattern that stalls.")
ASSUMPTIONS = ["the frame size is programmed before the frame starts, the cycle budget is not exceeded",
               "width at least 4 (the predictor needs the pixel four to the left) and a multiple of the pixels per cycle"]


def parts(tier, seed):
    q = tier == "quick"
    cs = cfgs.core_configs(seed, 28 if q else 120)
    ds = cfgs.build_all([("integration3", c) for c in cs])
    prods = [core.Product(d, c["bd"], c["ps"], c["out_bits"], "plain", False) for c, d in zip(cs, ds)]
    core.ref()

    def case(maxpix):
        def mk(i):
            c = cs[i]
            return st.fixed_dictionaries({
                "cfg": st.just(i), "params": st.just(c), "wh": gen.geometry(c["ps"], maxpix), "img": gen.image_spec(),
                "table": gen.table_spec(), "v": gen.bits_pattern(), "r": gen.ready_pattern(),
                "hold": st.integers(0, 1)})
        return st.integers(0, len(cs) - 1).flatmap(mk)

    def run(c):
        p = prods[c["cfg"]]
        w, h = c["wh"]
        n = w * h
        pix = gen.image(c["img"], n, w, p.bd)
        t = gen.table(c["table"], p.bd)
        s = p.fresh()
        core.set_regs(s, w, h, 0xFFFFFF, t if c["table"] else None, p.bd)
        exp = core.one_frame(p, s, w, h, pix, t, c["v"], c["r"], c["hold"], stable=False,
                             what="config %r" % (cs[c["cfg"]],))
        if len(exp) > 1 and (len(set(pix[:200])) > 1 or c["v"] or c["r"]):
            return ["ps%d" % p.ps, c["img"][0], "table" if c["table"] else "default", "rows" if h > 1 else "one_row"] + \
                (["full_word_end"] if core.scan_bytes(pix, w, p.bd, t)[1] % p.out_bits == 0 else [])

    def run_x(c):
        """the largest numbers of rows and columns, and more than 2^24 pixels"""
        p = prods[c["cfg"]]
        w, h = c["wh"]
        pix = core.big_image(c["seed"], w, h) & np.uint16((1 << p.bd) - 1)
        s = p.fresh()
        core.set_regs(s, w, h, 0xFFFFFF)
        core.one_frame(p, s, w, h, pix, gen.table(None, p.bd), [], [], stable=False, what="config %r" % (cs[c["cfg"]],))
        return ["%dx%d" % (w, h)]

    ext = []
    for ps in (1, 2, 4):
        k = [i for i, c in enumerate(cs) if c["ps"] == ps and c["out_bits"] >= 16]      # narrow outputs take too long
        for j, (w, h) in enumerate([(65535 // ps * ps, 5), (4, 65535), (65535 // ps * ps - ps, 3)] + [(65532, 260)] * (ps == 4) + [(65534, 257)] * (ps == 2)):
            if w * h < 10 ** 6 or not q or ps == 4:
                ext.append({"cfg": k[(seed + j) % len(k)], "wh": [w, h], "seed": seed + j})
    return [Part("extreme_shapes", ext, run_x, len(ext), shards=8, weight=8), Part("small_frames", case(1200), run, 3600 if q else 40000),
            Part("large_frames", case(140000), run, 160 if q else 2000, weight=3)]
