"""P29: every configuration that is accepted works, for every frame size it reports as allowed."""
import json
import os
import random
from math import ceil

import numpy as np
from hypothesis import strategies as st

import cfgs
import core
import fw
import gen
import prods
import rtl
from fw import Part, Violation

PROPERTY = "P29"
RULE = ("Case (sizes): a configuration or product, a frame size drawn from the constraints that this very object reports after "
        "construction (at and near the limits most of the time), content, table, timing; the frame must come out exactly. Case "
        "(accepted): a random configuration within the documented limits: it must be accepted and its report admit every "
        "supported size. Case (refused): a configuration with one or two parameters out of their limits: it must be refused, or, for "
        "buffer depths, work all the same. Non-trivial: every frame of at least two groups; every configuration.")
ASSUMPTIONS = ["one core, four components, as the only predictors need",
               "a configuration counts as refused when its construction or elaboration raises an exception"]

PRODUCTS = {"beta": ("beta_integration", "BetaIntegration"), "micro": ("micro_integration", "MicroIntegration"),
            "integration_3_axi_stream": ("integration_3_axi_stream", "Integration3AxiStream")}
I3 = ("integration_3", "Integration3")
SIZES = ("height", "width", "bit_depth")


def raw(c, **kw):
    d = {"bit_depth": c["bd"], "pixels_per_cycle": c["ps"], "LJ92_fifo_depth": c["lj"], "out_bits": c["out_bits"],
         "converter": c["conv"], "converter_fifo_depth": c["cdepth"], "vbits_to_cbits_buffer_size": c["buf"],
         "predictor_function": 1, "num_of_components": 4, "support_axi_lite": True, "axi_lite_debug": False}
    d.update(kw)
    return d


def back(c):
    return dict(bd=c["bit_depth"], ps=c["pixels_per_cycle"], lj=c["LJ92_fifo_depth"], out_bits=c["out_bits"], conv=c["converter"],
                cdepth=c["converter_fifo_depth"], buf=c["vbits_to_cbits_buffer_size"])


def probe(jobs):
    d = rtl.workdir()
    a, b = os.path.join(d, "probe_in_%d" % os.getpid()), os.path.join(d, "probe_out_%d" % os.getpid())
    json.dump(jobs, open(a, "w"))
    rtl.sh([rtl.PYPY, os.path.join(rtl.HERE, "consprobe.py"), a, b])
    return json.load(open(b))


def admits(c, w, h, bd):
    for n, x in zip(SIZES, (h, w, bd)):
        if not c[n + "_min"][1] <= x <= c[n + "_max"][1]:
            return "%s %d is not in %r to %r" % (n, x, c[n + "_min"], c[n + "_max"])
    for n, x in (("height", h), ("width", w)):
        if x % c[n + "_multiple"][1]:
            return "%s %d is no multiple of %r" % (n, x, c[n + "_multiple"])
    return None


def break_one(r, c):
    """puts a parameter of the full configuration out of its limits; returns its name"""
    total = min(16 + c["bit_depth"], 31) * c["pixels_per_cycle"]
    steps = ceil(total / c["converter"]) + 3
    k = r.choice(["bit_depth", "pixels_per_cycle", "LJ92_fifo_depth", "out_bits", "converter", "converter_fifo_depth",
                  "vbits_to_cbits_buffer_size", "predictor_function", "num_of_components"])
    need = c["converter"] + c["out_bits"]
    c[k] = {"bit_depth": lambda: r.choice([0, 1, 17, 18, 24, 32]), "pixels_per_cycle": lambda: r.choice([0, 3, 5, 6, 8, 16]),
            "LJ92_fifo_depth": lambda: r.choice([24, 23, 16, r.randrange(1, 25)]),
            "out_bits": lambda: r.choice([0, 1, 4, 9, 12, 15, 17, 20, 33, 60]),
            "converter": lambda: r.choice([0, total + 1, total + 2, 2 * total]),
            "converter_fifo_depth": lambda: r.choice([steps + 3, steps + 2, r.randrange(1, steps + 4)]),
            "vbits_to_cbits_buffer_size": lambda: r.choice([need - 1, need - 2, r.randrange(1, need)]),
            "predictor_function": lambda: r.choice([0, 2, 3, 4, 5, 6, 7]),
            "num_of_components": lambda: r.choice([1, 2, 3, 5, 8])}[k]()
    return k


DEPTHS = {"LJ92_fifo_depth", "converter_fifo_depth", "vbits_to_cbits_buffer_size"}


def parts(tier, seed):
    q = tier == "quick"
    core.ref()
    names = sorted(PRODUCTS)
    P = prods.build(names)
    cs = cfgs.core_configs("p29%s" % seed, 12 if q else 50)
    for i, (c, d) in enumerate(zip(cs, cfgs.build_all([("integration3", c) for c in cs]))):
        p = core.Product(d, c["bd"], c["ps"], c["out_bits"], "plain", False)
        p.name = "core%d" % i
        p.step = p.ps
        P[p.name] = p
    rep = {}
    jobs = [[PRODUCTS[n], None] for n in names] + [[I3, raw(c)] for c in cs]
    for n, j, r in zip(names + ["core%d" % i for i in range(len(cs))], jobs, probe(jobs)):
        if r["error"]:
            raise Violation("%s %r is refused: %s" % (n, j[1], r["error"]))
        if len(r["cons"]) != 1:
            raise Violation("%s uses %d constraint collectors" % (n, len(r["cons"])))
        rep[n] = r["cons"][0]
    keys = names + sorted(set(P) - set(names))

    # ------------------------------------------------------------------------------------------ sizes
    def axis(lo, hi, mul, cap):
        """a size between the reported limits, at most cap if possible"""
        a = -(-lo // mul)
        b = max(a, min(hi, cap) // mul)
        return st.one_of(st.integers(a, min(b, a + 2)), st.integers(a, b), st.integers(max(a, b - 2), b)).map(lambda x: x * mul)

    def size(n, maxpix):
        c = rep[n]
        w = axis(c["width_min"][1], c["width_max"][1], c["width_multiple"][1], 65535)

        def with_h(w):
            return axis(c["height_min"][1], c["height_max"][1], c["height_multiple"][1], max(1, maxpix // w)).map(lambda h: [w, h])
        tall = axis(c["height_min"][1], c["height_max"][1], c["height_multiple"][1], 65535).flatmap(
            lambda h: axis(c["width_min"][1], c["width_max"][1], c["width_multiple"][1], max(1, maxpix // h)).map(lambda w: [w, h]))
        small = axis(c["width_min"][1], c["width_max"][1], c["width_multiple"][1], 40).flatmap(with_h)
        return st.one_of(small, small, small, small, w.flatmap(with_h), tall)

    def case(maxpix):
        return st.sampled_from(keys).flatmap(lambda n: st.fixed_dictionaries({
            "p": st.just(n), "wh": size(n, maxpix), "img": gen.image_spec(), "v": gen.bits_pattern(), "r": gen.ready_pattern(),
            "table": gen.table_spec(), "hold": st.integers(0, 1)}))

    def run(c):
        p = P[c["p"]]
        w, h = c["wh"]
        n = rep[c["p"]]
        if admits(n, w, h, p.bd) or w * h > 400000:
            return None
        if w * h > 10000:                               # time
            c = dict(c, v=c["v"] if gen.density(c["v"]) > 0.4 else [], r=c["r"] if gen.density(c["r"]) > 0.4 else [])
        t = gen.table(c["table"], p.bd)
        s = p.fresh()
        core.set_regs(s, w, h, 0xFFFFFF, t, p.bd)
        if (w * h) % p.ps:
            raise Violation("%s: the frame size %dx%d is reported as allowed (%r), but is no whole number of groups" % (
                p.name, w, h, n["width_multiple"]))
        pix = gen.image(c["img"], w * h, w, p.bd)
        try:
            core.one_frame(p, s, w, h, pix, t, c["v"], c["r"], c["hold"] if p.io == "plain" else 1, what=p.name)
        except Violation as v:
            raise Violation("%s; this size is reported as allowed (width %r to %r, multiple %r)" % (
                v, n["width_min"], n["width_max"], n["width_multiple"]))
        L = ["core" if p.name.startswith("core") else p.name]
        L += ["width_min"] if w - n["width_min"][1] < p.ps else []
        L += ["width_max"] if n["width_max"][1] - w < p.ps else []
        L += ["height_max"] if h == n["height_max"][1] else []
        return L if w * h > p.ps else None

    # ------------------------------------------------------------------------------------------ configurations
    def supported(name, r, c, bd, ps):
        top = 65535 // ps * ps
        for w in (4, 4 + ps, 8, 64, 4096, 4096 - ps, top - ps, top, 1000 * ps):
            for h in (1, 2, 7, 3072, 65534, 65535):
                m = admits(c, w, h, bd)
                if m:
                    raise Violation("%s reports that it cannot handle %dx%d, %d bits: %s" % (name, w, h, bd, m))
        if c["width_multiple"][1] % ps and ps % c["width_multiple"][1] == 0 and c["width_multiple"][1] < ps:
            raise Violation("%s reports that any width in steps of %r is allowed" % (name, c["width_multiple"]))

    for n in names:
        supported(n, None, rep[n], P[n].bd, P[n].ps)

    def accepted(c):
        r = random.Random(c["seed"])
        L = []
        for _ in range(c["n"]):
            L.append(cfgs.random_core(r))
        for x, a in zip(L, probe([[I3, raw(x, support_axi_lite=r.random() < 0.5)] for x in L])):
            if a["error"]:
                raise Violation("the configuration %r is refused: %s" % (x, a["error"]))
            supported("the configuration %r" % (x,), None, a["cons"][0], x["bd"], x["ps"])
        return ["accepted"]

    def stress(x, r):
        """an accepted configuration with buffers that are too small: does it work?"""
        d = cfgs.build_all([("integration3", x)])[0]
        p = core.Product(d, x["bd"], x["ps"], x["out_bits"], "plain", False)
        p.name = "the accepted configuration %r" % (x,)
        for k in range(40):
            w, h = x["ps"] * 4 * r.randrange(1, 9), r.randrange(1, 25)
            pix = gen.image([r.choice(gen.KINDS), r.getrandbits(32)], w * h, w, x["bd"])
            s = p.fresh()
            t = gen.table([r.getrandbits(32), r.randrange(3)], x["bd"])
            core.set_regs(s, w, h, 0xFFFFFF, t, x["bd"])
            pat = r.choice([[], [0] * r.randrange(1, 200) + [1] * r.randrange(1, 200), ["rnd", r.getrandbits(30), r.choice([10, 50, 90]), 400]])
            core.one_frame(p, s, w, h, pix, t, [], pat, 1, what=p.name)

    def refused(c):
        r = random.Random(c["seed"])
        L, K = [], []
        for _ in range(c["n"]):
            x = raw(cfgs.random_core(r))
            ks = {break_one(r, x)}
            L.append(x)
            K.append(ks)
        built = 0
        for x, ks, a in zip(L, K, probe([[I3, x] for x in L])):
            if a["error"]:
                continue
            if ks <= DEPTHS:
                if built < 2:
                    built += 1
                    try:
                        stress(back(x), r)
                    except rtl.BuildError:
                        pass
            else:
                raise Violation("the configuration %r is accepted; %s is out of its limits" % (x, ", ".join(sorted(ks))))
        return ["refused"]

    sd = st.fixed_dictionaries({"seed": st.integers(0, 2 ** 32), "n": st.sampled_from([1, 60])})
    return [Part("sizes", case(900), run, 1500 if q else 50000),
            Part("large_sizes", case(100000), run, 60 if q else 1500, weight=3),
            Part("accepted", sd, accepted, 40 if q else 600),
            Part("refused", sd, refused, 40 if q else 600)]
