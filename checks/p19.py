"""P19: liblj92 encodes every image; an independent decoder and its own decoder give it back."""
import array
import random

from hypothesis import strategies as st

import lj
from fw import Part, Violation

PROPERTY = "P19"
RULE = ("Case: bit depth 2-16, size (1 x 1 to 65535 in one direction), content (chosen differences of every category, extremes, noise, "
        "ramps, constants, category histograms that need 16-bit codes, values beyond the bit depth), read and skip length of the "
        "source tile, write and skip length of the target, optional delinearization table. The encoder's output is parsed by an "
        "independent strict T.81 decoder (all samples, header fields, code table, no bits left over, code size of the optimal "
        "table) and decoded by liblj92 into a target of exactly the needed size. Non-trivial: at least two pixels and two "
        "difference categories, or more than 1000 pixels.")
ASSUMPTIONS = ["the source tile holds (pixels - 1) / readLength skips and no more",
               "a value outside the delinearization table or beyond the bit depth may be refused"]


def fib_image(P, seed):
    """1-row image with category counts that grow like powers of the golden ratio (codes of 16 bits)"""
    r = random.Random(seed)
    cats = list(range(P + 1))
    r.shuffle(cats)
    cats = cats[:r.randrange(max(2, P - 3), P + 2)]
    a, b, ds = 1, 1, []
    for s in cats:
        for _ in range(a):
            ds.append(0 if s == 0 else 0x8000 if s == 16 else r.choice((1, -1)) * r.randrange(1 << (s - 1), 1 << s))
        a, b = b, a + b + r.randrange(2)
    r.shuffle(ds)
    return ds


def parts(tier, seed):
    q = tier == "quick"
    sc = lj.Scratch()
    exe = lj.build(sc.dir)
    libs = {}

    def lib():
        import os
        p = os.getpid()
        if p not in libs:
            libs[p] = (lj.Lib(exe), sc)
        return libs[p][0]

    def check(case, x, w, h, P, wide=False):
        n = w * h
        rl, sl = case.get("rl", 0) or w, case.get("sl", 0)
        wl, tl = case.get("wl", 0) or w, case.get("tl", 0)
        src, delin, lin = x, None, None
        if case.get("delin") is not None:
            r = random.Random(case["delin"])
            m = 1 << P
            perm = list(range(m))
            r.shuffle(perm)
            delin = perm[:max(1, r.randrange(m) + 1)] if r.randrange(2) else perm
            inv = {v: k for k, v in enumerate(delin)}
            used = [v for v in x if v in inv]
            if used:
                x = [v if v in inv else used[0] for v in x]
            else:
                x = [delin[0]] * n
            src = [inv[v] for v in x]
            lin = [0] * m
            for k, v in enumerate(delin):
                lin[v] = k
        data = lj.place(src, rl, sl, gap=0xFFFF)
        ret, out, _ = lib().encode(data, w, h, P, rl, sl, delin)
        desc = "%dx%d, %d bits" % (w, h, P)
        if ret:
            if wide and ret == -4:
                return ["refused"]
            raise Violation("%s: encode returns %d" % (desc, ret), key="encode refuses")
        ret2, out2, _ = lib().encode(data, w, h, P, rl, sl, delin)
        if ret2 or out2 != out:
            raise Violation("%s: a second encode gives another stream" % desc)
        labels = ["P%d" % P]
        if n <= 30000:
            try:
                r = lj.parse(out)
            except (lj.Bad, IndexError) as e:
                raise Violation("%s: the output is not a lossless JPEG stream: %s" % (desc, e), key="T.81")
            if (r["w"], r["h"], r["P"], r["c"]) != (w, h, P, 1):
                raise Violation("%s: header says %dx%d, %d bits, %d components" % (desc, r["w"], r["h"], r["P"], r["c"]))
            if r["x"] != x:
                i = next(i for i in range(n) if r["x"][i] != x[i])
                raise Violation("%s: an independent decoder reads %d at (%d,%d), the image has %d (stream %s)" % (
                    desc, r["x"][i], i % w, i // w, x[i], out[:80].hex()), key="T.81 content")
            if set(r["hist"]) - set(r["vals"]):
                raise Violation("%s: table without a code that is used" % desc)
            o = lj.optimal_bits(r["hist"])
            lens = {v: l for v, (_, l) in lj.canonical(r["bits"], r["vals"]).items()}
            used = sum(k * lens[s] for s, k in r["hist"].items())
            if o is not None and used > o + n // 100000:
                raise Violation("%s: the codes of categories %s take %d bits, an optimal table %d" % (
                    desc, r["hist"], used, o), key="optimal")
            if len(r["hist"]) > 1:
                labels.append("categories>1")
            if max(lens.values()) == 16:
                labels.append("16-bit codes")
            if o is None:
                labels.append("limited lengths")
            if 16 in r["hist"]:
                labels.append("difference 32768")
            if b"\xff\x00" in out:
                labels.append("stuffed")
        d = lib().decode(out, wl, tl)
        if d["ret"]:
            raise Violation("%s: decoding the encoder's output returns %d" % (desc, d["ret"]), key="decode refuses")
        if (d["w"], d["h"], d["bits"], d["comps"]) != (w, h, P, 1):
            raise Violation("%s: decoder reports %dx%d, %d bits, %d components" % (desc, d["w"], d["h"], d["bits"], d["comps"]))
        exp = lj.place(x, wl, tl)
        if d["target"] != exp:
            i = next(i for i in range(len(exp)) if d["target"][i] != exp[i])
            raise Violation("%s, write %d skip %d: target[%d] is %d, expected %d" % (desc, wl, tl, i, d["target"][i], exp[i]),
                            key="roundtrip")
        if lin is not None:
            d = lib().decode(out, wl, tl, lin)
            if d["ret"] or d["target"] != lj.place(src, wl, tl):
                raise Violation("%s: linearizing the delinearized image does not give it back (status %d)" % (desc, d["ret"]),
                                key="linearize")
            labels.append("delinearized")
        if rl != w or sl:
            labels.append("source tile")
        if wl != w or tl:
            labels.append("target tile")
        if n < 2 or (n <= 1000 and "categories>1" not in labels):
            return None
        return labels

    def run(case):
        w, h, P = case["w"], case["h"], case["P"]
        x = lj.image_of(w, h, 1, P, 6, case["x"])
        if case["wide"]:
            r = random.Random(case["x"][1])
            x = [r.getrandbits(16) if r.randrange(4) == 0 else v for v in x]
            case = dict(case, delin=None)
        return check(case, x, w, h, P, wide=bool(case["wide"]))

    dim = st.one_of(st.integers(1, 8), st.integers(1, 40))
    kinds = st.sampled_from(["diff", "diff", "diff", "uniform", "extremes", "ramp", "const"])
    spec = st.tuples(kinds, st.integers(0, 2 ** 32)).map(list)
    depth = st.sampled_from(list(range(2, 17)) + [16])
    tile = {"rl": st.one_of(st.just(0), st.integers(1, 90)), "sl": st.one_of(st.just(0), st.integers(0, 20)),
            "wl": st.one_of(st.just(0), st.integers(1, 90)), "tl": st.one_of(st.just(0), st.integers(0, 20))}
    general = st.fixed_dictionaries(dict(
        P=depth, w=dim, h=dim, x=spec, wide=st.sampled_from([0, 0, 0, 0, 0, 1]),
        delin=st.one_of(st.none(), st.none(), st.integers(0, 2 ** 32)), **tile))

    def run_hist(case):
        P = case["P"]
        ds = fib_image(P, case["seed"])
        w = len(ds) if case["rows"] == 1 else max(1, len(ds) // case["rows"])
        h = len(ds) // w
        x = []
        m = 0xFFFF if P == 16 else (1 << P) - 1
        for i, d in enumerate(ds[:w * h]):
            x.append(0)
            x[-1] = (lj.predict(6, P, x, i, i // w, i % w, w, 1) + d) & m
        return check({}, x, w, h, P)

    hist = st.fixed_dictionaries({"P": st.one_of(st.just(16), st.integers(10, 16)), "seed": st.integers(0, 2 ** 32),
                                  "rows": st.sampled_from([1, 1, 2, 5])})

    def run_long(case):
        w, h = case["n"], case["m"]
        if case["turn"]:
            w, h = h, w
        return check(case, lj.image_of(w, h, 1, case["P"], 6, case["x"]), w, h, case["P"])

    long_ = st.fixed_dictionaries({"P": depth, "n": st.sampled_from([255, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535]),
                                   "m": st.integers(1, 2), "turn": st.integers(0, 1),
                                   "x": st.tuples(st.sampled_from(["diff", "uniform"]), st.integers(0, 2 ** 32)).map(list)})

    # every 2-bit image of up to 2x2 pixels, every pair of a 16-bit step
    tiny = []
    for w, h in ((1, 1), (2, 1), (1, 2), (3, 1), (2, 2)):
        tiny.append({"w": w, "h": h, "P": 2})
    for a in (0, 1, 0x7FFF, 0x8000, 0x8001, 0xFFFF):
        tiny.append({"a": a})

    def run_tiny(case):
        if "a" in case:
            for b in (0, 1, 2, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF):
                for x in ([case["a"], b], [case["a"], b, case["a"]], [case["a"], b, b, case["a"]]):
                    check({}, x, len(x), 1, 16)
                    check({}, x, 1, len(x), 16)
                    if len(x) == 4:
                        check({}, x, 2, 2, 16)
        else:
            w, h = case["w"], case["h"]
            for k in range(4 ** (w * h)):
                check({}, [k >> 2 * i & 3 for i in range(w * h)], w, h, 2)
        return ["enumerated"]

    def run_large(case):
        w, h, P = case["w"], case["h"], case["P"]
        big = lj.Lib(exe, 600)
        try:
            ret, n, dret, differs = big.large(w, h, P, case["decode"])
        finally:
            big.stop()
        if ret:
            raise Violation("%dx%d, %d bits: encode returns %d" % (w, h, P, ret), key="large")
        if dret or differs:
            raise Violation("%dx%d, %d bits: %s" % (w, h, P, "decode returns %d" % dret if dret else "the decoded image differs"), key="large")
        # one bit for almost every pixel
        if not w * h // 8 <= n <= w * h // 8 + 400:
            raise Violation("%dx%d, %d bits: %d bytes for a nearly constant image" % (w, h, P, n), key="large")
        return ["large"]

    # beyond 2^31 / 3 pixels
    large = [{"w": 26757, "h": 26755, "P": 12, "decode": 0 if q else 1}, {"w": 65535, "h": 400, "P": 16, "decode": 1},
             {"w": 500, "h": 65535, "P": 2, "decode": 1}]
    if not q:
        large += [{"w": 65535, "h": 32769, "P": 8, "decode": 1}]

    return [
        Part("large images", large, run_large, len(large), shards=len(large), weight=20),
        Part("images", general, run, 1500 if q else 40000, weight=3),
        Part("category histograms", hist, run_hist, 60 if q else 2000, weight=3),
        Part("long rows and columns", long_, run_long, 24 if q else 400, weight=3),
        Part("small images, all contents", tiny, run_tiny, len(tiny), shards=8),
    ]
