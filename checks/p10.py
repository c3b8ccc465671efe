"""P10: predictor, difference and normalizer stages."""
import random

import numpy as np
from hypothesis import strategies as st

import cfgs
import gen
import stage
from fw import Part, Violation

PROPERTY = "P10"
RULE = ("Case: a stage at one bit depth and pixel count, with idle cycles (and junk on the inputs meanwhile). Predictor: frames "
        "of generated geometry and content; difference: random and extreme pairs, all pairs for small depths; normalizer: "
        "every difference of every bit depth, and random orders. Each output is compared with the reference function, as is "
        "the end flag. Non-trivial: more than four inputs.")
ASSUMPTIONS = ["width at least 4 and a multiple of the pixels per cycle", "row starts are flagged, the first row's included",
               "at 16 bits the difference 32768 may be represented with either sign, category 16 has no additional bits"]


def mags(d):
    """bit length of |d| (array)"""
    a = np.abs(d)
    return np.where(a > 0, np.floor(np.log2(np.maximum(a, 1))).astype(np.int64) + 1, 0)


def parts(tier, seed):
    q = tier == "quick"
    r = random.Random("p10%s" % seed)
    bds = list(range(2, 17))
    some = [2, 12, 16] + r.sample([b for b in bds if b not in (2, 12, 16)], 2 if q else 12)
    specs = [("predictor", dict(bd=b, ps=p)) for b in some for p in (1, 2, 4)]
    specs += [("difference", dict(bd=b, ps=p)) for b in some for p in ((1, 2, 4) if not q else (r.choice([1, 2, 3, 4]),))]
    specs += [("normalize", dict(bd=b, ps=1)) for b in bds]
    specs += [("normalize", dict(bd=b, ps=p)) for b in some for p in ((r.choice([2, 4]),) if q else (2, 3, 4))]
    ds = cfgs.build_all(specs)
    by = {}
    for s, d in zip(specs, ds):
        by.setdefault(s[0], []).append((s[1], d))

    # ---------------------------------------------------------------- predictor
    def pcase(maxpix):
        def mk(i):
            c = by["predictor"][i][0]
            return st.fixed_dictionaries({"i": st.just(i), "params": st.just(c), "wh": gen.geometry(c["ps"], maxpix),
                                          "img": gen.image_spec(), "v": gen.bits_pattern()})
        return st.integers(0, len(by["predictor"]) - 1).flatmap(mk)

    def pred(c):
        cfg, d = by["predictor"][c["i"]]
        bd, ps = cfg["bd"], cfg["ps"]
        w, h = c["wh"]
        pix = np.array(gen.image(c["img"], w * h, w, bd), dtype=np.int64)
        n = w * h // ps
        x = np.arange(n) * ps % w
        items = np.zeros((n, ps + 2), np.int64)
        items[:, :ps] = pix.reshape(n, ps)
        items[:, ps] = x == 0
        items[:, ps + 1] = 0
        items[-1, ps + 1] = 1
        img = pix.reshape(h, w)
        p = np.empty_like(img)
        p[:, 4:] = img[:, :-4]
        p[0, :4] = 1 << (bd - 1)
        p[1:, :4] = img[:-1, :4]
        names = ["pixel%d" % k for k in range(ps)] + ["predic%d" % k for k in range(ps)] + ["end"]
        what = "predictor %d bits, %d pixels per cycle, %dx%d" % (bd, ps, w, h)
        got = stage.run_stage(d, ["pixel%d" % k for k in range(ps)] + ["new_row", "end"], items, names, c["v"], what)
        exp = np.concatenate([items[:, :ps], p.reshape(n, ps), items[:, ps + 1:]], 1)
        stage.expect(got, exp, what, names)
        return ["pred_ps%d" % ps] + (["idle"] if c["v"] else []) if n > 4 else None

    # ---------------------------------------------------------------- difference
    def dcase():
        def mk(i):
            c = by["difference"][i][0]
            return st.fixed_dictionaries({"i": st.just(i), "params": st.just(c), "seed": st.integers(0, 2 ** 32),
                                          "n": st.integers(1, 400), "v": gen.bits_pattern(),
                                          "first": st.lists(st.integers(0, 65535), max_size=8)})
        return st.integers(0, len(by["difference"]) - 1).flatmap(mk)

    def check_diff(cfg, d, pix, prd, v):
        bd, ps = cfg["bd"], cfg["ps"]
        n = len(pix)
        end = (np.arange(n) % 7 == 6).astype(np.int64)
        items = np.concatenate([pix, prd, end[:, None]], 1)
        what = "difference %d bits, %d pixels per cycle" % (bd, ps)
        names = ["val%d" % k for k in range(ps)] + ["mns%d" % k for k in range(ps)] + ["end"]
        got = stage.run_stage(d, ["pixel%d" % k for k in range(ps)] + ["predic%d" % k for k in range(ps)] + ["end"], items,
                              names, v, what)
        M = (1 << (bd + 1)) - 1
        diff = pix - prd
        if bd == 16:
            diff = ((diff + 32768) & 0xFFFF) - 32768
        exp = np.concatenate([diff & M, (diff - 1) & M, end[:, None]], 1)
        if bd == 16:
            e2 = np.where(diff == -32768, 32768, diff)
            alt = np.concatenate([e2 & M, (e2 - 1) & M, end[:, None]], 1)
            exp = np.where(got == alt, alt, exp)
        stage.expect(got, exp, what, names)

    def diff(c):
        cfg, d = by["difference"][c["i"]]
        bd, ps = cfg["bd"], cfg["ps"]
        rs = np.random.RandomState(c["seed"] & 0x7FFFFFFF)
        M = (1 << bd) - 1
        a = rs.randint(0, M + 1, (c["n"], 2 * ps)).astype(np.int64)
        ext = np.array([0, M, M >> 1, (M >> 1) + 1, 1, M - 1])
        k = rs.randint(0, 3, a.shape) == 0
        a[k] = ext[rs.randint(0, 6, k.sum())]
        for j, x in enumerate(c["first"]):
            a[0, j % (2 * ps)] = x & M
        check_diff(cfg, d, a[:, :ps], a[:, ps:], c["v"])
        return ["diff_bd%d" % bd] if c["n"] > 4 else None

    def diff_all(c):
        cfg, d = by["difference"][c["i"]]
        bd, ps = cfg["bd"], cfg["ps"]
        n = 1 << bd
        if bd <= 8:
            a, b = np.meshgrid(np.arange(n), np.arange(n))
            a, b = a.reshape(-1), b.reshape(-1)
        else:
            a = np.arange(n)
            b = np.concatenate([np.zeros(n, np.int64), np.full(n, n - 1), np.full(n, n >> 1), (a * 7919 + c["k"]) % n])
            a = np.tile(a, 4)
        pad = (-len(a)) % ps
        a = np.concatenate([a, a[:pad]]).astype(np.int64)
        b = np.concatenate([b, b[:pad]]).astype(np.int64)
        check_diff(cfg, d, a.reshape(-1, ps), b.reshape(-1, ps), [])
        return ["diff_enumerated"]

    # ---------------------------------------------------------------- normalizer
    def check_norm(cfg, d, dv, v):
        bd, ps = cfg["bd"], cfg["ps"]
        M = (1 << (bd + 1)) - 1
        n = len(dv)
        end = (np.arange(n) % 5 == 4).astype(np.int64)
        items = np.concatenate([dv & M, (dv - 1) & M, end[:, None]], 1)
        what = "normalizer %d bits, %d pixels per cycle" % (bd, ps)
        names = ["ssss%d" % k for k in range(ps)] + ["val%d" % k for k in range(ps)] + ["end"]
        got = stage.run_stage(d, ["val%d" % k for k in range(ps)] + ["mns%d" % k for k in range(ps)] + ["end"], items,
                              names, v, what)
        s = mags(dv)
        e = np.where(dv > 0, dv, np.where(dv < 0, dv + (1 << s) - 1, 0))
        e = np.where(s == 16, got[:, ps:2 * ps], e)
        stage.expect(got, np.concatenate([s, e, end[:, None]], 1), what, names)

    def rng(bd):
        return (-32768, 32767) if bd == 16 else (-(1 << bd) + 1, (1 << bd) - 1)

    def norm_all(c):
        cfg, d = by["normalize"][c["i"]]
        lo, hi = rng(cfg["bd"])
        dv = np.arange(lo, hi + 1, dtype=np.int64)
        np.random.RandomState(c["k"] & 0x7FFFFFFF).shuffle(dv)
        ps = cfg["ps"]
        dv = np.concatenate([dv, dv[:(-len(dv)) % ps]])
        check_norm(cfg, d, dv.reshape(-1, ps), [])
        if ps > 1:
            for k in range(1, ps):
                check_norm(cfg, d, np.roll(dv, k).reshape(-1, ps), [])
        return ["norm_all_differences"]

    def ncase():
        def mk(i):
            c = by["normalize"][i][0]
            lo, hi = rng(c["bd"])
            return st.fixed_dictionaries({"i": st.just(i), "params": st.just(c), "v": gen.bits_pattern(),
                                          "d": st.lists(st.lists(st.integers(lo, hi), min_size=c["ps"], max_size=c["ps"]),
                                                        min_size=1, max_size=40)})
        return st.integers(0, len(by["normalize"]) - 1).flatmap(mk)

    def norm(c):
        cfg, d = by["normalize"][c["i"]]
        check_norm(cfg, d, np.array(c["d"], dtype=np.int64), c["v"])
        return ["norm_bd%d" % cfg["bd"]] if len(c["d"]) > 4 else None

    return [Part("predictor", pcase(1500), pred, 3000 if q else 40000),
            Part("predictor_large", pcase(200000), pred, 120 if q else 2000, weight=2),
            Part("difference", dcase(), diff, 1500 if q else 20000),
            Part("difference_enumerated", [{"i": i, "k": seed} for i in range(len(by["difference"]))], diff_all, 0),
            Part("normalizer_all_values", [{"i": i, "k": seed} for i in range(len(by["normalize"]))], norm_all, 0),
            Part("normalizer", ncase(), norm, 1500 if q else 20000)]
