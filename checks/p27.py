"""P27: the pipeline keeps up: no clock cycles are lost beyond what the frame itself needs."""
import ctypes
import random
from math import ceil

import numpy as np
from hypothesis import strategies as st

import cfgs
import core
import fw
import gen
import p26
import prods
from fw import Part, Violation

PROPERTY = "P27"
RULE = ("Case: a product or configuration, frame, table and some long waits of the source and of the consumer. The number of "
        "cycles from the first offered pixel to the last accepted word is compared with the time an ideal pipeline of the same "
        "widths and depths needs for that very frame (recursion over groups, pieces and words), plus 2.5 % (15 %, Micro 55 %, for the products, whose packers are small) and a constant; "
        "the full AXI product is measured with a memory that is always ready, the stream converters with generated words. Non-trivial: at least 200 groups (100 words for a converter).")
ASSUMPTIONS = ["2.5 % for configurations whose packer holds two pieces and five output words; the packers of the finished products hold less "
               "and lose up to a tenth of the cycles on some periodic images (Micro: up to 40 %), so these get 15 % (Micro: 55 %, and three half "
               "cycles for a word)"]

U32 = ctypes.POINTER(ctypes.c_uint32)
CONV = {"b16_b64": (16, 4, 1, 1, 1), "b16_b40": (16, 5, 2, 1, 1), "b64_b32": (64, 1, 2, 2, 1), "b64_b32_2": (64, 1, 2, 2, 1)}


def ptr(a):
    return a.ctypes.data_as(ctypes.c_void_p)


def nxt(p):
    """for each cycle of the pattern, the next cycle in which it is 1"""
    n = len(p)
    if not n:
        return np.zeros(1, np.uint64)
    a = np.where(np.asarray(p, np.uint8) == 1, np.arange(n), n)
    return np.ascontiguousarray(np.minimum.accumulate(a[::-1])[::-1], np.uint64)


def ideal(pix, w, bd, ps, t, cfg, marked, num=1, den=1, src=(), snk=()):
    n = len(pix)
    a = np.ascontiguousarray(pix, dtype=np.uint16)
    ln = np.array([l for c, l in t] + [0] * (17 - len(t)), np.int32)
    b = np.zeros(n // ps, np.uint32)
    R = core.ref()
    R.ref_groups(ptr(a), ctypes.c_uint64(n), ctypes.c_uint64(w), bd, ps, ptr(ln), ptr(b))
    b = b.astype(np.uint64)
    cv = np.uint64(cfg["conv"])
    k = np.maximum((b + cv - np.uint64(1)) // cv, np.uint64(1))
    B = np.full(int(k.sum()), cv)
    B[np.cumsum(k) - np.uint64(1)] = b - (k - np.uint64(1)) * cv
    B = np.cumsum(B)
    A = np.maximum(B, np.uint64(cfg["buf"])) - np.uint64(cfg["buf"])
    if marked:
        by, _ = core.scan_bytes(pix, w, bd, t)
        by = np.concatenate([by, np.zeros(4, np.uint8)])
        S = np.concatenate([[0], np.cumsum(1 + (by == 255))]).astype(np.uint64)
        W, need = [8 + S[(x // np.uint64(8)).astype(np.int64)] // np.uint64(2) for x in (B, A)]
    else:
        W, need = B // np.uint64(cfg["out_bits"]), (A + np.uint64(cfg["out_bits"] - 1)) // np.uint64(cfg["out_bits"])
    W[-1] += 1 + (8 if marked else 0)
    total = min(16 + bd, 31) * ps
    k1 = max(1, cfg["lj"] - 24)
    k2 = max(1, cfg["cdepth"] - ceil(total / cfg["conv"]) - 11)
    m = int(W[-1])
    W, need = np.ascontiguousarray(W, np.uint64), np.ascontiguousarray(need, np.uint64)
    R.ref_time.restype = ctypes.c_uint64
    U = ctypes.c_uint64
    return R.ref_time(U(len(b)), ptr(k), U(len(B)), U(k1), U(k2), ptr(W), ptr(need), U(8 if marked else 0), U(num), U(den),
                      ptr(nxt(src)), U(len(src)), ptr(nxt(snk)), U(len(snk))), len(b), m


def waits(at, n):
    """[(time, length)] -> a pattern of n cycles with these pauses"""
    p = np.ones(n, np.uint8)
    for i, x in at:
        p[i:i + x] = 0
    return p.tolist()


def early(at):
    return [(max(0, a - a // 40 - 60), x + a // 40 + 60) for a, x in at]


def parts(tier, seed):
    q = tier == "quick"
    names = ["beta", "micro", "beta_axistream", "micro_axistream", "beta_fifo_axistream", "beta_fifo_lvds",
             "integration_3_axi_stream"]
    P = prods.build(names)
    # these packers hold too few bits to bridge the cycles they take to start again: T counts no overlap, and 15 % more
    beta = dict(conv=30, out_bits=16, lj=512, cdepth=512, buf=30, pct=15)
    micro = dict(conv=15, out_bits=16, lj=512, cdepth=1024, buf=15, pct=55)
    quad = dict(conv=48, out_bits=32, lj=128, cdepth=256, buf=48, pct=15)
    items = [(n, P[n], beta if "beta" in n else micro if "micro" in n else quad) for n in names]
    cs = cfgs.core_configs(seed, 14 if q else 60)
    for c in cs:
        c["buf"] = max(2 * c["conv"] + 5 * c["out_bits"], 3 * c["conv"] + c["out_bits"], c["buf"])
    ds = cfgs.build_all([("integration3", c) for c in cs])
    items += [("config %r" % (c,), core.Product(d, c["bd"], c["ps"], c["out_bits"], "plain", False), dict(c, pct=2.5))
              for c, d in zip(cs, ds)]
    names += ["c%d" % i for i in range(len(cs))]
    by = dict(zip(names, items))
    conv = dict(zip(sorted(CONV), cfgs.build_all([(n, {}) for n in sorted(CONV)])))

    def run(c):
        name, p, cfg = by[c["p"]]
        w, h = c["wh"]
        n = w * h
        pix = np.asarray(gen.image(c["img"], n, w, p.bd))
        t = gen.table(c["table"], p.bd)
        s = p.fresh()
        core.set_regs(s, w, h, 0xFFFFFF, t if c["table"] else None, p.bd)
        out = len(p.expected(pix, w, t))
        if c["p"] in P and p.out_bits == 40:
            out = out * 16 // 40
        it = p.items(pix)
        rate = (3, 2) if cfg is micro else (1, 1)
        T, groups, words = ideal(pix, w, p.bd, p.ps, t, cfg, p.marked, *rate)
        # pauses at times within the frame
        sp = [(int(a * T), x) for a, x in c["sp"]]
        kp = [(int(a * T), x) for a, x in c["kp"]]
        acc = 0
        for a, x in sorted(c["turns"]):                     # the consumer waits, then the source: what lies between bridges both
            kp.append((int(a * T) + acc, x))
            sp.append((int(a * T) + acc + x, x))
            acc += x
        n = T + sum(x for a, x in sp + kp)
        lost = len(sp + kp)
        src, snk = waits(sp, n) if sp else [], waits(kp, n) if kp else []
        if lost:
            # the frame is a little later than the ideal one at every pause
            T, groups, words = ideal(pix, w, p.bd, p.ps, t, cfg, p.marked, *rate, waits(early(sp), n), waits(early(kp), n))
        lim = int(T * (1 + cfg["pct"] / 100)) + 60 + 20 * lost
        fill = [1] * (2 * lim + 17000)
        src = p.source(s, it, src + fill if sp else [])
        snk = p.sink(s, out + 64, snk + fill if kp else [])
        s.run([src], [snk], 2 * lim + 16000, stop_lasts=1, stop_idle=16000 if lost else 3500)
        if snk.n < out:
            raise Violation("%s %dx%d: %d of %d words came out" % (name, w, h, snk.n, out))
        took = snk._k2[out - 1]
        if took > lim:
            raise Violation("%s %dx%d: the frame took %d cycles, %d inputs, %d words, %d pauses; an ideal pipeline takes %d" % (
                name, w, h, took, groups, words, lost, T))
        if groups >= 200:
            L = ["product" if c["p"] in P else "config", "turns" if c["turns"] else "pauses" if lost else "free"]
            return L + (["input_bound"] if T <= groups * 1.02 + 20 else ["output_bound"] if T <= words * 1.02 + 20 else ["between"])

    def converter(c):
        name = c["n"]
        bits, i, o, num, den = CONV[name]
        s = conv[name].new()
        s.reset()
        r = random.Random(c["seed"])
        X = [r.getrandbits(bits) for _ in range(c["k"])]
        out = len(X) * o // i
        lost = sum(x + 4 for a, x in c["sp"] + c["kp"])
        T = int(len(X) * num / den)
        sp = [(int(a * T), x) for a, x in c["sp"]]
        kp = [(int(a * T), x) for a, x in c["kp"]]
        lim = int(T * 1.02) + 16 + lost
        src = s.source(["i_data"], [(x,) for x in X], valid="i_valid", ready="o_busy", ready_inv=1, pat=waits(sp, lim + 500) if sp else [])
        snk = s.sink(["o_data"], out + 8, valid="o_valid", ready="i_busy", ready_inv=1, pat=waits(kp, lim + 500) if kp else [])
        s.run([src], [snk], 20 * lim + 20000, stop_idle=14000)
        if snk.n < out:
            raise Violation("%s: %d of %d words came out" % (name, snk.n, out))
        took = snk._k2[out - 1] if out else 0
        if took > lim:
            raise Violation("%s: %d words took %d cycles with %d cycles of pauses" % (name, len(X), took, lost))
        return [name, "pauses" if lost else "free"] if c["k"] >= 100 else None

    full = cfgs.build_all([("fullaxi", {"axi": True})])[0]

    def memory(c):
        s = full.new()
        s.init()
        s.reset()
        w, h = c["wh"]
        pix = np.asarray(gen.image(c["img"], w * h, w, 12))
        t = gen.table(c["table"], 12)
        core.set_regs(s, w, h, 0xFFFFFF, t if c["table"] else None, 12)
        exp = core.marked_words(pix, w, 12, t)
        m = p26.memory_image(pix, c["seed"], 2000)
        a = s.memory(m, 0x1000, len(m) // 16 + 200, len(exp) // 64 + 40, [[]] * 5, c["rlat"], c["blat"], c["limit"],
                     end=("o_fvalid", "o_fend", "o_fbusy"))
        p26.bus(s, [], [(0x400, 0x1000), (0x401, 0x2000000)], a)
        p26.bus(s, [], [(0x402, p26.START)], a)
        T, groups, words = ideal(pix, w, 12, 2, t, beta, True)
        lim = int(T * (1 + beta["pct"] / 100)) + 100 + 2 * (c["rlat"] + c["blat"])
        took = s.run([], [], 10 * lim + 8000, stop_idle=6000, axi=a)
        if not a.ends:
            raise Violation("full AXI %dx%d: the frame does not end" % (w, h))
        if took > lim:
            raise Violation("full AXI %dx%d: the frame took %d cycles, %d inputs, %d words; an ideal pipeline takes %d" % (
                w, h, took, groups, words, T))
        return ["memory"] if groups >= 200 else None

    frac = st.floats(0, 1, allow_nan=False).map(lambda x: round(x, 4))
    pauses = st.one_of(st.just([]), st.lists(st.tuples(frac, st.one_of(st.integers(1, 40), st.integers(40, 3000))), max_size=4))

    turns = st.one_of(st.just([]), st.just([]), st.lists(st.tuples(frac, st.one_of(st.integers(20, 200), st.integers(200, 1500))),
                                                       min_size=1, max_size=3))

    def case(maxpix):
        def mk(n):
            return st.fixed_dictionaries({"p": st.just(n), "wh": gen.geometry(by[n][1].step if n in P else by[n][1].ps, maxpix),
                                          "img": gen.image_spec(), "table": gen.table_spec(),
                                          "sp": pauses, "kp": pauses, "turns": turns})
        return st.sampled_from(names).flatmap(mk)
    cc = st.fixed_dictionaries({"n": st.sampled_from(sorted(CONV)), "k": st.integers(1, 3000), "seed": st.integers(0, 2 ** 31),
                                "sp": pauses, "kp": pauses})
    mc = st.fixed_dictionaries({"wh": gen.geometry(2, 20000), "img": gen.image_spec(), "table": gen.table_spec(),
                                "seed": st.integers(0, 2 ** 31), "rlat": st.integers(0, 60), "blat": st.integers(0, 60),
                                "limit": st.sampled_from([8, 15])})
    return [Part("frames", case(6000), run, 1500 if q else 30000),
            Part("large_frames", case(140000), run, 100 if q else 2000, weight=3),
            Part("memory", mc, memory, 200 if q else 4000, weight=2),
            Part("converters", cc, converter, 300 if q else 6000)]
