"""P16: stream width converters."""
import random

from hypothesis import strategies as st

import cfgs
import core
import gen
from fw import Part, Violation

PROPERTY = "P16"
RULE = ("Case: a converter (16-to-64, 16-to-40, 64-to-32, 64-to-2x24) with 1 to 600 generated words and any supply and take "
        "pattern; for 16-to-64 some word is flagged as the end and the source goes on padding. Output words must be exactly "
        "the input bits in the documented order, offered words must not change. Every combination of short supply and take "
        "patterns (up to four steps) is enumerated for each converter. A second part resets the converter in the middle and "
        "goes on. Non-trivial: at least two output words.")
ASSUMPTIONS = ["a word offered stays offered until it is taken", "bits that do not fill an output word yet need not appear",
               "the 64-to-2x24 converter takes a word in the cycle after it copied it (as from a FIFO)"]

CONV = {  # name: input bits, function of the input words -> output words
    "b16_b64": (16, lambda X: [X[i] << 48 | X[i + 1] << 32 | X[i + 2] << 16 | X[i + 3] for i in range(0, len(X) // 4 * 4, 4)]),
    "b16_b40": (16, None),
    "b64_b32": (64, lambda X: [y for x in X for y in (x >> 32, x & 0xFFFFFFFF)]),
    "b64_b32_2": (64, lambda X: [y for x in X for y in (x >> 40, x >> 16 & 0xFFFFFF)]),
}
NAMES = sorted(CONV)


def expected(name, X):
    if name == "b16_b40":
        b = b"".join(x.to_bytes(2, "big") for x in X)
        return [int.from_bytes(b[i:i + 5], "big") for i in range(0, len(b) // 5 * 5, 5)]
    return CONV[name][1](X)


def parts(tier, seed):
    q = tier == "quick"
    ds = dict(zip(NAMES, cfgs.build_all([(n, {}) for n in NAMES])))

    def words(c, bits):
        rr = random.Random(c["seed"])
        X = [x & ((1 << bits) - 1) for x in c["x"]]
        return X + [rr.getrandbits(bits) for _ in range(c["more"])]

    def stream(s, name, X, c, what, flagged=None):
        exp = expected(name, X)
        if flagged is None:
            src = s.source(["i_data"], [(x,) for x in X], valid="i_valid", ready="o_busy", ready_inv=1, pat=gen.expand(c["v"]))
            outs = ["o_data"]
        else:
            # end stays with the padding that follows, as the marked cores do after their last word
            src = s.source(["i_data", "i_end"], [(x, int(i >= flagged)) for i, x in enumerate(X)], valid="i_valid", ready="o_busy",
                           ready_inv=1, pat=gen.expand(c["v"]), junk=2)
            outs = ["o_data"]
        snk = s.sink(outs, len(exp) + 8, valid="o_valid", ready="i_busy", ready_inv=1, pat=gen.expand(c["r"]), monitor=1)
        s.run([src], [snk], core.budget(len(X) * 3, len(exp) * 2, c["v"], c["r"]), stop_idle=900)
        got = [g[0] for g in s.records(snk)]
        for i, (g, e) in enumerate(zip(got, exp)):
            if g != e:
                raise Violation("%s: output word %d is %#x, expected %#x" % (what, i, g, e))
        if len(got) != len(exp):
            raise Violation("%s: %d words came out of %d, %d of %d inputs were taken" % (what, len(got), len(exp), src.pos, len(X)))
        if src.pos < len(X):
            raise Violation("%s: only %d of %d inputs were taken" % (what, src.pos, len(X)))
        b = core.bad_stable(snk)
        if b:
            raise Violation("%s: %s" % (what, b))
        return src, snk, exp

    def run(c):
        name = c["n"]
        bits = CONV[name][0]
        s = ds[name].new()
        s.reset()
        X = words(c, bits)
        src, snk, exp = stream(s, name, X, c, "%s, %d words" % (name, len(X)))
        lab = [name]
        if c.get("again"):
            # frame reset in the middle of whatever it is doing, then another stream
            cut = c["again"]
            s.set("i_valid", 0)
            s2 = ds[name].new()
            s2.reset()
            a = s2.source(["i_data"], [(x,) for x in X], valid="i_valid", ready="o_busy", ready_inv=1, pat=gen.expand(c["v"]))
            k = s2.sink(["o_data"], len(exp) + 8, valid="o_valid", ready="i_busy", ready_inv=1, pat=gen.expand(c["r"]))
            s2.run([a], [k], cut)
            s2.set("i_valid", 0)
            s2.reset(1)
            Y = [x ^ ((1 << bits) - 1) for x in X]
            stream(s2, name, Y, c, "%s after a reset at cycle %d, %d words" % (name, cut, len(Y)))
            lab.append("reset")
        return lab if len(exp) > 1 else None

    def run_end(c):
        s = ds["b16_b64"].new()
        s.reset()
        X = words(c, 16)
        k = min(c["k"], len(X) - 1)
        X = X[:k + 1] + [0xFFFF] * 200
        exp = expected("b16_b64", X)
        src = s.source(["i_data", "i_end"], [(x, int(i >= k)) for i, x in enumerate(X)], valid="i_valid", ready="o_busy",
                       ready_inv=1, pat=gen.expand(c["v"]), junk=2)
        snk = s.sink(["o_data"], len(exp) + 8, valid="o_valid", ready="i_busy", ready_inv=1, pat=gen.expand(c["r"]), monitor=1)
        # every cycle's end flag
        n = core.budget(len(X), len(exp) * 2, c["v"], c["r"])
        ends = s.sink(["o_end"], n + 8)
        s.run([src], [snk, ends], n, stop_idle=900)
        got = [g[0] for g in s.records(snk)]
        what = "b16_b64, end flag on word %d" % k
        if got != exp:
            i = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
            raise Violation("%s: %d words of %d, the first difference is word %d" % (what, len(got), len(exp), i))
        e = [x[0] for x in s.records(ends)]
        if 1 not in e:
            raise Violation("%s: the end flag never rose (%d padding words)" % (what, len(X) - k - 1))
        t = e.index(1)
        if 0 in e[t:]:
            raise Violation("%s: the end flag fell again" % what)
        wide = k // 4
        if t <= snk._k2[wide]:
            raise Violation("%s: the end flag rose in cycle %d, the word that holds the end was taken in cycle %d" % (
                what, t, snk._k2[wide]))
        return ["b16_b64_end"]

    def word():
        return st.one_of(st.integers(0, 2 ** 64 - 1), st.sampled_from([0, 2 ** 64 - 1]))
    base = dict(x=st.lists(word(), min_size=1, max_size=24), more=st.sampled_from([0, 0, 40, 300]), seed=st.integers(0, 2 ** 32),
                v=gen.bits_pattern(), r=gen.ready_pattern())
    case = st.fixed_dictionaries(dict(base, n=st.sampled_from(NAMES)))
    again = st.fixed_dictionaries(dict(base, n=st.sampled_from(NAMES), again=st.integers(1, 120)))
    end = st.fixed_dictionaries(dict(base, k=st.integers(0, 100)))
    pats = [list(map(int, format(v, "0%db" % n))) for n in (1, 2, 3, 4) for v in range(1, 1 << n)]
    rp = pats + [[2], [3, 1], [2, 3, 1], [2, 1], [3, 2, 1]]
    r = random.Random("p16%s" % seed)
    enum = [{"n": n, "x": [], "more": 14 if n.startswith("b64") else 35, "seed": i * 64 + j, "v": a, "r": b}
            for n in NAMES for i, a in enumerate(pats) for j, b in enumerate(rp)]
    return [Part("enumerated_patterns", enum, run, 0),
            Part("streams", case, run, 5000 if q else 80000),
            Part("streams_reset", again, run, 2500 if q else 40000),
            Part("end_flag", end, run_end, 1500 if q else 20000)]
