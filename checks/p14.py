"""P14: 0xFF stuffing."""
import random

from hypothesis import strategies as st

import cfgs
import core
import gen
from fw import Part, Violation

PROPERTY = "P14"
RULE = ("Case: a sequence of 16-bit words (few distinct byte values around 0xFF, all-0xFF runs, random) with the last one flagged, "
        "through both stages together, through each stage alone and (as chunks of bits) through the packer and both stages; any "
        "supply and take pattern. All word sequences of up to three words over the byte alphabet {0x00, 0x12, 0xFF} are enumerated, each with "
        "several stall patterns. The output is compared with byte-wise stuffing. Non-trivial: at least one 0xFF byte and two words.")
ASSUMPTIONS = ["the flag that comes with no valid word is low", "after the flagged word nothing else is offered"]

BYTES = [0xFF, 0xFF, 0xFF, 0x00, 0xFE, 0x7F, 0x12]


def stuff(bs):
    out = []
    for b in bs:
        out.append(b)
        if b == 0xFF:
            out.append(0)
    return out


def words16(bs):
    bs = bs + [0] * (len(bs) % 2)
    return [bs[i] << 8 | bs[i + 1] for i in range(0, len(bs), 2)]


def parts(tier, seed):
    q = tier == "quick"
    specs = [("fix_both", {}), ("fix_0xff", {}), ("fix_0xff2", {}), ("packed_fix", dict(conv=30, buf=77)),
             ("packed_fix", dict(conv=28, buf=44))]
    both, one, two, pk1, pk2 = cfgs.build_all(specs)

    byte = st.one_of(st.sampled_from(BYTES), st.integers(0, 255))
    word = st.tuples(byte, byte).map(lambda t: t[0] << 8 | t[1])
    case = st.fixed_dictionaries({"x": st.lists(word, min_size=1, max_size=24), "more": st.sampled_from([0, 0, 0, 30, 300]),
                                  "seed": st.integers(0, 2 ** 32), "v": gen.bits_pattern(), "r": gen.ready_pattern()})

    def data(c):
        X = list(c["x"])
        rr = random.Random(c["seed"])
        n = rr.choice([2, 4, 7])
        for _ in range(c["more"]):
            X.append(rr.choice(BYTES[:n] + [rr.randrange(256)]) << 8 | rr.choice(BYTES[:n] + [rr.randrange(256)]))
        return X

    def drive(d, items, nout, c, outs, ins, what):
        s = d.new()
        s.reset()
        src = s.source(ins, items, valid="i_valid", ready="o_busy", ready_inv=1, pat=gen.expand(c["v"]), junk=2)
        snk = s.sink(outs, nout + 16, valid="o_valid", ready="i_busy", ready_inv=1, pat=gen.expand(c["r"]), last="o_end",
                     monitor=1)
        s.run([src], [snk], core.budget(len(items), nout, c["v"], c["r"]), stop_lasts=1, stop_idle=900)
        b = core.bad_stable(snk)
        if b:
            raise Violation("%s: %s" % (what, b))
        return s.records(snk), src

    def check(got, exp, what):
        for i, (g, e) in enumerate(zip(got, exp)):
            if tuple(g) != tuple(e):
                raise Violation("%s: output %d of %d is (%s), expected (%s)" % (
                    what, i, len(exp), ", ".join(map(hex, g)), ", ".join(map(hex, e))))
        if len(got) != len(exp):
            raise Violation("%s: %d outputs, expected %d" % (what, len(got), len(exp)))

    def bytes_of(X):
        return [b for w in X for b in (w >> 8, w & 255)]

    def labels(X, name):
        B = bytes_of(X)
        if len(X) < 2 or 255 not in B:
            return None
        l = [name]
        if X[-1] & 255 == 255 or X[-1] >> 8 == 255:
            l.append("ff_at_end")
        if (len(B) + B.count(255)) % 2:
            l.append("padded")
        if 0xFFFF in X:
            l.append("two_in_a_word")
        return l

    def run_both(c):
        X = data(c)
        items = [(w, int(i == len(X) - 1)) for i, w in enumerate(X)]
        W = words16(stuff(bytes_of(X)))
        exp = [(w, int(i == len(W) - 1)) for i, w in enumerate(W)]
        what = "stuffing of %d words" % len(X)
        got, _ = drive(both, items, len(W), c, ["o_data", "o_end"], ["i_data", "i_end"], what)
        check(got, exp, what)
        return labels(X, "both")

    def run_first(c):
        X = data(c)
        items = [(w, int(i == len(X) - 1)) for i, w in enumerate(X)]
        exp = []
        for i, w in enumerate(X):
            b = stuff([w >> 8, w & 255])
            v = 0
            for x in b:
                v = v << 8 | x
            exp.append((v, len(b), int(i == len(X) - 1)))
        what = "first stuffing stage, %d words" % len(X)
        got, _ = drive(one, items, len(X), c, ["o_data", "o_ctr", "o_end"], ["i_data", "i_end"], what)
        check(got, exp, what)
        return labels(X, "first")

    def run_second(c):
        rr = random.Random(c["seed"])
        X = data(c)
        B, items = [], []
        for i, w in enumerate(X):
            b = [w >> 8, w & 255] + [rr.randrange(256) for _ in range(rr.choice([0, 0, 1, 2]))]
            v = 0
            for x in b:
                v = v << 8 | x
            B += b
            items.append((v, len(b), int(i == len(X) - 1)))
        W = words16(B)
        exp = [(w, int(i == len(W) - 1)) for i, w in enumerate(W)]
        what = "second stuffing stage, %d words" % len(X)
        got, _ = drive(two, items, len(W), c, ["o_data", "o_end"], ["i_data", "i_ctr", "i_end"], what)
        check(got, exp, what)
        return ["second"] if len(X) > 1 else None

    def run_packed(c):
        d, conv = ((pk1, 30), (pk2, 28))[c["seed"] & 1]
        rr = random.Random(c["seed"])
        X = data(c)
        bits = "".join(format(w, "016b") for w in X)
        bits = bits[:len(bits) - rr.choice([0, 0, 1, 7, 8, 9, 15])] or "1"
        items = []
        k = 0
        while k < len(bits):
            n = rr.choice([1, 2, conv, conv - 1, rr.randint(1, conv), 3, 8])
            b = bits[k:k + n]
            k += n
            items.append((int(b, 2), len(b), int(k >= len(bits))))
        pad = bits + "0" * (-len(bits) % 16)
        B = [int(pad[i:i + 8], 2) for i in range(0, len(pad), 8)]
        W = words16(stuff(B))
        exp = [(w, int(i == len(W) - 1)) for i, w in enumerate(W)]
        s = d.new()
        s.reset()
        src = s.source(["i_enc", "i_ctr", "i_end"], items, valid="i_valid", ready="o_re", pat=gen.expand(c["v"]), junk=2)
        snk = s.sink(["o_data", "o_end"], len(W) + 16, valid="o_valid", ready="i_busy", ready_inv=1, pat=gen.expand(c["r"]),
                     last="o_end", monitor=1)
        s.run([src], [snk], core.budget(len(items), len(W), c["v"], c["r"]), stop_lasts=1, stop_idle=900)
        what = "packer and stuffing of %d bits" % len(bits)
        check(s.records(snk), exp, what)
        b = core.bad_stable(snk)
        if b:
            raise Violation("%s: %s" % (what, b))
        return labels(X, "packed")

    A = [0x00, 0x12, 0xFF]
    W2 = [a << 8 | b for a in A for b in A]
    seqs = [[a] for a in W2] + [[a, b] for a in W2 for b in W2] + [[a, b, c] for a in W2 for b in W2 for c in W2]
    r = random.Random("p14%s" % seed)
    pats = [[], [0, 1], [1, 0], [0, 0, 0, 1], [2], [3, 1], [1, 1, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0, 1]]
    enum = []
    for x in seqs:
        if q and len(x) == 3:
            for _ in range(3):
                enum.append({"x": x, "more": 0, "seed": 0, "v": r.choice(pats[:4] + pats[6:7]), "r": r.choice(pats)})
        else:
            for rp in pats:
                enum.append({"x": x, "more": 0, "seed": 0, "v": r.choice([[], [0, 1], [1, 1, 0], [0, 0, 0, 1]]), "r": rp})

    return [Part("both_enumerated", enum, run_both, 0),
            Part("both", case, run_both, 4000 if q else 80000),
            Part("first_stage", case, run_first, 2000 if q else 30000),
            Part("second_stage", case, run_second, 2000 if q else 30000),
            Part("packed", case, run_packed, 3000 if q else 50000)]
