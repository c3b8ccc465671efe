"""P15: marker stage."""
from hypothesis import strategies as st
import random

import cfgs
import core
import gen
from fw import Part, Violation

PROPERTY = "P15"
RULE = ("Case: 1 to 200 data words with any supply and take pattern, without or with a forced end that rises at a generated "
        "cycle (before, at and after every point of the frame) and stays up. Without a forced end the output must be eight "
        "start words, the data, eight end words, the last one flagged; with it a prefix of that (as long as what had been "
        "taken, or was on offer, at that time) and eight forced-end words, the last one flagged, unless the frame was complete. "
        "All frames of up to three words with a forced end at every cycle up to 60 are enumerated for several patterns. "
        "Non-trivial: two or more words, or a forced end.")
ASSUMPTIONS = ["the forced end stays up until the reset", "the flag that comes with no valid word is low",
               "a forced end that rises while the last data word is on offer may give either end"]

B, E, F = [0xFFFF] * 8, [0xFFFF] * 8, [0xFFFE] * 8


def parts(tier, seed):
    q = tier == "quick"
    d = cfgs.build_all([("markers", {})])[0]

    def run(c):
        X = list(c["x"])
        rr = random.Random(c["seed"])
        X += [rr.choice([0xFFFF, 0xFFFE, rr.getrandbits(16)]) for _ in range(c["more"])]
        n = len(X)
        s = d.new()
        s.reset()
        src = s.source(["i_data", "i_end"], [(x, int(i == n - 1)) for i, x in enumerate(X)], valid="i_valid", ready="o_busy",
                       ready_inv=1, pat=gen.expand(c["v"]), junk=2)
        snk = s.sink(["o_data", "o_end"], n + 60, valid="o_valid", ready="i_busy", ready_inv=1, pat=gen.expand(c["r"]),
                     last="o_end", monitor=1)
        ev = []
        if c["f"] is not None:
            ev = [(c["f"], "i_fend", 1)]
        # 40 cycles of nothing first when the forced end comes before the data: the frame has not begun
        s.run([src], [snk], core.budget(n, n + 16, c["v"], c["r"]) + (c["f"] or 0), events=ev, stop_lasts=1, stop_idle=900)
        got = s.records(snk)
        what = "markers, %d words" % n + (", forced end at cycle %d" % c["f"] if ev else "")
        b = core.bad_stable(snk)
        if b:
            raise Violation("%s: %s" % (what, b))
        data = [g[0] for g in got]
        flags = [g[1] for g in got]
        if not got or flags != [0] * (len(got) - 1) + [1]:
            raise Violation("%s: %d words came out, flagged are %r" % (what, len(got), [i for i, f in enumerate(flags) if f]))
        normal = B + X + E
        if not ev:
            if data != normal:
                k = next((i for i, (a, e) in enumerate(zip(data, normal)) if a != e), min(len(data), len(normal)))
                raise Violation("%s: %d words, expected %d, the first difference is word %d" % (what, len(data), len(normal), k))
            return ["normal"] if n > 1 else None
        taken = sum(1 for i in range(src.pos) if src._k3[i] < c["f"])      # taken before the cycle in which it rises
        if taken < n:
            allowed = [B + X[:k] + F for k in range(taken, min(n, taken + 3))]
            if taken >= n - 2:
                allowed.append(normal)
        else:
            allowed = [normal]
        if data not in allowed:
            raise Violation("%s: %d words of data had been taken; the output has %d words: ... %s" % (
                what, taken, len(data), " ".join("%04x" % x for x in data[-12:])))
        return ["forced" if data[-1] == 0xFFFE else "forced_late"] + (["forced_before_data"] if taken == 0 else []) + (
            ["forced_before_anything"] if len(data) == 16 else [])

    w = st.one_of(st.sampled_from([0xFFFF, 0xFFFE, 0]), st.integers(0, 65535))
    base = dict(x=st.lists(w, min_size=1, max_size=20), more=st.sampled_from([0, 0, 0, 50, 180]), seed=st.integers(0, 2 ** 32),
                v=gen.bits_pattern(), r=gen.ready_pattern())
    # the frame begins with its first word or the forced end; the overrun unit only fires after the first pixel
    f = st.one_of(st.integers(0, 60), st.integers(0, 600))
    r = random.Random("p15%s" % seed)
    vps = [[], [0, 1], [0, 0, 0, 0, 0, 1], [1, 0]]
    rps = [[], [0, 1], [1, 0], [2], [3, 1], [0, 0, 0, 1], [1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0]]
    enum = []
    for n in (1, 2, 3):
        for t in [None] + list(range(0, 60)):
            for rp in (rps if not q else r.sample(rps, 4)):
                enum.append({"x": [0x1234, 0xFFFF, 0xFFFE][:n], "more": 0, "seed": 0, "v": r.choice(vps), "r": rp, "f": t})
    return [Part("enumerated", enum, run, 0),
            Part("normal", st.fixed_dictionaries(dict(base, f=st.none())), run, 4000 if q else 60000),
            Part("forced", st.fixed_dictionaries(dict(base, f=f)), run, 6000 if q else 100000)]
