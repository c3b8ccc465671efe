"""P11: encoder and merge stages."""
import random

import numpy as np
from hypothesis import strategies as st

import cfgs
import gen
import model
import stage
from fw import Part, Violation

PROPERTY = "P11"
RULE = ("Case: encoder: every (category, value) pair of every bit depth in random order on every port, and random sequences with "
        "idle cycles; tables also replaced through the table port. Merge: 2 to 9 inputs of generated lengths (0 to the "
        "maximum) and contents. Outputs are compared with code<<category | value and the concatenation. Non-trivial: more "
        "than three inputs.")
ASSUMPTIONS = ["values have no bits above their category, inputs of the merge stage none above their length",
               "the value that comes with category 16 is meaningless"]


def parts(tier, seed):
    q = tier == "quick"
    r = random.Random("p11%s" % seed)
    bds = list(range(2, 17))
    some = [2, 12, 16] + r.sample([b for b in bds if b not in (2, 12, 16)], 2 if q else 12)
    specs = [("encode", dict(bd=b, ps=1)) for b in bds]
    specs += [("encode", dict(bd=b, ps=p)) for b in some for p in ((r.choice([2, 3, 4]),) if q else (2, 3, 4, 5))]
    specs += [("encode", dict(bd=b, ps=r.choice([1, 2, 4]), axi=True)) for b in some]
    mps = [2, 3, 4, 5, 6, 7, 8, 9]
    specs += [("merge", dict(bd=r.choice(bds), ps=p)) for p in mps]
    specs += [("merge", dict(bd=b, ps=p)) for b in some for p in (2, 4)]
    ds = cfgs.build_all(specs)
    by = {"encode": [], "encode_axi": [], "merge": []}
    for s, d in zip(specs, ds):
        by["encode_axi" if s[1].get("axi") else s[0]].append((s[1], d))

    def check_enc(cfg, d, ss, vv, v, table, sim=None):
        bd, ps = cfg["bd"], cfg["ps"]
        n = len(ss)
        end = (np.arange(n) % 6 == 5).astype(np.int64)
        items = np.concatenate([vv, ss, end[:, None]], 1)
        what = "encoder %d bits, %d pixels per cycle" % (bd, ps)
        names = ["enc%d" % k for k in range(ps)] + ["ctr%d" % k for k in range(ps)] + ["end"]
        code = np.array([c for c, l in table], dtype=np.int64)
        ln = np.array([l for c, l in table], dtype=np.int64)
        x = np.where(ss == 16, 0, ss)
        enc = (code[ss] << x) | np.where(ss == 16, 0, vv)
        ctr = ln[ss] + x
        ins = ["val%d" % k for k in range(ps)] + ["ssss%d" % k for k in range(ps)] + ["end"]
        if sim is None:
            got = stage.run_stage(d, ins, items, names, v, what)
        else:
            class One:
                def new(self):
                    return sim
            sim.reset = lambda: None
            got = stage.run_stage(One(), ins, items, names, v, what)
        stage.expect(got, np.concatenate([enc, ctr, end[:, None]], 1), what, names)

    def pairs(bd, rs):
        ss = np.concatenate([np.full(1 << s if s < 16 else 64, s) for s in range(bd + 1)]).astype(np.int64)
        vv = np.concatenate([np.arange(1 << s) if s < 16 else rs.randint(0, 65536, 64) for s in range(bd + 1)]).astype(np.int64)
        # category s: only values the normalizer can give are s bits wide; smaller ones have their top bit per sign
        k = np.arange(len(ss))
        rs.shuffle(k)
        return ss[k], vv[k]

    def enc_all(c):
        cfg, d = by["encode"][c["i"]]
        rs = np.random.RandomState(c["k"] & 0x7FFFFFFF)
        ps, bd = cfg["ps"], cfg["bd"]
        ss, vv = pairs(bd, rs)
        pad = (-len(ss)) % ps
        ss, vv = np.concatenate([ss, ss[:pad]]), np.concatenate([vv, vv[:pad]])
        for k in range(ps):
            check_enc(cfg, d, np.roll(ss, k).reshape(-1, ps), np.roll(vv, k).reshape(-1, ps), [], model.TABLE[:bd + 1])
        return ["all_pairs"]

    def ecase(kind):
        def mk(i):
            c = by[kind][i][0]
            pr = st.integers(0, c["bd"]).flatmap(lambda s: st.tuples(st.just(s), st.integers(0, (1 << s) - 1)))
            return st.fixed_dictionaries({"i": st.just(i), "params": st.just(c), "v": gen.bits_pattern(),
                                          "table": st.one_of(gen.table_spec(), st.builds(lambda s: [s, 3], st.integers(0, 2 ** 32))) if kind == "encode_axi" else st.none(),
                                          "x": st.lists(st.lists(pr.map(list), min_size=c["ps"], max_size=c["ps"]),
                                                        min_size=1, max_size=40)})
        return st.integers(0, len(by[kind]) - 1).flatmap(mk)

    def enc(kind):
        def run(c):
            cfg, d = by[kind][c["i"]]
            a = np.array(c["x"], dtype=np.int64)
            t = gen.table(c["table"], cfg["bd"])
            sim = None
            if kind == "encode_axi":
                sim = d.new()
                sim.reset()
                if c["table"]:
                    rows = [(i, gen.entry(i, cd, l, cfg["bd"]), 1) for i, (cd, l) in enumerate(t)] + [(0, 0, 0)]
                    sim.trace(["i_w_addr", "i_w_data", "i_w_en"], rows, [])
                # read back through the outside read port
                rows = [(i,) for i in range(cfg["bd"] + 1)] + [(0,)] * 2
                out = sim.trace(["i_r_addr"], rows, ["o_r_data"])
                for i, (cd, l) in enumerate(t):
                    if out[i + 1][0] != gen.entry(i, cd, l, cfg["bd"]):
                        raise Violation("encoder table entry %d reads %#x" % (i, out[i + 1][0]))
            check_enc(cfg, d, a[:, :, 0], a[:, :, 1], c["v"], t, sim)
            return [kind, "bd%d" % cfg["bd"]] if len(a) > 3 else None
        return run

    def mcase():
        def mk(i):
            c = by["merge"][i][0]
            w = min(16 + c["bd"], 31)
            e = st.one_of(st.integers(0, w), st.sampled_from([0, 1, w, w - 1])).flatmap(
                lambda l: st.tuples(st.just(l), st.one_of(st.integers(0, (1 << l) - 1), st.just((1 << l) - 1))))
            return st.fixed_dictionaries({"i": st.just(i), "params": st.just(c), "v": gen.bits_pattern(),
                                          "x": st.lists(st.lists(e.map(list), min_size=c["ps"], max_size=c["ps"]),
                                                        min_size=1, max_size=12),
                                          "more": st.integers(0, 60), "seed": st.integers(0, 2 ** 32)})
        return st.integers(0, len(by["merge"]) - 1).flatmap(mk)

    def mrg(c):
        cfg, d = by["merge"][c["i"]]
        ps = cfg["ps"]
        w = min(16 + cfg["bd"], 31)
        rr = random.Random(c["seed"])
        X = list(c["x"])
        for _ in range(c["more"]):
            X.append([(l, rr.getrandbits(l) if l else 0) for l in (rr.randrange(0, w + 1) for _ in range(ps))])
        items = [[e[1] for e in row] + [e[0] for e in row] + [int(i % 4 == 3)] for i, row in enumerate(X)]
        what = "merge of %d inputs, %d bits" % (ps, cfg["bd"])
        got = stage.run_stage(d, ["enc%d" % k for k in range(ps)] + ["ctr%d" % k for k in range(ps)] + ["end"], items,
                              ["enc", "ctr", "end"], c["v"], what)
        for i, row in enumerate(X):
            v = n = 0
            for l, e in row:
                v = v << l | e
                n += l
            g = [int(z) & ((1 << 64) - 1) if w * ps <= 64 else int(z) for z in got[i]]
            if g != [v, n, int(i % 4 == 3)]:
                raise Violation("%s: output %d is %#x, %d bits, end %d; expected %#x, %d bits" % ((what, i) + tuple(g) + (v, n)))
        return ["merge%d" % ps] if len(X) > 3 else None

    return [Part("encoder_all_pairs", [{"i": i, "k": seed} for i in range(len(by["encode"]))], enc_all, 0),
            Part("encoder", ecase("encode"), enc("encode"), 1200 if q else 15000),
            Part("encoder_table_port", ecase("encode_axi"), enc("encode_axi"), 1200 if q else 15000),
            Part("merge", mcase(), mrg, 2500 if q else 40000)]
