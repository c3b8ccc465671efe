"""P07: the Huffman table is replaceable at run time and used exactly."""
from hypothesis import strategies as st

import cfgs
import core
import gen
import prods
from fw import Part, Violation

PROPERTY = "P07"
RULE = ("Case: a product or core configuration and a history of table operations (whole random prefix codes with balanced, "
        "random and maximally skewed lengths up to 16 bits; single entries; half entries in any order; byte-wise writes over "
        "junk; entries rewritten several times) with read-backs and encoded frames in between. The model is an array of "
        "entries. Frames contain differences of every category. Non-trivial: a frame was encoded with a table that is not "
        "the default one.")
ASSUMPTIONS = ["tables are written between frames", "codes of 1 to 16 bits in every entry a frame can use"]


def parts(tier, seed):
    q = tier == "quick"
    import random
    r = random.Random("p07%s" % seed)
    cs = []
    bds = list(range(2, 17))
    r.shuffle(bds)
    for i, b in enumerate([16, 12] + bds[:6 if q else 15]):
        for ps in ([r.choice([1, 2, 4])] if q else [1, 2, 4]):
            cs.append(dict(bd=b, ps=ps, out_bits=r.choice([8, 16, 24, 32])))
    P = prods.build(["beta", "micro"])
    for i, (c, d) in enumerate(zip(cs, cfgs.build_all([("integration3", c) for c in cs]))):
        p = core.Product(d, c["bd"], c["ps"], c["out_bits"], "plain", False)
        p.name = "core%d" % i
        p.step = p.ps
        P[p.name] = p
    keys = sorted(P)

    def ops(bd):
        spec = st.builds(lambda s, k: [s, k], st.integers(0, 2 ** 32), st.integers(0, 2))
        e = st.integers(0, bd)
        style = st.sampled_from(["lohi", "hilo", "bytes", "junk_first", "lows_then_highs", "twice", "same_high"])
        return st.one_of(
            st.tuples(st.just("table"), spec, style, st.integers(0, 2 ** 32)),
            st.tuples(st.just("table"), spec, style, st.integers(0, 2 ** 32)),
            st.tuples(st.just("entry"), e, st.integers(0, 65535), st.integers(1, 16), style),
            st.tuples(st.just("read"),),
            st.tuples(st.just("frame"), st.integers(0, 2 ** 32), st.integers(0, 3))).map(list)

    def case(n):
        def mk(k):
            p = P[k]
            return st.fixed_dictionaries({
                "p": st.just(k), "params": st.just(cs[int(k[4:])] if k.startswith("core") else {}),
                "ops": st.lists(ops(p.bd), min_size=1, max_size=n), "r": gen.ready_pattern()})
        return st.sampled_from(keys).flatmap(mk)

    def writes(entries, style, rnd):
        """register writes that leave the entries {i: 64 bit value}"""
        idx = list(entries)
        rnd.shuffle(idx)
        L = lambda i: (0x400 + 2 * i, entries[i] & 0xFFFFFFFF, 15)
        H = lambda i: (0x401 + 2 * i, entries[i] >> 32, 15)
        J = lambda i, h: (0x400 + 2 * i + h, rnd.getrandbits(32), 15)
        out = []
        if style == "lohi":
            for i in idx:
                out += [L(i), H(i)]
        elif style == "hilo":
            for i in idx:
                out += [H(i), L(i)]
        elif style == "junk_first":
            for i in idx:
                out += [J(i, 0), J(i, 1)]
            for i in idx:
                out += [L(i), H(i)] if rnd.randrange(2) else [H(i), L(i)]
        elif style == "lows_then_highs":
            out += [L(i) for i in idx]
            rnd.shuffle(idx)
            out += [H(i) for i in idx]
        elif style == "twice":
            for i in idx:
                out += [J(i, rnd.randrange(2)), H(i), L(i), H(i)]
        elif style == "same_high":
            out += [H(i) for i in idx]
            out += [L(i) for i in reversed(idx)]
        else:
            for i in idx:
                for h in (0, 1):
                    ks = [0, 1, 2, 3]
                    rnd.shuffle(ks)
                    v = (entries[i] >> 32 * h) & 0xFFFFFFFF
                    for k in ks:
                        junk = rnd.getrandbits(32)
                        out.append((0x400 + 2 * i + h, (junk & ~(0xFF << 8 * k)) | (v & 0xFF << 8 * k), 1 << k))
        return out

    def run(c):
        import random
        p = P[c["p"]]
        bd = p.bd
        s = p.fresh()
        t = [tuple(x) for x in gen.table(None, bd)]
        default = list(t)
        L = set()
        frames = 0

        def read():
            b = core.axi_reads(s, [0x400 + i for i in range(2 * bd + 2)])
            for i, (cd, l) in enumerate(t):
                got = b[2 * i][0] | b[2 * i + 1][0] << 32
                exp = gen.entry(i, cd, l, bd)
                if got != exp or b[2 * i][1] or b[2 * i + 1][1]:
                    raise Violation("%s: entry %d reads %#x, expected %#x" % (p.name, i, got, exp))
        for k, o in enumerate(c["ops"] + [["frame", 5, 0], ["read"]]):
            if o[0] == "read":
                read()
            elif o[0] == "frame":
                if frames and not p.marked:
                    # the bare core needs its outside frame reset
                    s.set("rst", 1)
                    s.eval()
                    s.tick()
                    s.set("rst", 0)
                rnd = random.Random(o[1])
                w = max(4, p.step) * rnd.randrange(1, 6)
                h = rnd.randrange(1, 5)
                pix = gen.image([["uniform", "extremes", "walk", "ff"][o[2]], o[1]], w * h, w, bd)
                core.set_regs(s, w, h, 0xFFFFFF)
                core.one_frame(p, s, w, h, pix, t, [], c["r"], stable=False, extra=20,
                               what="%s (bit depth %d), frame after %s:" % (p.name, bd, [x[0] for x in c["ops"][max(0, k - 4):k]]))
                frames += 1
                if t != default:
                    L |= {"bd%d" % bd, "ps%d" % p.ps}
                    if max(x[1] for x in t) == 16:
                        L.add("len16")
                    if min(x[1] for x in t) == 1:
                        L.add("len1")
            else:
                if o[0] == "table":
                    nt = [tuple(x) for x in gen.table(o[1], bd)]
                    ch = range(bd + 1)
                    style, sd = o[2], o[3]
                else:
                    nt = list(t)
                    nt[o[1]] = (o[2] & ((1 << o[3]) - 1), o[3])
                    ch = [o[1]]
                    style, sd = o[4], o[2]
                wr = writes({i: gen.entry(i, nt[i][0], nt[i][1], bd) for i in ch}, style, random.Random(sd))
                r = core.axi_writes(s, wr)
                if any(r):
                    raise Violation("%s: a table write was refused" % p.name)
                t = nt
                L.add(style)
        return L if any(x.startswith("bd") for x in L) else None

    return [Part("table_histories", case(8), run, 2600 if q else 40000),
            Part("default_table", [{"p": k, "ops": [["read"], ["frame", s, s % 4]], "r": []} for k in keys for s in range(3)],
                 run, 0)]
