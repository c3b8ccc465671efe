"""P13: pipeline FIFO, converter, converter FIFO and packer."""
import random

from hypothesis import strategies as st

import cfgs
import core
import gen
from fw import Part, Violation

PROPERTY = "P13"
RULE = ("Case: a stage at one configuration and a sequence of chunks (length, bits, end flag) with generated supply and take "
        "patterns. FIFO stages: fed by a writer that stops up to eight (converter FIFO: up to its number of steps less two) cycles "
        "after the warning. Converter: fed like from a FIFO, with the full warning toggling at any time. Packer: any chunk "
        "lengths, output stalls. Integration 2: whole frames up to the chunk stream. Accepted and emitted bits are compared. "
        "Non-trivial: more than eight chunks (integration 2: more than one input).")
ASSUMPTIONS = ["chunks have 1 to the maximum number of bits and no bits above their length (as the merge stage emits them)",
               "a chunk offered to the converter or packer stays offered until it is taken (as a FIFO does)",
               "the frame ends with the first end flag given to the packer"]


def total(bd, ps):
    return min(16 + bd, 31) * ps


def steps(bd, ps, conv):
    return -(-total(bd, ps) // conv) + 3


def parts(tier, seed):
    q = tier == "quick"
    r = random.Random("p13%s" % seed)
    k = 1 if q else 4
    lj = [(12, 2, 25, 8), (12, 1, 26, 7), (16, 4, 32, 8)] + [
        (r.randint(2, 16), r.choice([1, 2, 3, 4]), r.choice([25, 27, 31, 32, 33, 64]), r.randint(0, 8)) for _ in range(5 * k)]
    cv = [(12, 2, 30), (12, 1, 28), (12, 4, 48), (2, 1, 1), (16, 4, 16), (12, 2, 56), (3, 2, 2)]
    for _ in range(8 * k):
        b, p = r.randint(2, 16), r.choice([1, 2, 3, 4])
        t = total(b, p)
        cv.append((b, p, r.choice([r.randint(1, t), r.randint(1, t), t, t - 1, (t + 1) // 2, t // 2, max(1, t // 3)])))
    cf = [(12, 2, 30, steps(12, 2, 30) + 4, 2)]
    for _ in range(7 * k):
        b, p, c = r.choice(cv)
        s = steps(b, p, c)
        cf.append((b, p, c, s + r.choice([4, 5, 6, 9, 20]), r.randint(0, s - 2)))
    vb = [(30, 16, 77), (28, 16, 44), (48, 32, 144), (30, 16, 46), (1, 8, 9), (31, 32, 63), (16, 64, 80)]
    for _ in range(8 * k):
        c = r.choice([r.randint(1, 124), r.randint(1, 32), 30, 124])
        o = r.choice([8, 16, 24, 32, 40, 64])
        vb.append((c, o, c + o + r.choice([0, 0, 1, 2, r.randint(0, 40), c, o])))
    i2 = [(12, 2, 30), (12, 1, 28)]
    for _ in range(3 * k):
        b, p = r.randint(2, 16), r.choice([1, 2, 4])
        i2.append((b, p, r.randint(max(1, total(b, p) // 6), total(b, p))))
    specs = [("lj92_pipeline_fifo", dict(bd=b, ps=p, depth=d, lat=l)) for b, p, d, l in lj]
    specs += [("converter_fifo", dict(bd=b, ps=p, conv=c, depth=d, lat=l)) for b, p, c, d, l in cf]
    specs += [("converter", dict(bd=b, ps=p, conv=c)) for b, p, c in cv]
    specs += [("vbits_to_cbits", dict(conv=c, out_bits=o, buf=b)) for c, o, b in vb]
    specs += [("integration2", dict(bd=b, ps=p, conv=c)) for b, p, c in i2]
    ds = cfgs.build_all(specs)
    by = {}
    for s, d in zip(specs, ds):
        by.setdefault(s[0], []).append((s[1], d))

    def width(kind, c):
        return total(c["bd"], c["ps"]) if kind in ("lj92_pipeline_fifo", "converter") else c["conv"]

    def chunks(mx):
        ln = st.one_of(st.integers(1, mx), st.sampled_from([1, mx, max(1, mx - 1), (mx + 1) // 2]))
        one = ln.flatmap(lambda l: st.tuples(st.just(l), st.one_of(st.integers(0, (1 << l) - 1), st.just((1 << l) - 1)))).map(list)
        return st.fixed_dictionaries({"x": st.lists(one, min_size=1, max_size=20), "more": st.sampled_from([0, 20, 100, 150, 400]),
                                      "seed": st.integers(0, 2 ** 32), "dist": st.sampled_from(["u", "s", "l", "m"])})

    def expand(c, mx):
        X = [tuple(e) for e in c["x"]]
        rr = random.Random(c["seed"])
        for _ in range(c["more"]):
            d = c["dist"]
            l = rr.randint(1, mx) if d == "u" else min(mx, rr.randint(1, 6)) if d == "s" else max(1, mx - rr.randint(0, 3)) \
                if d == "l" else min(mx, rr.choice([1, 2, mx, mx // 2 + 1, mx // 3 + 1]))
            X.append((l, rr.getrandbits(l)))
        return X

    def case(kind):
        def mk(i):
            c = by[kind][i][0]
            return st.fixed_dictionaries({"i": st.just(i), "params": st.just(c), "ch": chunks(width(kind, c)),
                                          "v": gen.bits_pattern(), "r": gen.ready_pattern(), "full": gen.bits_pattern(),
                                          "ends": st.sampled_from(["last", "some"])})
        return st.integers(0, len(by[kind]) - 1).flatmap(mk)

    def flags(c, n):
        e = [0] * n
        e[-1] = 1
        if c["ends"] == "some":
            for i in range(0, n, 5):
                e[i] = 1
        return e

    # ---------------------------------------------------------------- FIFOs
    def fifo(kind):
        def run(c):
            cfg, d = by[kind][c["i"]]
            X = expand(c["ch"], width(kind, cfg))
            e = flags(c, len(X))
            items = [(b, l, f) for (l, b), f in zip(X, e)]
            s = d.new()
            s.reset()
            src = s.source(["i_enc", "i_ctr", "i_end"], items, valid="i_valid", ready="o_ready", pat=gen.expand(c["v"]))
            snk = s.sink(["o_enc", "o_ctr", "o_end"], len(items) + 8, valid="o_valid", ready="i_re", pat=gen.expand(c["r"]),
                         monitor=1)
            s.run([src], [snk], core.budget(len(items), len(items), c["v"], c["r"]), stop_idle=900)
            what = "%s %s" % (kind, cfg)
            got = s.records(snk)
            for i, (g, x) in enumerate(zip(got, items)):
                if tuple(g) != x:
                    raise Violation("%s: entry %d is %r, written was %r" % (what, i, g, x))
            if len(got) != len(items):
                raise Violation("%s: %d entries accepted of %d, %d came out" % (what, src.pos, len(items), len(got)))
            b = core.bad_stable(snk)
            if b:
                raise Violation("%s: %s" % (what, b))
            full = not c["v"] and len(items) > 1 and src._k3[len(items) - 1] - src._k3[0] > len(items)
            return [kind] + (["warned"] if full else []) if len(items) > 8 else None
        return run

    # ---------------------------------------------------------------- converter
    def conv(c):
        cfg, d = by["converter"][c["i"]]
        W = cfg["conv"]
        X = expand(c["ch"], width("converter", cfg))
        e = flags(c, len(X))
        items = [(b, l, f) for (l, b), f in zip(X, e)]
        pieces = [-(-l // W) for l, b in X]
        s = d.new()
        s.reset()
        src = s.source(["i_enc", "i_ctr", "i_end"], items, valid="i_valid", ready="o_re", pat=gen.expand(c["v"]))
        snk = s.sink(["o_enc", "o_ctr", "o_end"], sum(pieces) + 64, valid="o_valid")
        full = [1 - x for x in gen.expand(c["full"])] or [0]
        n = int(20 * (len(items) / gen.density(c["v"]) + sum(pieces)) / gen.density(c["full"])) + 600
        n = min(n, 400000)
        fs = s.source(["i_full"], [(full[i % len(full)],) for i in range(n)])
        s.run([src, fs], [snk], n, stop_idle=900)
        what = "converter %s" % (cfg,)
        got = s.records(snk)
        k = 0
        for i, (l, b) in enumerate(X):
            acc = n = 0
            for j in range(pieces[i]):
                if k >= len(got):
                    raise Violation("%s: %d of %d chunks taken, only %d pieces came out, %d expected" % (
                        what, src.pos, len(X), len(got), sum(pieces)))
                v, cl, f = got[k]
                k += 1
                if cl > W or v >> cl or cl < 1:
                    raise Violation("%s: piece %d has %d bits: %#x" % (what, k - 1, cl, v))
                acc = acc << cl | v
                n += cl
                if n < l and f:
                    raise Violation("%s: piece %d of a chunk is flagged as the end before its last piece" % (what, k - 1))
                if n >= l:
                    break
            if n != l or acc != b:
                raise Violation("%s: chunk %d of %d bits %#x came out as %d bits %#x" % (what, i, l, b, n, acc))
            if f != e[i]:
                raise Violation("%s: end flag of chunk %d is %d, expected %d" % (what, i, f, e[i]))
        if k != len(got):
            raise Violation("%s: %d pieces more than chunks" % (what, len(got) - k))
        # the converter FIFO takes this many entries after its warning
        st_ = steps(cfg["bd"], cfg["ps"], W)
        cyc = [snk._k2[i] for i in range(snk.n)]
        fl = lambda t: full[t % len(full)]
        run_, last = 0, None
        for t in cyc:
            if last is not None and all(fl(x) for x in range(max(last, t - 300), t + 1)) and t - last < 300:
                run_ += 1
            else:
                run_ = 1 if fl(t) else 0
            last = t
            if run_ > st_ - 1:
                raise Violation("%s: %d pieces in a row after the full warning" % (what, run_))
        return ["converter"] + (["split"] if max(pieces) > 1 else []) + (["warned"] if c["full"] else []) if len(X) > 8 else None

    # ---------------------------------------------------------------- packer
    def pack(c):
        cfg, d = by["vbits_to_cbits"][c["i"]]
        O = cfg["out_bits"]
        X = expand(c["ch"], cfg["conv"])
        items = [(b, l, 0) for l, b in X]
        items[-1] = items[-1][:2] + (1,)
        n = sum(l for l, b in X)
        acc = 0
        for l, b in X:
            acc = acc << l | b
        pad = -n % O
        acc <<= pad
        m = (n + pad) // O
        exp = [acc >> (O * (m - 1 - i)) & ((1 << O) - 1) for i in range(m)]
        s = d.new()
        s.reset()
        src = s.source(["i_enc", "i_ctr", "i_end"], items, valid="i_valid", ready="o_re", pat=gen.expand(c["v"]), junk=2)
        snk = s.sink(["o_data", "o_end"], m + 16, valid="o_valid", ready="i_busy", ready_inv=1, pat=gen.expand(c["r"]),
                     last="o_end", monitor=1)
        s.run([src], [snk], core.budget(len(items), m, c["v"], c["r"]), stop_lasts=1, stop_idle=900)
        what = "packer %s" % (cfg,)
        got = s.records(snk)
        for i, g in enumerate(got[:m]):
            if g[0] != exp[i]:
                raise Violation("%s: word %d of %d is %#x, expected %#x" % (what, i, m, g[0], exp[i]))
            if g[1] != (i == m - 1):
                raise Violation("%s: end flag of word %d of %d is %d" % (what, i, m, g[1]))
        if len(got) != m:
            raise Violation("%s: %d words, expected %d (%d bits, %d of %d chunks taken)" % (what, len(got), m, n, src.pos, len(X)))
        b = core.bad_stable(snk)
        if b:
            raise Violation("%s: %s" % (what, b))
        return ["packer"] + (["whole_words"] if not pad else []) + (["stalls"] if c["r"] else []) if len(X) > 8 else None

    # ---------------------------------------------------------------- integration 2
    def icase(maxpix):
        def mk(i):
            p = by["integration2"][i][0]
            return st.fixed_dictionaries({"i": st.just(i), "params": st.just(p), "wh": gen.geometry(p["ps"], maxpix),
                                          "img": gen.image_spec(), "v": gen.bits_pattern(), "r": gen.ready_pattern()})
        return st.integers(0, len(by["integration2"]) - 1).flatmap(mk)

    def integ(c):
        cfg, d = by["integration2"][c["i"]]
        bd, ps = cfg["bd"], cfg["ps"]
        w, h = c["wh"]
        pix = gen.image(c["img"], w * h, w, bd)
        table = gen.full_table(None, bd)
        by_, n = core.scan_bytes(pix, w, bd, table)
        s = d.new()
        s.reset()
        core.set_regs(s, w, h, 0xFFFFFF)
        items = [tuple(pix[i:i + ps]) for i in range(0, len(pix), ps)]
        src = s.source(["i_pixel%d" % i for i in range(ps)], items, valid="i_valid", ready="o_nready", ready_inv=1,
                       pat=gen.expand(c["v"]))
        cap = len(items) * (total(bd, ps) // cfg["conv"] + 2) + 16
        snk = s.sink(["o_enc", "o_ctr", "o_end"], cap, valid="o_valid", ready="i_re", pat=gen.expand(c["r"]), last="o_end",
                     monitor=1)
        s.run([src], [snk], core.budget(len(items), cap, c["v"], c["r"]), stop_lasts=1, stop_idle=1500, extra=60)
        what = "integration 2 %s %dx%d" % (cfg, w, h)
        got = s.records(snk)
        bits = "".join(format(v, "0%db" % l) if l else "" for v, l, f in got)
        exp = int.from_bytes(bytes(by_), "big")
        exp = format(exp, "0%db" % (8 * len(by_)))[:n] if len(by_) else ""
        if any(l > cfg["conv"] for v, l, f in got):
            raise Violation("%s: a chunk is wider than the converter" % what)
        if bits != exp:
            k = next((i for i, (a, b) in enumerate(zip(bits, exp)) if a != b), min(len(bits), len(exp)))
            raise Violation("%s: %d bits in %d chunks, expected %d bits; the first difference is bit %d (%d of %d inputs accepted)"
                            % (what, len(bits), len(got), n, k, src.pos, len(items)))
        if [f for v, l, f in got] != [0] * (len(got) - 1) + [1]:
            raise Violation("%s: end flags %r" % (what, [i for i, g in enumerate(got) if g[2]][:5]))
        b = core.bad_stable(snk)
        if b:
            raise Violation("%s: %s" % (what, b))
        return ["integration2"] if len(items) > 1 else None

    return [Part("pipeline_fifo", case("lj92_pipeline_fifo"), fifo("lj92_pipeline_fifo"), 1500 if q else 20000),
            Part("converter_fifo", case("converter_fifo"), fifo("converter_fifo"), 1500 if q else 20000),
            Part("converter", case("converter"), conv, 2500 if q else 40000),
            Part("packer", case("vbits_to_cbits"), pack, 3000 if q else 50000),
            Part("integration2", icase(1200), integ, 600 if q else 10000)]
