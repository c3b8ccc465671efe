"""P18: small units."""
import importlib.util
import os
import random

from hypothesis import strategies as st

import cfgs
import gen
import rtl
from fw import Part, Violation

PROPERTY = "P18"
RULE = ("Case: one small unit and a generated input history. Reverser: every width up to 70, random, walking and extreme values; "
        "delayer: delays 2 to 40 with any input history; debug counters: random enables, long histories; automatic reset: random "
        "handshakes; overrun unit: any limit (of those above 4000 most of the count passes with a constant input), any input history; register file: after "
        "resets at any time; constraint collector: histories of updates against a model. Non-trivial: more than three "
        "inputs of interest.")
ASSUMPTIONS = ["the limit of the overrun unit does not change while it counts",
               "the overrun unit may take up to eight cycles more than the limit to react"]


def parts(tier, seed):
    q = tier == "quick"
    r = random.Random("p18%s" % seed)
    widths = list(range(1, 71))
    rev = [(w, bool((w + seed) % 2)) for w in widths] if q else [(w, b) for w in widths for b in (True, False)]
    delays = sorted({2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33} | {r.randint(2, 70) for _ in range(4)})
    specs = [("reverser", dict(bits=w, sync=s)) for w, s in rev] + [("delayer", dict(stages=n)) for n in delays] + [
        ("debug_module", {}), ("register_file", {}), ("auto_reset", {}), ("force_end", {})]
    ds = cfgs.build_all(specs)
    revd, deld, (dbg, reg, ar, fe) = ds[:len(rev)], ds[len(rev):-4], ds[-4:]

    def reverse(c):
        w, sync = rev[c["i"]]
        d = revd[c["i"]]
        s = d.new()
        if sync:
            s.reset()
        X = [x & ((1 << w) - 1) for x in c["x"]] + [1 << k for k in range(w)] + [0, (1 << w) - 1]
        prev = None
        for x in X + [0]:
            s.cycle(i_data=x)
            g = s.get("o_data")
            y = prev if sync else x
            if y is not None:
                e = int(format(y, "0%db" % w)[::-1], 2)
                if g != e:
                    raise Violation("reverser of %d bits: %#x gives %#x, expected %#x" % (w, y, g, e))
            prev = x
            if sync:
                s.tick()
        return ["reverser_sync" if sync else "reverser"]

    def delay(c):
        n, d = delays[c["i"]], deld[c["i"]]
        s = d.new()
        s.reset()
        x = [0] * c["wait"] + (gen.expand(c["x"]) or [1])
        x = x[:400] + [0] * 100
        out = [o for o, in s.trace(["i_x"], [(v,) for v in x], ["o_x"])]
        t = x.index(1) if 1 in x else None
        exp = [int(t is not None and k >= t + n) for k in range(len(x))]
        if out != exp:
            k = next(i for i in range(len(x)) if out[i] != exp[i])
            raise Violation("delayer of %d cycles: the input came in cycle %s, the output is %d in cycle %d" % (n, t, out[k], k))
        return ["delayer"]

    def debug(c):
        s = dbg.new()
        s.reset()
        rr = random.Random(c["seed"])
        cnt = [0] * 8
        names = ["o_r%d" % i for i in range(8)]
        for _ in range(c["rounds"]):
            n = rr.randint(1, 200)
            p = [rr.choice([0, 0, 20, 50, 80, 100]) for _ in range(8)]
            rows = [(sum(1 << i for i in range(8) if rr.randrange(100) < p[i]),) for _ in range(n)]
            out = s.trace(["i_en"], rows, names)
            for (e,), o in zip(rows, out):
                if list(o) != cnt:
                    raise Violation("debug counters are %r, expected %r" % (list(o), cnt))
                cnt = [x + (e >> i & 1) for i, x in enumerate(cnt)]
            if c["reset"] and rr.randrange(4) == 0:
                s.set("i_en", 255)
                s.reset(1)
                cnt = [0] * 8
        return ["debug_counters"]

    def debug_long(c):
        """all enabled counters for a very long time"""
        s = dbg.new()
        s.reset()
        s.set("i_en", c["en"])
        n = c["n"]
        while n:
            n -= s.run([], [], min(n, 1 << 24))
        s.eval()
        g = [s.get("o_r%d" % i) for i in range(8)]
        e = [c["n"] % (1 << 32) if c["en"] >> i & 1 else 0 for i in range(8)]
        if g != e:
            raise Violation("debug counters are %r after %d cycles with enable %#x, expected %r" % (g, c["n"], c["en"], e))
        return ["debug_long"]

    def regs(c):
        s = reg.new()
        for k in c["resets"]:
            for x in s.resets():
                s.set(x, 0)
            for _ in range(k):
                s.eval()
                s.tick()
            s.reset(1 + k % 3)
        for _ in range(2):
            s.eval()
            s.tick()
        for _ in range(c["n"]):
            s.eval()
            g = (s.get("o_width"), s.get("o_height"), s.get("o_allowed"))
            if g != (4096, 3072, 6666000):
                raise Violation("register file shows %dx%d, %d cycles" % g)
            s.tick()
        return ["register_file"]

    def auto(c):
        s = ar.new()
        s.reset()
        rr = random.Random(c["seed"])
        p = [rr.choice([30, 60, 90, 100]) for _ in range(3)]
        rows = [tuple(int(rr.randrange(100) < x) for x in p) for _ in range(c["n"])] + [(0, 0, 0)] * 3
        out = [o for o, in s.trace(["i_hs1", "i_hs2", "i_end"], rows, ["o_rst"])]
        e = 0
        for k, row in enumerate(rows):
            if out[k] != e:
                raise Violation("automatic reset is %d in cycle %d, expected %d (handshakes and end of the cycle before: %r)" % (
                    out[k], k, e, rows[k - 1]))
            e = int(all(row) and not e)
        return ["auto_reset"] if c["n"] > 3 else None

    def force(c):
        s = fe.new()
        s.reset()
        al, wait = c["allowed"], c["wait"]
        s.set("i_allowed", al)
        n = wait + al + 60
        p = gen.expand(c["v"]) or [1]
        v = [0] * wait + [1]
        if al <= 4000:
            v = (v + p * (n // len(p) + 1))[:n]
            out = [o for o, in s.trace(["i_valid"], [(x,) for x in v], ["o_fend"])]
        else:                        # the middle of the count passes with a constant input
            v = (v + p * (1500 // len(p) + 1))[:wait + 1500]
            out = [o for o, in s.trace(["i_valid"], [(x,) for x in v], ["o_fend"])]
            k = n - 2500 - len(v)
            s.set("i_valid", al & 1)
            s.run([], [], k)
            s.eval()
            out += [s.get("o_fend")] * k
            rest = (p * (2500 // len(p) + 1))[:2500]
            out += [o for o, in s.trace(["i_valid"], [(x,) for x in rest], ["o_fend"])]
        if 1 not in out:
            raise Violation("overrun unit: no overrun %d cycles after the first input, %d were allowed" % (n - wait, al))
        t = out.index(1)
        if t - wait < al:
            raise Violation("overrun unit: overrun %d cycles after the first input, %d are allowed" % (t - wait, al))
        if t - wait > al + 8:
            raise Violation("overrun unit: overrun only %d cycles after the first input, %d are allowed" % (t - wait, al))
        if 0 in out[t:]:
            raise Violation("overrun unit: the overrun ended without a reset")
        s.set("i_valid", 0)
        s.reset(1)
        if any(o for o, in s.trace(["i_valid"], [(0,)] * (c["idle"]), ["o_fend"])):
            raise Violation("overrun unit: an overrun after the reset without any input")
        return ["overrun"] + (["large"] if al > 100000 else []) + (["high_bit"] if al >> 23 else [])

    # ---------------------------------------------------------------- constraint collector
    path = os.path.join(rtl.REPO, "migen_src", "constraints.py")

    def collector(c):
        spec = importlib.util.spec_from_file_location("vf_constraints", path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        a, other = mod.Constraints(), mod.Constraints()
        low = {"height": 1, "width": 1, "bit_depth": 2}
        high = {"height": 65535, "width": 65535, "bit_depth": 16}
        hist = {k: [] for k in ("height", "width", "bit_depth", "height_multiple", "width_multiple")}
        for k, v, comp in c["h"]:
            getattr(a, "update_" + k)(v, comp)
            hist[k].append((v, comp))
            for name in low:
                H = hist[name]
                lo = max([low[name]] + [x for x, _ in H])
                hi = min([high[name]] + [x for x, _ in H])
                for attr, val, dflt in (("_min", lo, low[name]), ("_max", hi, high[name])):
                    g = getattr(a, name + attr)
                    givers = {w for x, w in H if x == val} if val != dflt else {"Default"}
                    if g[1] != val or g[0] not in givers:
                        raise Violation("constraint collector: %s%s is %r after %r, expected %d from %r" % (
                            name, attr, g, H, val, sorted(givers)))
            for name in ("height_multiple", "width_multiple"):
                H = hist[name]
                val = max([1] + [x for x, _ in H])
                givers = {w for x, w in H if x == val} if val != 1 else {"Default"}
                g = getattr(a, name)
                if g[1] != val or g[0] not in givers:
                    raise Violation("constraint collector: %s is %r after %r, expected %d from %r" % (name, g, H, val, sorted(givers)))
        if other.height_min != ["Default", 1] or other.width_max != ["Default", 65535] or other.height_multiple != ["Default", 1]:
            raise Violation("constraint collector: two collectors share their state")
        return ["constraints"] if len(c["h"]) > 3 else None

    comp = st.sampled_from(["a", "b", "c", "d"])
    up = st.one_of(st.tuples(st.sampled_from(["height", "width"]), st.integers(1, 65535), comp),
                   st.tuples(st.sampled_from(["height", "width"]), st.integers(1, 8), comp),
                   st.tuples(st.just("bit_depth"), st.integers(2, 16), comp),
                   st.tuples(st.sampled_from(["height_multiple", "width_multiple"]), st.integers(1, 16), comp)).map(list)
    small = st.integers(0, 3000)
    # powers of two and their neighbours, one high bit and a small rest, anything
    big = st.one_of(st.integers(4001, 200000), st.integers(4001, (1 << 24) - 1),
                    st.tuples(st.integers(12, 23), st.integers(-3, 3000)).map(lambda x: max(4001, (1 << x[0]) + x[1])),
                    st.sampled_from([6666000, (1 << 24) - 1, (1 << 24) - 2, 0xAAAAAA, 0x555555]))
    fcase = dict(wait=st.integers(0, 60), v=gen.bits_pattern(), idle=st.integers(1, 300))
    long = [{"en": 0xFF, "n": (1 << 31) + 5}] if q else [{"en": 0xA5, "n": (1 << 32) - 1}, {"en": 0xFF, "n": (1 << 32) + 77}]
    return [Part("reverser", st.fixed_dictionaries({"i": st.integers(0, len(rev) - 1),
                                                    "x": st.lists(st.integers(0, 2 ** 70), max_size=20)}), reverse, 1000 if q else 10000),
            Part("delayer", st.fixed_dictionaries({"i": st.integers(0, len(delays) - 1), "x": gen.bits_pattern(),
                                                   "wait": st.integers(0, 100)}), delay, 2000 if q else 20000),
            Part("debug_counters", st.fixed_dictionaries({"seed": st.integers(0, 2 ** 32), "rounds": st.integers(1, 12),
                                                          "reset": st.booleans()}), debug, 500 if q else 8000),
            Part("register_file", st.fixed_dictionaries({"resets": st.lists(st.integers(0, 50), min_size=1, max_size=4),
                                                         "n": st.integers(1, 200)}), regs, 300 if q else 3000),
            Part("auto_reset", st.fixed_dictionaries({"seed": st.integers(0, 2 ** 32), "n": st.integers(1, 120)}), auto,
                 2000 if q else 20000),
            Part("overrun", st.fixed_dictionaries(dict(fcase, allowed=small)), force, 2500 if q else 30000),
            Part("overrun_large", st.fixed_dictionaries(dict(fcase, allowed=big)), force, 250 if q else 5000),
            Part("debug_long", long, debug_long, 0, weight=3),
            Part("constraints", st.fixed_dictionaries({"h": st.lists(up, max_size=30)}), collector, 2000 if q else 20000)]
