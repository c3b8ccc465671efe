"""P08: the core's register bus."""
import numpy as np
from hypothesis import strategies as st

import bus
import cfgs
import core
import gen
import prods
from fw import Part, Violation

PROPERTY = "P08"
RULE = ("Case: histories of reads and writes with byte strobes on all five AXI-lite channels, each with its own timing, "
        "reads and writes at once, with frame resets and pixels arriving meanwhile, on register blocks of several bit "
        "depths; and whole frames on Beta and Micro with bus traffic during the frame. Oracle: a register memory in which "
        "a write takes effect between its acceptance and its response. Non-trivial: at least one write and one read.")
ASSUMPTIONS = ["only documented register addresses, and addresses with none of the three area bits set or table indices "
               "past the last entry for decode errors; other address aliases are not specified",
               "frame size and table are not changed while a frame runs"]


def parts(tier, seed):
    q = tier == "quick"
    import random
    r = random.Random("p08%s" % seed)
    bds = [16, 12, 2] + r.sample(range(3, 16), 3 if q else 13)
    cs = [dict(bd=b, ps=r.choice([1, 2, 4]), axi=True, debug=bool(i % 2)) for i, b in enumerate(bds)]
    names = ["beta", "micro"]
    ds = cfgs.build_all([("integration1", c) for c in cs])
    P = prods.build(names)
    D = prods.build(["beta"], {"beta": {"debug": True}})

    def ridx(c, reading):
        bd = c["bd"]
        l = [st.integers(0x400, 0x400 + 2 * bd + 1), st.integers(0x400, 0x400 + 2 * bd + 1), st.sampled_from([0x800, 0x801]),
             st.sampled_from([0x800, 0x801]), st.integers(0, 0x3FF), st.integers(0x402 + 2 * bd, 0x43F)]
        if not reading or not c["debug"]:
            l.append(st.integers(0x1000, 0x1007))
        return st.one_of(*l)

    def case(phase=bus.phase):
        def mk(i):
            c = cs[i]
            return st.fixed_dictionaries({
                "d": st.just(i), "params": st.just(c),
                "phases": st.lists(phase(ridx(c, True), ridx(c, False), 10), min_size=1, max_size=5),
                "reset": st.one_of(st.just([]), gen.bits_pattern()), "valid": gen.bits_pattern(),
                "en": st.lists(st.integers(0, 255), max_size=30)})
        return st.integers(0, len(cs) - 1).flatmap(mk)

    def case_l(maxn):
        def mk(i):
            return st.fixed_dictionaries({
                "d": st.just(i), "params": st.just(cs[i]), "phases": st.lists(bus.long_phase(maxn), min_size=1, max_size=2),
                "reset": st.one_of(st.just([]), gen.bits_pattern()), "valid": gen.bits_pattern(),
                "en": st.lists(st.integers(0, 255), max_size=30)})
        return st.integers(0, len(cs) - 1).flatmap(mk)

    def run(c):
        cfg = cs[c["d"]]
        bd = cfg["bd"]
        s = ds[c["d"]].new()
        s.reset()
        regs = bus.table_regs(bd, gen.table(None, bd), gen.entry)
        regs[0x800] = (0, 0xFFFFFFFF)
        regs[0x801] = (0, 0xFFFFFF)
        if cfg["debug"]:
            for i in range(8):
                regs[0x1000 + i] = (0, None)
        mem = bus.Memory(regs)
        en = [0] * 8
        what = "bit depth %d" % bd
        nr = nw = 0
        known = list(range(0x400, 0x402 + 2 * bd)) + [0x800, 0x801] * 4
        other = [0, 1, 0x3FF, 0x402 + 2 * bd, 0x43F]
        for ph in c["phases"]:
            ph = bus.expand_phase(ph, known + other, known + other + ([] if cfg["debug"] else [0x1000, 0x1007]))
            ch = bus.Channels(s, ph)
            srcs = list(ch.srcs)
            bits = gen.expand(c["reset"]) if c["reset"] else [0]
            n = 200
            ev = []
            if c["reset"]:
                srcs.append(s.source(["rst"], [(bits[k % len(bits)],) for k in range(n)] + [(0,)], junk=0))
            vb = gen.expand(c["valid"]) or [1]
            srcs.append(s.source(["i_valid"], [(vb[k % len(vb)],) for k in range(n)] + [(0,)], junk=0))
            if cfg["debug"]:
                e = [x for x in c["en"] for _ in range(3)]
                for x in e:
                    for k in range(8):
                        en[k] += x >> k & 1
                srcs.append(s.source(["i_debug_en"], [(x,) for x in e] + [(0,)], junk=0))
            s.run(srcs, ch.snks, max(n + 100, ch.budget()), stop_idle=450 + bus.pauses(ph), events=ev)
            ch.idle()
            mem.check(ch, what)
            nr += len(ph["reads"])
            nw += len(ph["writes"])
            s.eval()
            hw = mem.val[0x800]
            if (s.get("o_width"), s.get("o_height"), s.get("o_allowed")) != (hw >> 16, hw & 0xFFFF, mem.val[0x801]):
                raise Violation("%s: the core is given %dx%d, %d cycles; the registers are %#x, %#x" % (
                    what, s.get("o_width"), s.get("o_height"), s.get("o_allowed"), hw, mem.val[0x801]))
        # everything reads back
        idx = sorted(k for k in mem.val if k < 0x1000)
        back = core.axi_reads(s, idx)
        for k, (d, rp) in zip(idx, back):
            if (d, rp) != (mem.val[k], 0):
                raise Violation("%s: at the end register %#x reads %#x (response %d), expected %#x"
                                % (what, k, d, rp, mem.val[k]))
        if cfg["debug"]:
            back = core.axi_reads(s, list(range(0x1000, 0x1008)))
            if [x[0] for x in back] != en or any(x[1] for x in back):
                raise Violation("%s: debug counters read %r, expected %r" % (what, back, en))
        if nr and nw:
            return ["bd%d" % bd] + (["frame_resets"] if c["reset"] else []) + (["debug"] if cfg["debug"] else [])

    def case_f():
        def mk(n):
            p = P[n]
            c = dict(bd=12, debug=False)
            same = st.sampled_from([0x801])
            return st.fixed_dictionaries({
                "p": st.just(n), "frames": st.lists(st.fixed_dictionaries({
                    "wh": gen.geometry(p.step, 500), "img": gen.image_spec(), "cyc": st.integers(0x100000, 0xFFFFFF),
                    "v": gen.bits_pattern(), "r": gen.ready_pattern(),
                    "ph": bus.phase(ridx(c, True), st.one_of(same, st.integers(0, 0x3FF), st.integers(0x41A, 0x43F)), 12)}),
                    min_size=1, max_size=3)})
        return st.sampled_from(names).flatmap(mk)

    def run_f(c):
        p = P[c["p"]]
        s = p.fresh()
        regs = bus.table_regs(12, gen.table(None, 12), gen.entry)
        regs[0x800] = (0, 0xFFFFFFFF)
        regs[0x801] = (0, 0xFFFFFF)
        mem = bus.Memory(regs)
        t = gen.table(None, 12)
        for i, f in enumerate(c["frames"]):
            w, h = f["wh"]
            core.set_regs(s, w, h, f["cyc"])
            mem.val[0x800] = w << 16 | h
            mem.val[0x801] = f["cyc"]
            pix = gen.image(f["img"], w * h, w, 12)
            exp = p.expected(pix, w, t)
            items = p.items(pix)
            src = p.source(s, items, f["v"])
            snk = p.sink(s, len(exp) + 64, f["r"])
            # writes to the cycle budget during the frame: large values only
            f["ph"]["writes"] = [[a, d | 0x100000, 15] for a, d, b in f["ph"]["writes"]]
            ch = bus.Channels(s, f["ph"])
            s.run([src] + ch.srcs, [snk] + ch.snks, core.budget(len(items), len(exp), f["v"], f["r"]) + ch.budget(),
                  stop_idle=1500)
            p.quiet(s)
            ch.idle()
            what = "%s frame %d (%dx%d) with bus traffic" % (p.name, i, w, h)
            core.check_words(core.raw_records(snk), exp, what)
            mem.check(ch, what)
        ph = c["frames"][-1]["ph"]
        return [c["p"], "frames%d" % len(c["frames"])] if ph["reads"] or ph["writes"] else None

    def case_d():
        def mk(n):
            return st.fixed_dictionaries({"p": st.just(n), "wh": gen.geometry(P[n].step, 300), "img": gen.image_spec(),
                                          "v": gen.bits_pattern(), "r": gen.ready_pattern(), "n": st.integers(1, 2)})
        return mk("beta")

    def run_d(c):
        p = D[c["p"]]
        s = p.fresh()
        w, h = c["wh"]
        t = gen.table(None, 12)
        core.set_regs(s, w, h, 0xFFFFFF)
        pix = gen.image(c["img"], w * h, w, 12)
        for i in range(c["n"]):
            core.one_frame(p, s, w, h, pix, t, c["v"], c["r"], stable=False, what=p.name + " with debug counters")
        d = [x[0] for x in core.axi_reads(s, list(range(0x1000, 0x1008)))]
        sums = {d[k] + d[k + 1] for k in (0, 2, 4, 6)}
        if len(sums) != 1 or not sums.pop():
            raise Violation("%s: the debug counter pairs do not count the same cycles: %r" % (p.name, d))
        return [c["p"]]

    return [Part("register_histories", case(), run, 4000 if q else 60000),
            Part("register_histories_with_long_pauses", case(bus.slow_phase), run, 150 if q else 5000),
            Part("long_register_histories", case_l(5000 if q else 70000), run, 12 if q else 60, weight=2),
            Part("traffic_during_frames", case_f(), run_f, 800 if q else 15000, weight=2),
            Part("product_debug_counters", case_d(), run_d, 200 if q else 3000)]
