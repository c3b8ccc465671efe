"""P28: a reset at any moment leaves nothing of the past behind but the Huffman table."""
import random

import numpy as np
from hypothesis import strategies as st

import cfgs
import core
import fw
import gen
import p26
import prods
from fw import Part, Violation

PROPERTY = "P28"
RULE = ("Case: one to three times: registers and table are set, some pixels, frames, a forced end or register accesses are "
        "stopped after a random number of cycles, the reset is raised for one to four cycles (inputs idle, held or random); then: no output, "
        "all registers at their power-on values, the table kept, and a frame (own size, table, content, timing, or "
        "pixels without any register access) comes out exactly, in the very same cycles as from a device fresh "
        "from power-on that was given the same table. The full AXI product: the same with a memory. Non-trivial: something "
        "was accepted before the reset.")
ASSUMPTIONS = ["all resets of a module are raised together; for the core alone also its own reset, which keeps the registers"]

NREG = 0x800, 0x801


def parts(tier, seed):
    q = tier == "quick"
    names = ["beta", "micro", "beta_axistream", "micro_axistream", "beta_fifo_axistream", "beta_fifo_lvds",
             "integration_3_axi_stream"]
    P = prods.build(names)
    cs = cfgs.core_configs("p28%s" % seed, 10 if q else 40)
    for i, (c, d) in enumerate(zip(cs, cfgs.build_all([("integration3", c) for c in cs]))):
        p = core.Product(d, c["bd"], c["ps"], c["out_bits"], "plain", False)
        p.name = "core%d" % i
        p.step = p.ps
        P[p.name] = p
    full, shipped = cfgs.build_all([("fullaxi", {"axi": True}), ("fullaxi", {})])
    core.ref()
    dbg = ["beta_debug", "micro_debug"]
    for n, d in zip(dbg, cfgs.build_all([(n[:-6], {"debug": True}) for n in dbg])):
        p = P[n] = core.Product(d, *prods.TABLE[n[:-6]])
        p.name = n
        p.step = p.ps
    keys = names * 3 + sorted(set(P) - set(names))
    power = {}

    def power_on(p):
        if p.name not in power:
            s = p.design.new()
            s.init()
            r = core.axi_reads(s, [core.REG_HW, core.REG_CYC])
            power[p.name] = [x[0] for x in r]
            if any(x[1] for x in r):
                raise Violation("%s: the registers cannot be read" % p.name)
        return power[p.name]

    def pulse(s, lines, n, how, seed):
        """the reset, n cycles; the other inputs: idle, as they are, or random"""
        r = random.Random(seed)
        ins = [k for k in s.d.inputs if k.startswith("i_")]
        if "full_rst" in s.resets() and "full_rst" not in lines:        # the register bus goes on
            ins = [k for k in ins if k.startswith("i_pixel") or k in ("i_valid", "i_busy")]
        for _ in range(n):
            for k in ins:
                if how == "idle":
                    s.set(k, 0)
                elif how == "junk":
                    s.set(k, r.getrandbits(s.d.inputs[k][1]))
            for k in lines:
                s.set(k, 1)
            s.eval()
            s.tick()
        for k in lines:
            s.set(k, 0)
        for k in ins:
            s.set(k, 0)

    def access(s, acc):
        """register accesses that are not finished"""
        if acc is None:
            return
        idx, val, n, rd = acc
        src, snk = [], []
        src.append(s.source(["i_aw_addr"], [(i << 2,) for i in idx], valid="i_aw_valid", ready="o_aw_ready"))
        src.append(s.source(["i_w_data", "i_w_strb"], [(val, 15)] * len(idx), valid="i_w_valid", ready="o_w_ready"))
        if n % 3:
            snk.append(s.sink(["o_b_resp"], len(idx), valid="o_b_valid", ready="i_b_ready"))
        if rd:
            src.append(s.source(["i_ar_addr"], [(i << 2,) for i in idx], valid="i_ar_valid", ready="o_ar_ready"))
            if n % 2:
                snk.append(s.sink(["o_r_data"], len(idx), valid="o_r_valid", ready="i_r_ready"))
        s.run(src, snk, n)

    def dirty(p, s, c, t):
        """returns the table afterwards and whether anything was accepted"""
        if c["table"] is not None:
            t = gen.table(c["table"], p.bd)
            core.set_regs(s, table=t, bd=p.bd)
        w, h = c["wh"]
        if c["regs"]:
            core.set_regs(s, w, h, c["limit"] if c["limit"] is not None else 0xFFFFFF)
        n, done = c["n"], False
        pix = gen.image(c["img"], w * h, w, p.bd)
        its = p.items(pix, 0xA5)
        src = p.source(s, its, c["v"], c["hold"] if p.io == "plain" else 1)
        snk = p.sink(s, 4 * len(pix) * 4 + 400, c["r"])
        s.run([src], [snk], n)
        if src.pos:
            done = True
        access(s, c["acc"])
        return t, done, any(core.REG_TAB <= i < 0x800 for i in (c["acc"] or [[]])[0])

    def frame(p, s, c, t):
        """the frame after the reset: (records, cycles)"""
        if c["default"]:                          # with the registers as they are: compared with power-on only
            w, h = 40, 10
            n = c["default"] // (2 * p.step) * 2 * p.step
        else:
            w, h = c["wh"]
            n = w * h
            core.set_regs(s, w, h, c["limit"] if c["limit"] is not None else 0xFFFFFF)
        pix = gen.image(c["img"], n, w, p.bd)
        exp = p.expected(pix, w, t)
        its = p.items(pix, 0x5A)
        src = p.source(s, its, c["v"], c["hold"] if p.io == "plain" else 1)
        snk = p.sink(s, len(exp) + 64, c["r"])
        bud = core.budget(len(its), len(exp), c["v"], c["r"])
        s.run([src], [snk], bud + (c["limit"] or 0), stop_lasts=1, stop_idle=1500, extra=20 if p.marked else 0)
        p.quiet(s)
        g = core.raw_records(snk)
        m = len(g)
        cyc = np.frombuffer(snk._k2, np.uint64, count=len(exp) + 64)[:m]
        if c["limit"] is None and not c["default"] and "lvds" not in p.name:
            try:
                core.check_words(g, exp, "frame %dx%d" % (w, h), plain=not p.marked)
            except Violation as v:
                return g, cyc, str(v)
        return g, cyc, None

    def settle(p, s, n, what):
        snk = p.sink(s, 4, [])
        s.run([], [snk], n)
        p.quiet(s)
        if snk.n:
            raise Violation("%s: a word comes out before the next frame" % what)

    def lines(s, c):
        return s.resets() if not c["core_only"] else [x for x in s.resets() if not x.startswith("full")]

    def run(c):
        p = P[c["p"]]
        pw = power_on(p)
        s = p.design.new()
        if c["start_reset"]:
            s.reset()
        default = gen.table(None, p.bd)
        t = default
        some = 0
        L = {p.name.rstrip("0123456789") if p.name.startswith("core") else p.name}
        for d in c["rounds"]:
            if d["core_only"]:
                d = dict(d, before=dict(d["before"], acc=None)) if p.name.startswith("core") else dict(d, core_only=0)
            t, done, broken = dirty(p, s, d["before"], t)
            some += done
            pulse(s, lines(s, d), d["cycles"], d["how"], d["seed"])
            what = "%s: after a reset" % p.name
            if d["core_only"]:
                L.add("core_reset")
                f = p.design.new()
                f.init()
                r = core.axi_reads(s, list(NREG))
                w, h = d["before"]["wh"]
                if d["before"]["regs"] and [x[0] for x in r] != [w << 16 | h, 0xFFFFFF]:
                    raise Violation("%s of the core alone the registers read %r" % (what, r))
                if d["after"]["default"]:
                    continue
            else:
                f = p.design.new()
                if t != default:
                    core.set_regs(f, table=t, bd=p.bd)
                    f.reset(1 + d["fresh_reset"])
                elif d["fresh_reset"]:
                    f.reset(d["fresh_reset"])
            settle(p, s, d["idle"], what)
            settle(p, f, d["idle"], what)
            if d["read"] and not d["core_only"]:
                idx = list(NREG) + [core.REG_TAB + i for i in range(2 * p.bd + 2)]
                r = core.axi_reads(s, idx)
                core.axi_reads(f, idx)
                exp = list(pw)
                for i, (a, b) in enumerate(t):
                    e = gen.entry(i, a, b, p.bd)
                    exp += [e & 0xFFFFFFFF, e >> 32]
                for i, (a, b) in enumerate(zip(r, exp)):
                    if broken and i >= 2:
                        break
                    if a[0] != b or a[1]:
                        raise Violation("%s register %#x reads %#x (response %d), not %#x" % (what, idx[i], a[0], a[1], b))
            if broken or d["after"]["table"] is not None:
                t = gen.table(d["after"]["table"], p.bd)
                core.set_regs(s, table=t, bd=p.bd)
                core.set_regs(f, table=t, bd=p.bd)
            elif d["core_only"] and t != default:
                core.set_regs(f, table=t, bd=p.bd)
            g, cy, bad = frame(p, s, d["after"], t)
            g2, cy2, bad2 = frame(p, f, d["after"], t)
            if bad and not bad2:
                raise Violation("%s: %s" % (what, bad))
            if bad2:
                raise Violation("%s from power-on: %s" % (p.name, bad2))
            if g.shape != g2.shape or (g != g2).any():
                raise Violation("%s the output differs from that after power-on (%d and %d words)" % (what, len(g), len(g2)))
            if len(cy) and (cy - cy[0] != cy2 - cy2[0]).any() or len(cy) and not d["core_only"] and cy[0] != cy2[0]:
                k = int(np.nonzero(cy - cy[0] != cy2 - cy2[0])[0][:1].sum())
                raise Violation("%s word %d comes in cycle %d, after power-on in cycle %d" % (what, k, cy[k], cy2[k]))
            if "debug" in p.name:
                r, r2 = [core.axi_reads(x, [0x1000 + i for i in range(8)]) for x in (s, f)]
                if r != r2:
                    raise Violation("%s the debug registers read %r, after power-on %r" % (what, r, r2))
            L.add("default" if d["after"]["default"] else "limit" if d["after"]["limit"] is not None else "frame")
            L.add(d["how"])
            if d["before"]["acc"] is not None:
                L.add("in_an_access")
        return L if some else None

    def image_part(p, maxpix):
        return {"wh": gen.geometry(p.step, maxpix), "img": gen.image_spec(), "v": gen.bits_pattern(), "r": gen.ready_pattern(),
                "table": st.one_of(st.none(), st.builds(lambda s, k: [s, k], st.integers(0, 2 ** 32), st.integers(0, 2))),
                "hold": st.integers(0, 1)}

    def mk(n, maxpix, rounds):
        p = P[n]
        lim = st.one_of(st.none(), st.none(), st.integers(0, 300)) if p.marked else st.none()
        acc = st.one_of(st.none(), st.tuples(
            st.lists(st.sampled_from([0x800, 0x801, 0x400, 0x401, 0x400 + 2 * p.bd, 0x1000, 0x802]), min_size=1, max_size=4),
            st.integers(0, 2 ** 32 - 1), st.integers(0, 24), st.integers(0, 1)))
        before = st.fixed_dictionaries(dict(image_part(p, maxpix), regs=st.sampled_from([1, 1, 1, 0]), limit=lim, acc=acc,
                                            n=st.one_of(st.integers(0, 80), st.integers(0, 3 * maxpix))))
        after = st.fixed_dictionaries(dict(image_part(p, maxpix), limit=lim, default=st.sampled_from(
            [0, 0, 0, 0, 48, 400])))
        rnd = st.fixed_dictionaries({
            "before": before, "after": after, "cycles": st.sampled_from([1, 1, 2, 4]), "seed": st.integers(0, 2 ** 31),
            "how": st.sampled_from(["idle", "held", "junk"]), "idle": st.sampled_from([0, 0, 1, 40]), "read": st.integers(0, 1),
            "core_only": st.sampled_from([0, 0, 1]), "fresh_reset": st.integers(0, 2)})
        return st.fixed_dictionaries({"p": st.just(n), "rounds": st.lists(rnd, min_size=1, max_size=rounds),
                                      "start_reset": st.integers(0, 1)})

    def case(maxpix, rounds):
        return st.sampled_from(keys).flatmap(lambda n: mk(n, maxpix, rounds))

    # ---------------------------------------------------------------------------------------- memory to memory
    def run_full(c):
        s = full.new()
        n = 0
        t = gen.table(None, 12)
        for d in c["rounds"]:
            b = d["before"]
            w, h = b["wh"]
            if b["table"] is not None:
                t = gen.table(b["table"], 12)
            core.set_regs(s, w, h, 0xFFFFFF, t if b["table"] is not None else None, 12)
            pix = np.asarray(gen.image(b["img"], w * h, w, 12))
            a = mem(s, b, pix, len(pix) * 4)
            p26.bus(s, [], [(0x400, b["raddr"]), (0x401, b["waddr"])] + ([(0x402, p26.START)] if b["go"] else []), a)
            s.run([], [], b["n"], axi=a)
            n += a.nar
            if b["part"]:
                ar = s.source(["i_daw_addr"], [(0x402 << 2,)] * 3, valid="i_daw_valid", ready="o_daw_ready")
                wd = s.source(["i_dw_data", "i_dw_strb"], [(p26.START, 15)] * 3, valid="i_dw_valid", ready="o_dw_ready")
                s.run([ar, wd], [], b["part"], axi=a)
            pulse(s, s.resets(), d["cycles"], d["how"], d["seed"])
            what = "fullaxi: after a reset"
            f = full.new()
            if d["fresh_reset"]:
                f.reset(d["fresh_reset"])
            if t != gen.table(None, 12):
                core.set_regs(f, table=t, bd=12)
            got = [after(x, d["after"], t) for x in (s, f)]
            if got[0][0] and not got[1][0]:
                raise Violation("%s: %s" % (what, got[0][0]))
            if got[1][0]:
                raise Violation("fullaxi from power-on: %s" % got[1][0])
            if got[0][1:2] != got[1][1:2]:
                raise Violation("%s the registers read %r, after power-on %r" % (what, got[0][1], got[1][1]))
            for x, y, k in zip(got[0][3], got[1][3], ("read addresses", "write addresses", "written words")):
                if x.shape != y.shape or (x != y).any():
                    raise Violation("%s the %s are not those after power-on: %d and %d, %d and %d cycles, %r" % (
                        what, k, len(x), len(y), got[0][2], got[1][2], [(hex(a), hex(b)) for a, b in zip(x, y) if a != b][:2]))
            if got[0][2] != got[1][2]:
                raise Violation("%s the frame takes %d cycles, after power-on %d" % (what, got[0][2], got[1][2]))
            s.set("i_arready", 0)
        return ["fullaxi"] if n else None

    def run_shipped(c):
        """as shipped, without a register bus of the core: the first rows of a default frame"""
        s, f = shipped.new(), shipped.new()
        pix = [np.asarray(core.photo(c["seed"] + i, 4096, 16)) for i in range(2)]
        b, d = c["before"], c["after"]
        a = mem(s, b, pix[0], 4 * len(pix[0]))
        p26.bus(s, [], [(0x400, b["raddr"]), (0x401, b["waddr"]), (0x402, p26.START)], a)
        s.run([], [], c["n"], axi=a)
        n = a.nar
        pulse(s, s.resets(), c["cycles"], c["how"], c["seed"])
        exp = core.marked_words(pix[1], 4096, 12, gen.table(None, 12))[:-10]
        out = []
        for x in (s, f):
            a = mem(x, d, pix[1], 4 * len(pix[1]))
            r = p26.bus(x, list(range(0x400, 0x408)), [], a)
            p26.bus(x, [], [(0x400, d["raddr"]), (0x401, d["waddr"]), (0x402, p26.START)], a)
            x.run([], [], c["m"], axi=a)
            k = p26.judge(a, d["raddr"], d["waddr"], exp, "shipped fullaxi after a reset" if x is s else "shipped fullaxi")
            out.append([r, k] + [y.tolist() for y in a.captured()])
        if out[0] != out[1]:
            raise Violation("shipped fullaxi: registers or transfers after a reset differ from those after power-on: %r %r" % (
                [y if i == 0 else len(y) if i > 1 else y for i, y in enumerate(out[0])], [y if i == 0 else len(y) if i > 1 else y for i, y in enumerate(out[1])]))
        return ["shipped"] if n and out[0][1] else None

    def mem(s, f, pix, cap):
        e = [gen.expand(f[x]) for x in ("ar", "rr", "aw", "wr", "b")]
        m = p26.memory_image(pix, f["seed"], 2000)
        return s.memory(m, f["raddr"], len(m) // 16 + 400, cap // 64 + 200, e, f["lat"], f["lat"], f["lim"],
                        end=("o_fvalid", "o_fend", "o_fbusy"))

    def after(s, f, t):
        w, h = f["wh"]
        pix = np.asarray(gen.image(f["img"], w * h, w, 12))
        exp = core.marked_words(pix, w, 12, t)
        a = mem(s, f, pix, len(exp) + 4000)
        s.run([], [], f["idle"], axi=a)
        regs = p26.bus(s, list(range(0x400, 0x408)), [], a)
        core.set_regs(s, w, h, 0xFFFFFF)
        if f["addr"]:
            p26.bus(s, [], [(0x400, f["raddr"]), (0x401, f["waddr"])], a)
        if a.nar or a.naw or a.par or a.paw or a.pw or a.bad:
            return ("the memory is accessed before the start", regs, 0, ())
        ra, wa = (f["raddr"], f["waddr"])
        if not f["addr"]:
            ra, wa = regs[0], regs[1]
            a = mem(s, dict(f, raddr=ra), pix, len(exp) + 4000)
        p26.bus(s, [], [(0x402, p26.START)], a)
        dens = min(gen.density(f[x]) for x in ("ar", "rr", "aw", "wr", "b"))
        bud = int((w * h + 20 * len(exp)) * (6 + 4 / dens)) + 2 * f["lat"] * (w * h // 64 + len(exp) // 64 + 20) + 30000
        n = s.run([], [], bud, stop_idle=6000, extra=700, axi=a)
        bad = None
        try:
            k = p26.judge(a, ra, wa, exp, "frame %dx%d" % (w, h))
            if not a.ends and n < bud:
                bad = "frame %dx%d stops after %d words" % (w, h, k)
        except Violation as v:
            bad = str(v)
        return bad, regs, n, [x.copy() for x in a.captured()]

    def side(maxpix):
        return {"wh": gen.geometry(2, maxpix), "img": gen.image_spec(), "seed": st.integers(0, 2 ** 31),
                "raddr": st.integers(0, 2 ** 25 - 1).map(lambda x: x << 7), "waddr": st.integers(0, 2 ** 25 - 1).map(lambda x: x << 7),
                "ar": gen.ready_pattern(), "rr": gen.bits_pattern(), "aw": gen.ready_pattern(), "wr": gen.ready_pattern(),
                "b": gen.bits_pattern(), "lat": st.sampled_from([0, 0, 3, 30]), "lim": st.sampled_from([1, 2, 8, 15]),
                "table": gen.table_spec()}

    def case_full(maxpix):
        return st.fixed_dictionaries({"rounds": st.lists(st.fixed_dictionaries({
            "before": st.fixed_dictionaries(dict(side(maxpix), go=st.sampled_from([1, 1, 1, 0]), part=st.sampled_from([0, 0, 1, 2, 3, 5, 9]),
                                                 n=st.one_of(st.integers(0, 200), st.integers(0, 5 * maxpix)))),
            "after": st.fixed_dictionaries(dict(side(maxpix), addr=st.sampled_from([1, 1, 0]), idle=st.integers(0, 60))),
            "cycles": st.sampled_from([1, 1, 2, 4]), "how": st.sampled_from(["idle", "held", "junk"]), "seed": st.integers(0, 2 ** 31),
            "fresh_reset": st.integers(0, 2)}), min_size=1, max_size=2)})

    # ---------------------------------------------------------------------------------------- modules alone
    UN = [("predictor", dict(bd=12, ps=2)), ("predictor", dict(bd=16, ps=1)), ("predictor", dict(bd=12, ps=4)),
          ("difference", dict(bd=12, ps=2)), ("normalize", dict(bd=14, ps=1)), ("encode", dict(bd=12, ps=2)),
          ("merge", dict(bd=12, ps=4)), ("signals", dict(ps=2)), ("lj92_pipeline_fifo", dict(bd=12, ps=2, depth=64, lat=3)),
          ("converter_fifo", dict(bd=12, ps=2, conv=28, depth=64, lat=2)), ("converter", dict(bd=12, ps=2, conv=28)),
          ("vbits_to_cbits", dict(conv=31, out_bits=16, buf=110)), ("fix_0xff", {}), ("fix_0xff2", {}), ("fix_both", {}),
          ("markers", {}), ("packed_fix", dict(conv=31, buf=110)), ("b16_b64", {}), ("b16_b40", {}), ("b64_b32", {}),
          ("b64_b32_2", {}), ("writer_chain", {}), ("reader_chain", {}), ("axihp_fifo", {}), ("address_generator", dict(shift=128)),
          ("delayer", dict(stages=8)), ("debug_module", {}), ("force_end", {}), ("reverser", dict(bits=16, sync=True)),
          ("dma_axi_lite", {}), ("bridged_dma", {}), ("axi_lite", {})]
    units = cfgs.build_all(UN)
    GATE = {}                                   # design -> [(valid, data ports)]: the data means something with its valid
    for i, d in enumerate(units):
        o = [x for x in d.outputs if x.startswith("o_")]
        g = [("o_valid", [x for x in o if x[2:] in ("data", "enc", "ctr", "end", "addr", "row", "ssss")
                          or x[2:-1] in ("pixel", "predic", "val", "mns", "ssss", "enc", "ctr")])]
        for v in ("aw", "w", "ar", "r", "b"):
            g.append(("o_%svalid" % v, ["o_" + v + x for x in ("id", "addr", "burst", "len", "size", "data", "strb", "last", "resp")]))
            g.append(("o_%s_valid" % v, ["o_" + v + "_" + x for x in ("id", "addr", "len", "data", "strb", "last", "resp", "prot")]))
        GATE[i] = [(o.index(v), [o.index(x) for x in l if x in o]) for v, l in g if v in o]

    def run_u(c):
        d = units[c["d"]]
        name, par = UN[c["d"]]
        ins = [k for k in d.inputs if k.startswith("i_")]
        outs = [k for k in d.outputs if k.startswith("o_")]
        s, f = d.new(), d.new()
        f.reset()

        def rows(n, seed):
            r = random.Random(seed)
            prob = [r.choice([100, 100, 70, 40, 10, 3]) for _ in ins]
            keep = [r.choice([0, 0, 0, 60, 95]) for _ in ins]
            cur = [0] * len(ins)
            out = []
            for _ in range(n):
                for j, k in enumerate(ins):
                    w = d.inputs[k][1]
                    if w > 1 and keep[j] and r.randrange(100) < keep[j]:
                        continue
                    cur[j] = int(r.randrange(100) < prob[j]) if w == 1 else r.choice([r.getrandbits(w), r.getrandbits(w), (1 << w) - 1, r.randrange(min(1 << w, 40))])
                out.append(tuple(cur))
            return out
        for x in c["rounds"]:
            s.trace(ins, rows(x["n"], x["seed"]), outs)
            pulse(s, s.resets(), x["cycles"], x["how"], x["seed"])
        R = rows(c["m"], c["seed"])
        a, b = s.trace(ins, R, outs), f.trace(ins, R, outs)
        for k, (x, y) in enumerate(zip(a, b)):
            if x == y:
                continue
            bad = set(j for j in range(len(outs)) if x[j] != y[j])
            for v, l in GATE[c["d"]]:
                if not x[v] and not y[v]:
                    bad -= set(l)
            if bad:
                j = min(bad)
                raise Violation("%s %r alone: in cycle %d after a reset %s is %#x, after power-on %#x" % (
                    name, par, k, outs[j], x[j], y[j]))
        return [name] if any(x["n"] for x in c["rounds"]) and any(any(x) for x in a) else None

    case_u = st.fixed_dictionaries({
        "d": st.integers(0, len(UN) - 1), "m": st.integers(1, 300), "seed": st.integers(0, 2 ** 31),
        "rounds": st.lists(st.fixed_dictionaries({
            "n": st.one_of(st.integers(0, 40), st.integers(0, 400)), "seed": st.integers(0, 2 ** 31), "cycles": st.sampled_from([1, 1, 2, 4]),
            "how": st.sampled_from(["idle", "held", "junk"])}), min_size=1, max_size=2)})

    return [Part("units", case_u, run_u, 6000 if q else 60000), Part("rounds", case(300, 3), run, 1600 if q else 40000),
            Part("large", case(20000, 1), run, 200 if q else 4000, weight=2),
            Part("as_shipped", st.fixed_dictionaries({
                "before": st.fixed_dictionaries(side(1000)), "after": st.fixed_dictionaries(side(1000)), "n": st.integers(0, 20000),
                "m": st.sampled_from([3000, 24000]), "cycles": st.sampled_from([1, 2, 4]), "seed": st.integers(0, 2 ** 31),
                "how": st.sampled_from(["idle", "held", "junk"])}), run_shipped, 60 if q else 1500),
            Part("memory_to_memory", case_full(1500), run_full, 500 if q else 10000, weight=2)]
