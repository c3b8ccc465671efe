"""P22: the C++ core driver against the real register block and core."""
import re

import numpy as np
from hypothesis import strategies as st

import cfgs
import core
import gen
import prods
import rtl
import sw
from fw import Part, Violation

PROPERTY = "P22"
RULE = ("Case: histories of driver calls (constructors, setters, getters) whose register accesses, caught one by one while "
        "the compiled driver runs, are carried out as AXI-lite transactions on the simulated register block of the core, "
        "mixed with table loads by another master, frame resets and debug events; and frames encoded by Beta and Micro "
        "with the settings the driver made. Oracle: after each call every register holds what was requested; getters "
        "return what the registers hold. Non-trivial: at least one setter and one getter.")
ASSUMPTIONS = ["a cycle budget is at most 24 bits (the register's width)",
               "one driver call at a time; size and table do not change while a frame runs"]


class Bus:
    """carries accesses to physical addresses out on the register block at `base`"""

    def __init__(self):
        self.sim, self.base, self.log = None, None, []

    def where(self, addr, size):
        off = addr - self.base
        if not 0 <= off < 0x10000 - 4 or size > 4 or (off & 3) + size > 4:
            raise Violation("the driver accesses %#x (%d bytes); the core is at %#x" % (addr, size, self.base))
        self.log.append(off)
        return off

    def read(self, addr, size):
        o = self.where(addr, size)
        d, r = core.axi_reads(self.sim, [o >> 2])[0]
        if r:
            raise Violation("the driver reads offset %#x, which the core refuses" % o)
        return (d >> 8 * (o & 3)) & ((1 << 8 * size) - 1)

    def write(self, addr, size, v):
        o = self.where(addr, size)
        sh = o & 3
        r = core.axi_writes(self.sim, [(o >> 2, (v << 8 * sh) & 0xFFFFFFFF, (((1 << size) - 1) << sh) & 15)])
        if r[0]:
            raise Violation("the driver writes offset %#x, which the core refuses" % o)

    def sleep(self, us):
        pass

    def mapped(self, base, n):
        pass


class Drv:
    """the driver process, started on first use in each worker"""

    def __init__(self, exe):
        self.exe, self.p, self.pid, self.n = exe, None, None, 0

    def get(self):
        import os
        if self.p is None or self.pid != os.getpid() or self.n > 150:
            if self.p is not None and self.pid == os.getpid():
                self.p.close()
            self.bus = Bus()
            self.p = sw.Proc(self.exe, self.bus)
            self.pid, self.n = os.getpid(), 0
        self.n += 1
        return self

    def drop(self):
        if self.p is not None:
            self.p.close()
        self.p = None

    def call(self, cmd):
        try:
            return self.p.call(cmd)
        except sw.Ended as e:
            self.drop()
            raise Violation("'%s' ended the program (%s): %s" % (cmd, e.rc, e.text[-200:]))
        except Violation:
            self.drop()
            raise


def ints(s):
    return [int(x) for x in re.findall(r"\d+", s)]


def check_ssss(ans, table, bd, what):
    l = ans.split("|")
    if len(l) != bd + 1:
        raise Violation("%s: get_ssss lists %d categories; bit depth %d has %d" % (what, len(l), bd, bd + 1))
    for i, x in enumerate(l):
        if ints(x) != [i, table[i][0], table[i][1]]:
            raise Violation("%s: get_ssss says '%s'; category %d has code %d of %d bits" % (
                what, x, i, table[i][0], table[i][1]))


LABELS = ["valid_in=0", "valid_in=1", "valid_out=0", "valid_out=1", "nready=1", "nready=0", "busy_in=1", "busy_in=0"]


def debug_values(ans, what):
    d = {}
    for x in ans.split("|"):
        m = re.match(r"\s*(\w+=\d)\s*:\s*(\d+)\s*$", x)
        if m:
            d[m.group(1)] = int(m.group(2))
    if sorted(d) != sorted(LABELS):
        raise Violation("%s: get_debug says %r" % (what, ans))
    return d


def parts(tier, seed):
    q = tier == "quick"
    import random
    r = random.Random("p22%s" % seed)
    exe = sw.build(rtl.workdir(), name="drv")
    drv = Drv(exe)
    bds = list(range(2, 17))
    cs = [dict(bd=b, ps=r.choice([1, 2, 4]), axi=True, debug=bool((b + seed) % 2) or b == 12) for b in bds]
    ds = cfgs.build_all([("integration1", c) for c in cs])
    names = ["beta", "micro"]
    P = prods.build(names)
    D = prods.build(["beta", "micro"], {"beta": {"debug": True}, "micro": {"debug": True}})
    u16 = st.one_of(st.integers(0, 0xFFFF), st.sampled_from([0, 1, 0xFFFF, 0x8000, 4096, 3072]))
    u24 = st.one_of(st.integers(0, 0xFFFFFF), st.sampled_from([0, 1, 0xFFFFFF, 0x800000, 0x10000]))
    base = st.one_of(st.sampled_from([0x83C00000, 0x40400000, 0, 0xFFFF0000, 0x7FFFF000]),
                     st.integers(0, 0xFFFEF).map(lambda x: x << 12))

    def op(bd):
        return st.one_of(
            st.tuples(st.just("set_width"), u16), st.tuples(st.just("set_height"), u16),
            st.tuples(st.just("set_allowed_cycles"), u24),
            st.tuples(st.sampled_from(["get_width", "get_height", "get_allowed_cycles", "get_ssss", "get_debug"])),
            st.tuples(st.just("new")), st.tuples(st.just("table"), gen.table_spec()),
            st.tuples(st.just("rst"), st.integers(1, 4)),
            st.tuples(st.just("en"), st.lists(st.integers(0, 255), min_size=1, max_size=20)),
            st.tuples(st.just("run"), st.integers(1, 30)))

    def case():
        return st.integers(0, len(cs) - 1).flatmap(lambda i: st.fixed_dictionaries({
            "d": st.just(i), "bd": st.just(cs[i]["bd"]), "base": base,
            "ops": st.lists(op(cs[i]["bd"]), min_size=3, max_size=14)}))

    def run(c):
        cfg = cs[c["d"]]
        bd = cfg["bd"]
        s = ds[c["d"]].new()
        s.reset()
        d = drv.get()
        d.bus.sim, d.bus.base = s, c["base"]
        d.call("core 1 %d %d" % (c["base"], bd))
        table = gen.table(None, bd)
        en = [0] * 8
        nset = nget = 0
        what = "bit depth %d" % bd
        hw, cyc = [x[0] for x in core.axi_reads(s, [0x800, 0x801])]
        w, h = hw >> 16, hw & 0xFFFF
        for o in c["ops"]:
            k = o[0]
            if k.startswith("set_"):
                d.call("%s 1 %d" % (k, o[1]))
                nset += 1
                if k == "set_width":
                    w = o[1]
                elif k == "set_height":
                    h = o[1]
                else:
                    cyc = o[1]
            elif k in ("get_width", "get_height", "get_allowed_cycles"):
                v = int(d.call(k + " 1"))
                e = {"get_width": w, "get_height": h, "get_allowed_cycles": cyc}[k]
                nget += 1
                if v != e:
                    raise Violation("%s: %s returns %d, the core holds %d" % (what, k, v, e))
            elif k == "get_ssss":
                check_ssss(d.call("get_ssss 1"), table, bd, what)
                nget += 1
            elif k == "get_debug":
                if cfg["debug"]:
                    v = debug_values(d.call("get_debug 1"), what)
                    nget += 1
                    for i, x in enumerate(LABELS):
                        if v[x] != en[i]:
                            raise Violation("%s: get_debug says %s : %d, the counter is %d" % (what, x, v[x], en[i]))
            elif k == "new":
                d.call("dropcore 1")
                d.call("core 1 %d %d" % (c["base"], bd))
            elif k == "table":
                table = gen.table(o[1], bd)
                core.set_regs(s, table=table, bd=bd)
            elif k == "rst":
                s.run([s.source(["rst"], [(1,)] * o[1] + [(0,)], junk=0)], [], o[1] + 2)
                s.set("rst", 0)
            elif k == "en":
                if cfg["debug"]:
                    s.run([s.source(["i_debug_en"], [(x,) for x in o[1]] + [(0,)], junk=0)], [], len(o[1]) + 4)
                    s.set("i_debug_en", 0)
                    for x in o[1]:
                        for i in range(8):
                            en[i] += x >> i & 1
            elif k == "run":
                for _ in range(o[1]):
                    s.eval()
                    s.tick()
            # everything the core holds
            regs = [0x800, 0x801] + list(range(0x400, 0x402 + 2 * bd))
            exp = [w << 16 | h, cyc]
            for i in range(bd + 1):
                e = gen.entry(i, table[i][0], table[i][1], bd)
                exp += [e & 0xFFFFFFFF, e >> 32]
            if k[:3] in ("set", "get", "new"):
                got = [x[0] for x in core.axi_reads(s, regs)]
                if got != exp:
                    i = [a == b for a, b in zip(got, exp)].index(False)
                    raise Violation("%s: after %s register %#x of the core holds %#x, expected %#x" % (
                        what, " ".join(map(str, o)), regs[i], got[i], exp[i]))
                s.eval()
                if (s.get("o_width"), s.get("o_height"), s.get("o_allowed")) != (w, h, cyc):
                    raise Violation("%s: after %s the core uses %dx%d, %d cycles" % (
                        what, " ".join(map(str, o)), s.get("o_width"), s.get("o_height"), s.get("o_allowed")))
        return ["bd%d" % bd] + sorted({o[0] for o in c["ops"]}) if nset and nget else None

    # ---------------------------------------------------------------------------------------------- whole frames
    def case_f():
        def mk(n):
            return st.fixed_dictionaries({
                "p": st.just(n), "base": base, "frames": st.lists(st.fixed_dictionaries({
                    "wh": gen.geometry(P[n].step, 400), "cyc": st.integers(0x100000, 0xFFFFFF), "img": gen.image_spec(),
                    "table": st.one_of(st.none(), gen.table_spec()), "order": st.permutations([0, 1, 2]),
                    "keep": st.booleans(), "v": gen.bits_pattern(), "r": gen.ready_pattern()}), min_size=1, max_size=3)})
        return st.sampled_from(names).flatmap(mk)

    def run_f(c):
        p = P[c["p"]]
        s = p.fresh()
        d = drv.get()
        d.bus.sim, d.bus.base = s, c["base"]
        d.call("core 1 %d 12" % c["base"])
        w = h = cyc = None
        t = gen.table(None, 12)
        for i, f in enumerate(c["frames"]):
            new = (f["wh"][0], f["wh"][1], f["cyc"])
            for k in f["order"]:
                # settings persist: what does not change need not be set again
                if f["keep"] and (w, h, cyc)[k] == new[k]:
                    continue
                d.call("%s 1 %d" % (("set_width", "set_height", "set_allowed_cycles")[k], new[k]))
            w, h, cyc = new
            if f["table"] is not None:
                t = gen.table(f["table"], 12)
                core.set_regs(s, table=t, bd=12)
            what = "%s frame %d set up by the driver" % (p.name, i)
            check_ssss(d.call("get_ssss 1"), t, 12, what)
            pix = gen.image(f["img"], w * h, w, 12)
            core.one_frame(p, s, w, h, pix, t, f["v"], f["r"], stable=False,
                           what=what)
        return [c["p"], "frames%d" % len(c["frames"])]

    # ---------------------------------------------------------------------------------------------- what the counters count
    def case_d():
        return st.fixed_dictionaries({"p": st.sampled_from(["beta", "micro"]), "base": base, "seed": st.integers(0, 1 << 30),
                                      "pv": st.integers(5, 100), "pb": st.integers(0, 100), "n": st.integers(20, 900),
                                      "lead": st.integers(0, 20)})

    def run_d(c):
        p = D[c["p"]]
        s = p.fresh()
        core.set_regs(s, 128, 128, 0xFFFFFF)
        rs = np.random.RandomState(c["seed"])
        n = c["n"]
        pn = ["i_pixel%d" % i for i in range(p.ps)]
        rows = np.zeros((c["lead"] + n, 2 + p.ps), np.uint64)
        rows[c["lead"]:, 0] = rs.randint(0, 100, n) < c["pv"]
        rows[:, 1] = rs.randint(0, 100, len(rows)) < c["pb"]
        rows[:, 2:] = rs.randint(0, 4096, (len(rows), p.ps))
        o = s.trace_np(["i_valid", "i_busy"] + pn, rows, ["o_nready", "o_valid"])
        p.quiet(s)                                               # valid_in = 0, busy_in = 1 from here
        for _ in range(8):
            s.eval()
            s.tick()
        if not rows[:, 0].any():
            return None
        k = int(np.nonzero(rows[:, 0])[0][0])
        v, b, nr, vo = rows[k:, 0], rows[k:, 1], o[k:, 0], o[k:, 1]
        d = drv.get()
        d.bus.sim, d.bus.base = s, c["base"]
        d.call("core 1 %d 12" % c["base"])
        g = debug_values(d.call("get_debug 1"), p.name)
        # these only count while the inputs were driven; the others go on counting during the reads
        exact = {"valid_in=1": int(v.sum()), "busy_in=0": int((b == 0).sum())}
        least = {"valid_in=0": int((v == 0).sum()), "busy_in=1": int(b.sum()), "nready=1": int(nr.sum()),
                 "nready=0": int((nr == 0).sum()), "valid_out=1": int(vo.sum()), "valid_out=0": int((vo == 0).sum())}
        for x, e in exact.items():
            if abs(g[x] - e) > 4:
                raise Violation("%s: %s is reported as %d, it was so for %d cycles" % (p.name, x, g[x], e))
        for x, e in least.items():
            if g[x] < e - 4:
                raise Violation("%s: %s is reported as %d, it was so for %d cycles or more" % (p.name, x, g[x], e))
        # the reads come one after the other while the core stands still: of each pair at least one stopped counting
        for x, y, t in (("nready=1", "nready=0", nr), ("valid_out=1", "valid_out=0", vo)):
            if min(abs(g[x] - least[x]), abs(g[y] - least[y])) > 60:
                raise Violation("%s: %s %d and %s %d; before the reads they were %d and %d" % (
                    p.name, x, g[x], y, g[y], least[x], least[y]))
        return [c["p"]]

    # ---------------------------------------------------------------------------------------------- constructor
    def run_c(c):
        d = drv.get()
        d.bus.sim, d.bus.base = None, c["base"]
        try:
            d.p.call("core 1 %d %d" % (c["base"], c["bd"]))
            ok = True
        except sw.Ended as e:
            ok = False
            d.drop()
            if e.rc < 0:
                raise Violation("the constructor crashes for bit depth %d (signal %d)" % (c["bd"], -e.rc))
        if ok != (2 <= c["bd"] <= 16):
            raise Violation("a driver for bit depth %d is %s" % (c["bd"], "accepted" if ok else "refused"))
        return ["accepted" if ok else "refused"]
    ctor = [{"base": 0x83C00000, "bd": b} for b in list(range(0, 20)) + [31, 32, 64, 127, 128, 200, 255]]

    return [Part("driver_histories", case(), run, 2000 if q else 30000),
            Part("driver_frames", case_f(), run_f, 500 if q else 10000, weight=1.5),
            Part("debug_counters", case_d(), run_d, 400 if q else 6000),
            Part("constructor", ctor, run_c, len(ctor), shards=2)]
