"""Histories of frames, register accesses, forced ends and idle time on a product with markers."""
import numpy as np
from hypothesis import strategies as st

import core
import gen
from fw import Violation

SLACK = 8


def frame_op(p, maxpix):
    return st.fixed_dictionaries({"op": st.just("frame"), "img": gen.image_spec(), "v": gen.bits_pattern(),
                                  "r": gen.ready_pattern(), "hold": st.integers(0, 1)})


def size_op(p, maxpix):
    return st.fixed_dictionaries({"op": st.just("size"), "wh": gen.geometry(p.step, maxpix)})


def table_op():
    return st.fixed_dictionaries({"op": st.just("table"), "spec": gen.table_spec().map(lambda x: x or [0, 1])})


def idle_op():
    return st.fixed_dictionaries({"op": st.just("idle"), "n": st.integers(0, 60)})


def read_op():
    return st.just({"op": "read"})


def forced_op(p, maxpix):
    """a frame with a cycle budget; frac: where in the normal duration the budget ends (percent), or absolute;
    cut: percentage of the input that is offered at all"""
    return st.fixed_dictionaries({
        "op": st.just("limit"), "img": gen.image_spec(), "v": gen.bits_pattern(), "r": gen.ready_pattern(),
        "limit": st.one_of(st.integers(0, 60).map(lambda x: ["abs", x]), st.integers(0, 115).map(lambda x: ["pct", x]),
                           st.integers(-20, 20).map(lambda x: ["end", x]),
                           # large budgets: one high bit and a small rest, or anything
                           st.tuples(st.integers(12, 23), st.integers(0, 40)).map(lambda x: ["abs", (1 << x[0]) + x[1]]),
                           st.integers(1, 0xFFFFFE).map(lambda x: ["abs", x])),
        "cut": st.sampled_from([100, 100, 100, 0, 30, 60, 95]), "hold": st.just(1)})


def slow_forced_op(p, maxpix):
    """the same with one long pause of the source or the consumer"""
    g = gen.gap_pattern()
    return st.tuples(forced_op(p, maxpix), st.one_of(
        st.fixed_dictionaries({"r": g}), st.fixed_dictionaries({"r": g}), st.fixed_dictionaries({"v": g}),
        st.fixed_dictionaries({"v": g, "r": g}))).map(lambda x: dict(x[0], **x[1]))


class Run:
    def __init__(self, p, maxwords=4000):
        self.p = p
        self.s = p.fresh()
        self.w, self.h = 8, 2
        self.table = gen.table(None, 12)
        core.set_regs(self.s, self.w, self.h, 0xFFFFFF)
        self.nf = 0
        self.log = []

    def regs_ok(self):
        r = core.axi_reads(self.s, [core.REG_HW, core.REG_CYC] + [core.REG_TAB + i for i in range(26)])
        exp = [(self.w << 16) | self.h, 0xFFFFFF]
        for i, (c, l) in enumerate(self.table):
            e = gen.entry(i, c, l, 12)
            exp += [e & 0xFFFFFFFF, e >> 32]
        for i, (a, b) in enumerate(zip(r, exp)):
            if a[0] != b or a[1]:
                raise Violation("after %s: register %d reads %#x (response %d), %#x was written"
                                % ("/".join(self.log[-6:]), i, a[0], a[1], b))

    def op(self, o):
        k = o["op"]
        p = self.p
        s = self.s
        self.log.append(k)
        if k == "size":
            self.w, self.h = o["wh"]
            core.set_regs(s, self.w, self.h, None)
        elif k == "table":
            self.table = gen.table(o["spec"], 12)
            core.set_regs(s, table=self.table, bd=12)
        elif k == "idle":
            snk = p.sink(s, 4, [])
            s.run([p.source(s, p.items([0] * 4), [], 1)][:0], [snk], o["n"])
            if snk.n:
                raise Violation("%s: a word came out between frames, after %s" % (p.name, "/".join(self.log[-6:])))
            p.quiet(s)
        elif k == "read":
            self.regs_ok()
        elif k == "frame":
            pix = gen.image(o["img"], self.w * self.h, self.w, 12)
            self.nf += 1
            core.one_frame(p, s, self.w, self.h, pix, self.table, o["v"], o["r"],
                           o["hold"] if p.io == "plain" else 1, extra=o.get("extra", 0),
                           what="%s frame after %s:" % (p.name, "/".join(self.log[-6:])), stable=False)
        elif k == "limit":
            return self.limited(o)

    def limited(self, o):
        """a frame with a budget.  An unlimited run of the same frame from the same state gives the times."""
        p, s, w, h = self.p, self.s, self.w, self.h
        pix = gen.image(o["img"], w * h, w, 12)
        exp = p.expected(pix, w, self.table)
        items = p.items(pix)
        if o["limit"][0] == "abs" and o["limit"][1] > 100000 and not o.get("wait"):
            o = dict(o, cut=100)                     # a starved frame would take as long as the budget
        cut = max(1, len(items) * o["cut"] // 100)
        items = items[:cut]
        what = "%s %dx%d with a budget (%s)" % (p.name, w, h, "/".join(self.log[-4:]))
        # budget long enough for everything, from the same state, with the same number of register accesses
        core.set_regs(s, cyc=0xFFFFFF)
        twin = p.design.new()
        twin.copy_from(s)
        src = p.source(twin, items, o["v"], o["hold"])
        snk = p.sink(twin, len(exp) + 64, o["r"])
        pause = gen.gap(o["v"], o["r"])
        bud = core.budget(len(items), len(exp), o["v"], o["r"]) + 2 * pause
        twin.run([src], [snk], bud, stop_lasts=1, stop_idle=2500 + pause)
        g = core.raw_records(snk)
        done = snk.lasts > 0
        if cut == len(p.items(pix)) and not done:
            raise Violation("%s: the frame did not finish without a limit" % what)
        if not np.array_equal(g[:, 0], exp[:len(g)]):
            raise Violation("%s: wrong output without a limit" % what)
        t0 = src._k3[0]
        need = (snk._k2[len(exp) - 9] - t0) if done else None          # cycles from the first pixel to the last data word
        # the word before it: with that one taken and the last one offered, the data is out as far as the core can help it
        offered = (snk._k2[len(exp) - 10] - t0) if done else None
        base = need if need is not None else 200 + t0
        a, x = o["limit"]
        lim = x if a == "abs" else base * x // 100 if a == "pct" else max(0, base + x)
        lim = max(0, min(lim, 0xFFFFFE))
        core.set_regs(s, cyc=lim)
        src = p.source(s, items, o["v"], o["hold"])
        snk = p.sink(s, len(exp) + 64, o["r"])
        s.run([src], [snk], bud + lim, stop_lasts=1, stop_idle=2500 + lim + pause)
        p.quiet(s)
        g = core.raw_records(snk)
        if not snk.lasts:
            raise Violation("%s: limit %d: the stream did not end (%d words)" % (what, lim, len(g)))
        words = g[:, 0]
        if len(words) == len(exp) and np.array_equal(words, exp):
            if need is None:
                raise Violation("%s: finished without its input" % what)
            if offered > lim + SLACK:
                raise Violation("%s: budget of %d cycles, the data took %d and was not cut off" % (what, lim, offered))
            core.set_regs(s, cyc=0xFFFFFF)
            return ["in_time"]
        n = len(words)
        if n < 8 or not (words[-8:] == 0xFFFE).all() or not np.array_equal(words[:-8], exp[:n - 8]):
            raise Violation("%s: budget %d, needed %r: the stream is neither the frame nor a prefix followed by eight "
                            "forced end words: ...%s (%d words, %d in the frame)"
                            % (what, lim, need, [hex(int(x)) for x in words[-12:]], n, len(exp)))
        if need is not None and need < lim:
            raise Violation("%s: budget of %d cycles, the data needs %d but the frame was cut off" % (what, lim, need))
        t0 = src._k3[0]
        late = sum(1 for i in range(8, n - 8) if snk._k2[i] > t0 + lim + SLACK)
        if late > 1:
            raise Violation("%s: %d data words were sent after the budget of %d cycles was over" % (what, late, lim))
        # the register keeps its value, put the large budget back
        b = core.bad_stable(snk)
        if b:
            raise Violation("%s: %s" % (what, b))
        core.set_regs(s, cyc=0xFFFFFF)
        return ["forced", "in_start_words" if n <= 16 else "in_data"] + (["starved"] if cut < len(p.items(pix)) else [])
