"""AXI lite histories: generated transactions and handshakes on all five channels, and the memory model that judges them."""
import bisect
import random

from hypothesis import strategies as st

import gen
from fw import Violation

OK, SLVERR, DECERR = 0, 2, 3


def phase(ridx, windex, maxn):
    """one burst of transactions: reads and writes offered at the same time"""
    wr = st.tuples(windex, st.integers(0, 0xFFFFFFFF), st.sampled_from([15, 15, 15, 1, 2, 4, 8, 3, 12, 5, 10, 0, 7, 14]))
    return st.fixed_dictionaries({
        "reads": st.lists(ridx, max_size=maxn), "writes": st.lists(wr.map(list), max_size=maxn),
        "ar": gen.bits_pattern(), "aw": gen.bits_pattern(), "w": gen.bits_pattern(), "r": gen.ready_pattern(),
        "b": gen.ready_pattern()})


def slow_phase(ridx, windex, maxn):
    """a burst in which one channel or several make a long pause"""
    g = gen.gap_pattern()
    return st.tuples(phase(ridx, windex, maxn), st.fixed_dictionaries({}, optional={k: g for k in ("ar", "aw", "w", "r", "b")})).map(
        lambda x: dict(x[0], **x[1]))


def pauses(ph):
    return gen.gap(*[ph[k] for k in ("ar", "aw", "w", "r", "b")])


def long_phase(maxn):
    """a burst of up to maxn transactions each way, drawn from a seed (expand with expand_phase)"""
    n = st.one_of(st.integers(2, maxn), st.just(maxn))
    return st.fixed_dictionaries({
        "seed": st.integers(0, 2 ** 32), "nr": n, "nw": n,
        "ar": gen.bits_pattern(), "aw": gen.bits_pattern(), "w": gen.bits_pattern(), "r": gen.ready_pattern(),
        "b": gen.ready_pattern()})


def expand_phase(ph, ridx, windex):
    """ridx, windex: the register indices to choose from"""
    if "seed" not in ph:
        return ph
    r = random.Random(ph["seed"])
    out = {k: ph[k] for k in ("ar", "aw", "w", "r", "b")}
    out["reads"] = [r.choice(ridx) for _ in range(ph["nr"])]
    out["writes"] = [[r.choice(windex), r.getrandbits(32), r.choice([15, 15, 15, r.randrange(16)])] for _ in range(ph["nw"])]
    return out


class Channels:
    def __init__(self, sim, ph, ids=None):
        """ids: (read ids, write ids) for a master with IDs"""
        self.sim = sim
        self.ph = ph
        e = gen.expand
        R, W = ph["reads"], ph["writes"]
        an, rn, wn, bn = ["i_ar_addr"], ["o_r_data", "o_r_resp"], ["i_aw_addr"], ["o_b_resp"]
        ra = [(i << 2,) for i in R]
        wa = [(w[0] << 2,) for w in W]
        if ids:
            an, rn, wn, bn = an + ["i_ar_id"], rn + ["o_r_id", "o_r_last"], wn + ["i_aw_id"], bn + ["o_b_id"]
            ra = [a + (i,) for a, i in zip(ra, ids[0])]
            wa = [a + (i,) for a, i in zip(wa, ids[1])]
        self.ar = sim.source(an, ra, valid="i_ar_valid", ready="o_ar_ready", pat=e(ph["ar"]))
        self.aw = sim.source(wn, wa, valid="i_aw_valid", ready="o_aw_ready", pat=e(ph["aw"]))
        self.wd = sim.source(["i_w_data", "i_w_strb"], [(w[1], w[2]) for w in W], valid="i_w_valid", ready="o_w_ready",
                             pat=e(ph["w"]))
        self.rs = sim.sink(rn, len(R) + 4, valid="o_r_valid", ready="i_r_ready", pat=e(ph["r"]), monitor=1)
        self.bs = sim.sink(bn, len(W) + 4, valid="o_b_valid", ready="i_b_ready", pat=e(ph["b"]), monitor=1)
        self.srcs = [self.ar, self.aw, self.wd]
        self.snks = [self.rs, self.bs]

    def idle(self):
        for k in ("i_ar_valid", "i_aw_valid", "i_w_valid", "i_r_ready", "i_b_ready"):
            self.sim.set(k, 0)

    def budget(self):
        d = min(1.0 if self.ph[k][:1] == ["gap"] else gen.density(self.ph[k]) for k in ("ar", "aw", "w", "r", "b"))
        return int((len(self.ph["reads"]) + len(self.ph["writes"]) + 2) * (30 + 8 / d)) + 200 + 2 * pauses(self.ph) + \
            sum(1 for k in "rb" for x in gen.expand(self.ph[k]) if not x)

    def results(self, what):
        R, W = self.ph["reads"], self.ph["writes"]
        rr = self.sim.records(self.rs)
        bb = self.sim.records(self.bs)
        for n, k, t in ((len(rr), len(R), "read"), (len(bb), len(W), "write")):
            if n != k:
                raise Violation("%s: %d responses to %d %ss" % (what, n, k, t))
        for s, t in ((self.rs, "read"), (self.bs, "write")):
            if s.bad_count:
                raise Violation("%s: a %s response was %s before the master took it" % (
                    what, t, "withdrawn" if (s.bad_kind & 255) == 1 else "changed"))
        return rr, bb


class Memory:
    """registers: {index: [current value, mask or None for read only]}; answers() says which values a read may return"""

    def __init__(self, regs):
        self.val = {k: v for k, (v, m) in regs.items()}
        self.mask = {k: m for k, (v, m) in regs.items()}

    def check(self, ch, what, base=0):
        """compares the results of one phase (cycles relative to its start) with the model and updates the model"""
        rr, bb = ch.results(what)
        W, R = ch.ph["writes"], ch.ph["reads"]
        hist = {k: [(v, -1, -1)] for k, v in self.val.items()}          # value, earliest, latest cycle it takes effect
        for i, (idx, data, strb) in enumerate(W):
            s = max(ch.aw._k3[i], ch.wd._k3[i])
            e = ch.bs._k2[i]
            if s > e:
                raise Violation("%s: write %d was answered before it was complete" % (what, i))
            exp = OK if self.mask.get(idx) is not None else SLVERR if idx in self.mask else DECERR
            if exp == SLVERR and not strb and bb[i][0] == OK:
                continue                               # nothing is written
            if bb[i][0] != exp:
                raise Violation("%s: write to register %#x was answered %d, expected %d" % (what, idx, bb[i][0], exp))
            if exp == OK:
                v = self.val[idx]
                for k in range(4):
                    if strb >> k & 1:
                        v = (v & ~(0xFF << 8 * k)) | (data & (0xFF << 8 * k))
                v &= self.mask[idx]
                self.val[idx] = v
                hist[idx].append((v, s, e))
        for i, idx in enumerate(R):
            a, r = ch.ar._k3[i], ch.rs._k2[i]
            data, resp = rr[i][:2]
            exp = OK if idx in self.mask else DECERR
            if resp != exp:
                raise Violation("%s: read of register %#x was answered %d, expected %d" % (what, idx, resp, exp))
            if exp != OK:
                continue
            hh = hist[idx]
            k0 = bisect.bisect_left(hh, a, key=lambda x: x[2]) - 1           # the last one in effect for certain
            ok = []
            for x in hh[k0:]:                                                # writes are answered in order
                if x[1] > r:
                    break
                ok.append(x[0])
            if data not in ok:
                raise Violation("%s: register %#x reads %#x, expected %s (transaction %d of the phase)"
                                % (what, idx, data, " or ".join(hex(x) for x in ok), i))
        return len(R) + len(W)


def table_regs(bd, table, entry):
    out = {}
    for i, (c, l) in enumerate(table[:bd + 1]):
        e = entry(i, c, l, bd)
        m = (1 << (bd + 21)) - 1
        out[0x400 + 2 * i] = (e & 0xFFFFFFFF, m & 0xFFFFFFFF)
        out[0x401 + 2 * i] = (e >> 32, m >> 32)
    return out
