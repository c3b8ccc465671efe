"""P17: burst writer, burst reader, address generator and their FIFO."""
import random

from hypothesis import strategies as st

import cfgs
import gen
from fw import Part, Violation

PROPERTY = "P17"
RULE = ("Case: writer: FIFO, burst writer and address generator connected as in the full AXI product write 16 to 400 generated words "
        "through a memory model with generated address, data and response handshakes, response latencies, outstanding "
        "limits and error responses; reader: the same in the other direction with generated memory contents; FIFO: random "
        "pushes and pops against a queue; address generator: random steps, any burst size. Every address, beat, last flag, "
        "count and error flag is compared. Non-trivial: two or more bursts (FIFO: 20 operations; address generator: 3 steps).")
ASSUMPTIONS = ["memory accepts an address without waiting for its data", "responses come in order, at most 15 bursts in flight",
               "the start address is stable from before the start", "enable is raised again if it is lowered with bursts in flight"]


class Mem:
    """pattern driven bit"""

    def __init__(self, p):
        self.p = gen.expand(p)
        self.k = 0

    def next(self, prev=0):
        if not self.p:
            return 1
        v = self.p[self.k % len(self.p)]
        self.k += 1
        return v if v < 2 else int(bool(prev)) if v == 2 else int(not prev)


def parts(tier, seed):
    q = tier == "quick"
    r = random.Random("p17%s" % seed)
    shifts = [0x80, 1, 0x40, r.randrange(1, 1 << 16), r.randrange(1, 1 << 31)]
    ds = cfgs.build_all([("writer_chain", {}), ("reader_chain", {}), ("axihp_fifo", {})] +
                        [("address_generator", dict(shift=x)) for x in shifts])
    wd, rd, fd = ds[:3]
    ags = ds[3:]

    def writer(c):
        n = c["n"]
        rr = random.Random(c["seed"])
        X = [rr.getrandbits(64) for _ in range(n)]
        nb = n // 16
        s = wd.new()
        s.reset()
        S, G = s.set, s.get
        start = c["start"]
        strobe = c["strobe"]
        S("i_start", start)
        S("i_strobe", strobe)
        vp, ap, wp, bp = Mem(c["v"]), Mem(c["aw"]), Mem(c["w"]), Mem(c["b"])
        off0, off1 = c["off"]
        fed = aw = wb = bacc = wl = 0
        offering = bvalid = 0
        due = []                                                # cycle in which each response may come
        resp = {k % max(1, nb) for k in c["err"]}
        pend_aw = pend_w = None
        idle = cyc = 0
        pv = pw = 0
        what = "burst writer, %d words to %#x" % (n, start)
        while idle < 700 + c["pause"] and cyc < 60000:
            en = cyc >= c["en"] and not (off0 <= cyc < off1)
            S("i_enable", int(en))
            offering = int(fed < n and (offering or vp.next()))
            S("i_valid", offering)
            S("i_data", X[fed] if offering else rr.getrandbits(64))
            S("i_end", 0)
            ar = ap.next(pv) if aw - bacc < c["limit"] else 0
            S("i_awready", ar)
            wr = wp.next(pw)
            S("i_wready", wr)
            bvalid = int(bvalid or (bool(due) and due[0] <= cyc and bp.next()))
            er = bvalid and bacc in resp
            S("i_bvalid", bvalid)
            S("i_bresp", 2 if er else 0)
            s.eval()
            moved = 0
            if G("o_active") != aw - wl or G("o_unconf") != aw - bacc:
                raise Violation("%s: cycle %d: active %d, unconfirmed %d; expected %d, %d" % (
                    what, cyc, G("o_active"), G("o_unconf"), aw - wl, aw - bacc))
            if G("o_inactive") != (aw == bacc and aw == wl):
                raise Violation("%s: cycle %d: inactive is %d" % (what, cyc, G("o_inactive")))
            pv, pw = G("o_awvalid"), G("o_wvalid")
            if pv:
                cur = (G("o_awaddr"), G("o_awlen"), G("o_awsize"), G("o_awburst"))
                exp = ((start + 0x80 * aw) & 0xFFFFFFFF, 15, 3, 1)
                if cur != exp:
                    raise Violation("%s: burst %d: address %#x, length %d, size %d, kind %d; expected %#x, %d, %d, %d" % (
                        (what, aw) + cur + exp))
                if ar:
                    aw += 1
                    moved = 1
            elif pend_aw:
                raise Violation("%s: cycle %d: the address was withdrawn" % (what, cyc))
            pend_aw = pv and not ar
            a0 = aw
            if pw:
                cur = (G("o_wdata"), G("o_wstrb"), G("o_wlast"))
                if wb >= nb * 16:
                    raise Violation("%s: more than %d words are written" % (what, nb * 16))
                exp = (X[wb], strobe, int(wb % 16 == 15))
                if cur != exp:
                    raise Violation("%s: beat %d: data %#x, strobe %#x, last %d; expected %#x, %#x, %d" % ((what, wb) + cur + exp))
                if wr:
                    wb += 1
                    moved = 1
                    if wb % 16 == 0:
                        wl += 1
                        if wl > a0:
                            raise Violation("%s: burst %d has data before its address" % (what, wl - 1))
                        due.append(cyc + 1 + c["lat"][wl % len(c["lat"])])
            elif pend_w:
                raise Violation("%s: cycle %d: the data was withdrawn" % (what, cyc))
            pend_w = pw and not wr
            ba = bvalid and G("o_bready")
            if G("o_error") != int(bool(ba and er)):
                raise Violation("%s: cycle %d: error flag is %d" % (what, cyc, G("o_error")))
            if ba:
                bacc += 1
                due.pop(0)
                bvalid = 0
                moved = 1
            if offering and G("o_writable"):
                fed += 1
                offering = 0
                moved = 1
            s.tick()
            cyc += 1
            idle = 0 if moved or cyc < max(off1, c["en"]) or due else idle + 1
        if wb != nb * 16 or fed != n or bacc != nb:
            raise Violation("%s: stopped after %d words in, %d out, %d of %d responses" % (what, fed, wb, bacc, nb))
        return ["writer"] + (["errors"] if resp and nb else []) + (["paused"] if off1 > off0 else []) if nb > 1 else None

    def reader(c):
        nb = c["n"] // 16
        rr = random.Random(c["seed"])
        start = c["start"]
        s = rd.new()
        s.reset()
        S, G = s.set, s.get
        S("i_start", start)
        ap, dp, op = Mem(c["aw"]), Mem(c["v"]), Mem(c["w"])
        X = [rr.getrandbits(64) for _ in range(nb * 16)]
        ar = beats = bursts = got = 0
        due = []
        off0, off1 = c["off"]
        resp = {k % max(1, nb * 16) for k in c["err"]}
        pv = pend = rv = ov = 0
        idle = cyc = 0
        what = "burst reader, %d bursts from %#x" % (nb, start)
        while idle < 700 + c["pause"] and cyc < 60000:
            # the memory answers nb bursts; then reading is switched off, as when the last address was generated
            en = cyc >= c["en"] and not (off0 <= cyc < off1) and ar < nb
            S("i_enable", int(en))
            rdy = ap.next(pv) if ar - bursts < c["limit"] else 0
            if ar >= nb:
                rdy = 0
            S("i_arready", rdy)
            rv = int(rv or (bool(due) and due[0] <= cyc and beats < 16 * ar and dp.next()))
            S("i_rvalid", rv)
            if rv:
                S("i_rdata", X[beats])
                S("i_rlast", int(beats % 16 == 15))
                S("i_rresp", 2 if beats in resp else 0)
            else:
                S("i_rdata", rr.getrandbits(64))
                S("i_rlast", rr.getrandbits(1))
                S("i_rresp", rr.getrandbits(2))
            take = op.next(ov)
            S("i_read", take)
            s.eval()
            moved = 0
            if G("o_active") != ar - bursts or G("o_inactive") != (ar == bursts):
                raise Violation("%s: cycle %d: active %d, inactive %d; expected %d" % (
                    what, cyc, G("o_active"), G("o_inactive"), ar - bursts))
            ov = G("o_valid")
            if ov and take:
                if got >= beats or G("o_data") != X[got]:
                    raise Violation("%s: word %d is %#x, expected %s" % (what, got, G("o_data"),
                                                                        hex(X[got]) if got < beats else "none"))
                got += 1
                moved = 1
            pv = G("o_arvalid")
            if pv:
                cur = (G("o_araddr"), G("o_arlen"), G("o_arsize"), G("o_arburst"))
                exp = ((start + 0x80 * ar) & 0xFFFFFFFF, 15, 3, 1)
                if cur != exp:
                    raise Violation("%s: burst %d: address %#x, length %d, size %d, kind %d; expected %#x, %d, %d, %d" % (
                        (what, ar) + cur + exp))
                if rdy:
                    due.append(cyc + 1 + c["lat"][ar % len(c["lat"])])
                    ar += 1
                    moved = 1
            elif pend:
                raise Violation("%s: cycle %d: the address was withdrawn" % (what, cyc))
            pend = pv and not rdy
            a = rv and G("o_rready")
            if G("o_error") != int(bool(a and beats in resp)):
                raise Violation("%s: cycle %d: error flag is %d" % (what, cyc, G("o_error")))
            if a:
                beats += 1
                rv = 0
                moved = 1
                if beats % 16 == 0:
                    bursts += 1
                    due.pop(0)
            s.tick()
            cyc += 1
            idle = 0 if moved or cyc < max(off1, c["en"]) or (due and due[0] > cyc) else idle + 1
        if got != nb * 16 or ar != nb:
            raise Violation("%s: stopped after %d addresses, %d of %d beats taken, %d words came out" % (what, ar, beats, nb * 16, got))
        return ["reader"] + (["errors"] if resp and nb else []) + (["paused"] if off1 > off0 else []) if nb > 1 else None

    def fifo(c):
        s = fd.new()
        s.reset()
        rr = random.Random(c["seed"])
        Q = []
        n = 0
        bias = 50
        hi = 0
        for t in range(c["n"]):
            if t % 64 == 0:
                bias = rr.choice([20, 50, 80, 95])
            v, rd_ = int(rr.randrange(100) < bias), int(rr.randrange(100) < 100 - bias + 10)
            x, e = rr.getrandbits(64), rr.getrandbits(1)
            s.cycle(i_valid=v, i_data=x, i_end=e, i_read=rd_)
            what = "cycle %d, %d entries" % (t, len(Q))
            if s.get("o_valid") != bool(Q) or s.get("o_readable") != bool(Q):
                raise Violation("burst FIFO: %s: valid is %d" % (what, s.get("o_valid")))
            if Q and (s.get("o_data"), s.get("o_end")) != Q[0]:
                raise Violation("burst FIFO: %s: entry %#x, expected %#x" % (what, s.get("o_data"), Q[0][0]))
            w = s.get("o_writable")
            if s.get("o_writable16") and len(Q) > 16:
                raise Violation("burst FIFO: %s: room for a burst reported" % what)
            if not Q and not (s.get("o_writable16") and w):
                raise Violation("burst FIFO: %s: no room reported" % what)
            if w and len(Q) >= 32 or not w and len(Q) < 16:
                raise Violation("burst FIFO: %s: writable is %d" % (what, w))
            if s.get("o_readable16") != (len(Q) >= 16):
                raise Violation("burst FIFO: %s: burst readable is %d" % (what, s.get("o_readable16")))
            if rd_ and Q:
                Q.pop(0)
            if v and w:
                Q.append((x, e))
            hi = max(hi, len(Q))
            s.tick()
        return ["fifo"] + (["filled"] if hi == 32 else []) if c["n"] >= 20 else None

    def addr(c):
        shift, d = shifts[c["i"]], ags[c["i"]]
        s = d.new()
        s.reset()
        s.set("i_latch", 0)
        for a in c["before"] + [c["start"]] * 3:
            s.cycle(i_start=a)
            s.tick()
        k = 0
        for x in gen.expand(c["p"]) * (1 + 40 // max(1, len(c["p"]))):
            s.cycle(i_latch=x, i_start=c["start"])
            g, e = s.get("o_addr"), (c["start"] + k * shift) & 0xFFFFFFFF
            if not s.get("o_valid") or g != e:
                raise Violation("address generator, step %#x: address %d is %#x, expected %#x (valid %d)" % (
                    shift, k, g, e, s.get("o_valid")))
            k += x
            s.tick()
        return ["address"] if k > 2 else None

    addr32 = st.one_of(st.integers(0, 2 ** 25 - 1).map(lambda x: x << 7), st.sampled_from([0, 0xFFFFFF80, 0x80, 0x18000000]))
    mem = dict(n=st.one_of(st.integers(2, 25).map(lambda x: 16 * x), st.integers(16, 400)), seed=st.integers(0, 2 ** 32), start=addr32,
               v=gen.bits_pattern(), aw=gen.ready_pattern(), w=gen.ready_pattern(), b=gen.bits_pattern(),
               lat=st.lists(st.one_of(st.integers(0, 5), st.integers(0, 200)), min_size=1, max_size=5),
               limit=st.sampled_from([1, 2, 3, 8, 8, 15]), en=st.sampled_from([0, 1, 2, 5, 40]),
               off=st.one_of(st.just([0, 0]), st.builds(lambda a, b: [a, a + b], st.integers(0, 300), st.integers(1, 60))),
               err=st.lists(st.integers(0, 1000), max_size=3), strobe=st.sampled_from([255, 255, 15, 0xA5]))
    g = gen.gap_pattern(9000)
    slow = st.tuples(st.fixed_dictionaries(dict(mem, n=st.integers(32, 120))), st.fixed_dictionaries(
        {}, optional={"v": g, "aw": g, "w": g, "b": g, "lat": st.lists(st.integers(0, 3000), min_size=1, max_size=2)})).map(
        lambda x: dict(x[0], **x[1])).map(lambda c: dict(c, pause=gen.gap(c["v"], c["aw"], c["w"], c["b"])))
    mem["pause"] = st.just(0)
    return [Part("writer_long_pauses", slow, writer, 60 if q else 1000), Part("reader_long_pauses", slow, reader, 60 if q else 1000),
            Part("writer", st.fixed_dictionaries(mem), writer, 1500 if q else 20000, weight=3),
            Part("reader", st.fixed_dictionaries(mem), reader, 1500 if q else 20000, weight=3),
            Part("fifo", st.fixed_dictionaries({"seed": st.integers(0, 2 ** 32), "n": st.integers(10, 600)}), fifo, 400 if q else 5000),
            Part("address_generator", st.fixed_dictionaries({
                "i": st.integers(0, len(shifts) - 1), "start": st.integers(0, 2 ** 32 - 1), "p": gen.bits_pattern(),
                "before": st.lists(st.integers(0, 2 ** 32 - 1), max_size=4)}), addr, 1000 if q else 10000)]
