"""P23: the DMA driver against a model of the AXI DMA (PG021, direct register mode)."""
from hypothesis import strategies as st

import rtl
import sw
from fw import Part, Violation

PROPERTY = "P23"
RULE = ("Case: histories of driver calls (reset, halt, addresses, start, lengths, waits, status) and device events "
        "(transfers finishing at once or after any number of polls, errors, channels still busy), every register access of "
        "the compiled driver being caught and applied to a register-accurate model of the DMA. Oracle: the model's state "
        "after each call, and the accesses it saw. Non-trivial: at least one transfer or one status query.")
ASSUMPTIONS = ["lengths are 1 to 2^26-1; a length is not written to a running channel while its transfer is going on",
               "a wait is only called when its channel's transfer will end without an error"]

BITS = [(1, "idle"), (3, "SGIncld"), (4, "DMAIntErr"), (5, "DMASlvErr"), (6, "DMADecErr"), (8, "SGIntErr"),
        (9, "SGSlvErr"), (10, "SGDecErr"), (12, "IOC_Irq"), (13, "Dly_Irq"), (14, "Err_Irq")]
MM2S, S2MM = "MM2S", "S2MM"
REGS = {0x00: (MM2S, "cr"), 0x04: (MM2S, "sr"), 0x18: (MM2S, "addr"), 0x1C: (MM2S, "msb"), 0x28: (MM2S, "len"),
        0x30: (S2MM, "cr"), 0x34: (S2MM, "sr"), 0x48: (S2MM, "addr"), 0x4C: (S2MM, "msb"), 0x58: (S2MM, "len")}


class Chan:
    def __init__(self):
        self.reset()
        self.resets = 0

    def reset(self):
        self.cr, self.addr, self.msb, self.len = 0x10002, 0, 0, 0
        self.halted, self.idle, self.irq, self.err = True, False, 0, 0
        self.busy, self.started = None, []
        self.stopping = 0

    def sr(self):
        return int(self.halted) | int(self.idle) << 1 | self.err | self.irq


class DMA:
    """the device at `base`"""

    def __init__(self):
        self.start(0)

    def start(self, base):
        self.base = base
        self.ch = {MM2S: Chan(), S2MM: Chan()}
        self.accesses, self.polls, self.finish, self.limit, self.force = [], 0, {}, None, None
        self.slept = 0

    def reg(self, addr, size, what):
        off = addr - self.base
        if size != 4 or off & 3:
            raise Violation("the driver %s %d bytes at %#x of the DMA" % (what, size, off))
        if off not in REGS:
            raise Violation("the driver %s offset %#x, which is no register of the DMA (base %#x)" % (what, off, self.base))
        return REGS[off]

    def step(self):
        """time passes"""
        for n, c in self.ch.items():
            if c.stopping:
                c.stopping -= 1
                if not c.stopping:
                    c.halted, c.busy = True, None
            if c.busy is not None and n in self.finish:
                self.finish[n] -= 1
                if self.finish[n] <= 0:
                    del self.finish[n]
                    c.busy, c.idle = None, True
                    c.irq |= 1 << 12

    def read(self, addr, size):
        n, r = self.reg(addr, size, "reads")
        self.accesses.append((n, r, None))
        c = self.ch[n]
        if r == "sr":
            self.polls += 1
            if self.limit is not None and self.polls > self.limit:
                raise Violation("the wait for %s goes on although its transfer has ended (status %#x)" % (n, c.sr()))
            v = c.sr() if self.force is None else self.force[n]
            self.step()
            return v
        return {"cr": c.cr, "addr": c.addr, "msb": c.msb, "len": c.len}[r]

    def write(self, addr, size, v):
        n, r = self.reg(addr, size, "writes")
        self.accesses.append((n, r, v))
        c = self.ch[n]
        if r == "cr":
            if v & 4:
                for m in self.ch.values():
                    m.reset()                                    # either bit resets the whole engine
                c.resets += 1
                return
            c.cr = v & ~4
            if v & 1:
                if c.halted or c.stopping:
                    c.halted, c.idle, c.stopping = False, False, 0
            elif not c.halted and not c.stopping:
                c.stopping = self.stop_delay
                if not c.stopping:
                    c.halted, c.busy = True, None
        elif r == "sr":
            c.irq &= ~(v & 0x7000)
        elif r == "addr":
            c.addr = v
        elif r == "msb":
            c.msb = v
        elif r == "len":
            c.len = v & 0x3FFFFFF
            if c.cr & 1 and not c.halted and c.len:
                if c.busy is not None:
                    c.started.append("overlapping")
                c.busy, c.idle = (c.addr, c.len), False
                c.started.append((c.addr, v))

    def sleep(self, us):
        self.slept += us
        self.step()

    def mapped(self, base, n):
        pass

    stop_delay = 0


class Drv:
    def __init__(self, exe):
        self.exe, self.p, self.pid, self.n = exe, None, None, 0

    def get(self):
        import os
        if self.p is None or self.pid != os.getpid() or self.n > 200:
            if self.p is not None and self.pid == os.getpid():
                self.p.close()
            self.dev = DMA()
            self.p = sw.Proc(self.exe, self.dev)
            self.pid, self.n = os.getpid(), 0
        self.n += 1
        return self

    def call(self, cmd):
        try:
            return self.p.call(cmd)
        except sw.Ended as e:
            self.p.close()
            self.p = None
            raise Violation("'%s' ended the program (%s): %s" % (cmd, e.rc, e.text[-200:]))
        except Violation:
            self.p.close()
            self.p = None
            raise


def words(sr):
    return {"halted" if sr & 1 else "running"} | {t for b, t in BITS if sr >> b & 1}


def parts(tier, seed):
    q = tier == "quick"
    drv = Drv(sw.build(rtl.workdir(), name="dma"))
    u32 = st.one_of(st.integers(0, 0xFFFFFFFF), st.sampled_from([0, 0xFFFFFFFF, 0x80000000, 0x10000000, 0x12000000, 3]))
    length = st.one_of(st.integers(1, 0x3FFFFFF), st.sampled_from([1, 0x3FFFFFF, 0x2000000, 4096 * 3072 * 2, 0x1FFFFFF]))
    base = st.one_of(st.sampled_from([0x40400000, 0, 0xFFFF0000, 0x7FFFF000]), st.integers(0, 0xFFFEF).map(lambda x: x << 12))
    delay = st.one_of(st.integers(0, 3), st.integers(0, 60))
    # Bits of a status register
    srv = st.one_of(st.integers(0, 0xFFFFFFFF), st.integers(0, 31).map(lambda b: 1 << b), st.sampled_from([0, 0x1002, 0x10009]))
    op = st.one_of(
        st.tuples(st.just("reset")), st.tuples(st.just("halt"), delay), st.tuples(st.just("start")),
        st.tuples(st.just("addr"), u32, u32), st.tuples(st.just("len"), length, length),
        st.tuples(st.just("len"), length, length), st.tuples(st.just("new")),
        st.tuples(st.just("transfer"), u32, u32, length, length),
        st.tuples(st.just("mm2s_sync"), delay), st.tuples(st.just("s2mm_sync"), delay),
        st.tuples(st.just("finish"), st.sampled_from([MM2S, S2MM, "both"])),
        st.tuples(st.just("error"), st.sampled_from([MM2S, S2MM]), st.sampled_from([4, 5, 6])),
        st.tuples(st.sampled_from(["mm2s_status", "s2mm_status"])),
        st.tuples(st.just("any_status"), srv, srv))

    def run(c):
        d = drv.get()
        m = d.dev
        m.start(c["base"])
        d.call("dma 1 %d" % c["base"])
        labels = set()

        def seen(cmd, only=None):
            for n, r, v in m.accesses:
                if only is not None and n != only:
                    raise Violation("%s touches %s of channel %s" % (cmd, r, n))
                if only is not None and v is not None and r in ("addr", "len", "msb"):
                    raise Violation("%s writes %s of channel %s" % (cmd, r, n))

        def call(cmd, k):
            m.accesses, m.polls = [], 0
            for n in m.ch.values():
                n.started, n.resets = [], 0
            r = d.call(cmd)
            if k != "len":
                for n, x in m.ch.items():
                    if x.started:
                        raise Violation("%s starts a transfer on %s" % (cmd, n))
            return r

        def do_start():
            was = {n: x.busy for n, x in m.ch.items()}
            call("start 1", "start")
            for n, x in m.ch.items():
                if not x.cr & 1 or x.halted:
                    raise Violation("after start_dma channel %s is not running (control %#x)" % (n, x.cr))
                if x.busy != was[n]:
                    raise Violation("start_dma disturbs the transfer on %s" % n)
            if m.ch[MM2S].resets or m.ch[S2MM].resets:
                raise Violation("start_dma resets the device")

        def do_addr(a, b):
            run_ = {n: (x.cr & 1, x.halted) for n, x in m.ch.items()}
            call("addr 1 %d %d" % (a, b), "addr")
            if m.ch[MM2S].addr != a or m.ch[S2MM].addr != b:
                raise Violation("set_dma_src_dist(%#x, %#x): MM2S starts at %#x, S2MM writes to %#x" % (
                    a, b, m.ch[MM2S].addr, m.ch[S2MM].addr))
            for n, x in m.ch.items():
                if (x.cr & 1, x.halted) != run_[n] or x.msb:
                    raise Violation("set_dma_src_dist changes the state of %s" % n)

        def do_len(s, mm):
            call("len 1 %d %d" % (s, mm), "len")
            for n, l in ((MM2S, mm), (S2MM, s)):
                x = m.ch[n]
                e = [(x.addr, l)] if x.cr & 1 and not x.halted else []
                if x.started != e:
                    raise Violation("set_dma_transfer_len(%d, %d): channel %s started %r, expected %r" % (
                        s, mm, n, x.started, e))
                if e:
                    labels.add("transfer")

        for o in c["ops"]:
            k = o[0]
            free = all(x.busy is None and not x.stopping for x in m.ch.values())
            if k == "reset":
                call("reset 1", k)
                for n, x in m.ch.items():
                    if x.cr & 1 or not x.halted or x.busy or x.addr:
                        raise Violation("reset_dma leaves %s with control %#x, status %#x, address %#x" % (
                            n, x.cr, x.sr(), x.addr))
                if not (m.ch[MM2S].resets or m.ch[S2MM].resets):
                    raise Violation("reset_dma resets nothing")
                labels.add(k)
            elif k == "halt":
                m.stop_delay = o[1]
                call("halt 1", k)
                for n, x in m.ch.items():
                    if x.cr & 1:
                        raise Violation("after halt_dma the run bit of %s is set" % n)
                    if x.resets:
                        raise Violation("halt_dma resets %s" % n)
                for _ in range(o[1]):
                    m.step()
                labels.add(k)
            elif k == "start":
                if any(x.err for x in m.ch.values()) or any(x.stopping for x in m.ch.values()):
                    continue
                do_start()
            elif k == "addr":
                do_addr(o[1], o[2])
            elif k == "len":
                if free:
                    do_len(o[1], o[2])
            elif k == "new":
                d.call("dropdma 1")
                m.accesses = []
                d.call("dma 1 %d" % c["base"])
            elif k == "transfer":
                if any(x.err for x in m.ch.values()):
                    continue
                if free:
                    do_addr(o[1], o[2])
                    do_start()
                    do_len(o[3], o[4])
                    for n, a in ((MM2S, o[1]), (S2MM, o[2])):
                        if m.ch[n].started[0][0] != a:
                            raise Violation("%s transfers at %#x instead of %#x" % (n, m.ch[n].started[0][0], a))
            elif k in ("mm2s_sync", "s2mm_sync"):
                n = k[:4].upper()
                x = m.ch[n]
                if x.err or x.stopping or (x.busy is None and not (x.idle and x.irq & 0x1000)):
                    continue                                     # nothing to wait for
                was = x.busy
                if was is not None:
                    m.finish = {n: o[1] + 1}                     # the other channel stays as it is
                m.limit = 3 * o[1] + 200
                call(k + " 1", k)
                m.limit = None
                if x.busy is not None or not x.idle:
                    raise Violation("%s returns while the transfer on %s is going on" % (k, n))
                seen(k, n)
                m.finish = {}
                labels.add("wait" if was is not None else "wait_done")
            elif k == "finish":
                for n, x in m.ch.items():
                    if o[1] in (n, "both") and x.busy is not None:
                        x.busy, x.idle = None, True
                        x.irq |= 0x1000
            elif k == "error":
                x = m.ch[o[1]]
                if x.busy is not None:
                    x.busy, x.halted, x.err = None, True, 1 << o[2]
                    x.cr &= ~1
                    x.irq |= 0x4000
                    labels.add("error")
            elif k in ("mm2s_status", "s2mm_status", "any_status"):
                for cmd in [k] if k != "any_status" else ["mm2s_status", "s2mm_status"]:
                    n = cmd[:4].upper()
                    if k == "any_status":
                        m.force = {MM2S: o[1], S2MM: o[2]}
                    sr = m.force[n] if m.force else m.ch[n].sr()
                    a = call(cmd + " 1", cmd)
                    m.force = None
                    seen(cmd, n)
                    l = a.split("|")
                    if set(l) != words(sr) or len(l) != len(set(l)):
                        raise Violation("the status of %s is %#x, %s says %s" % (n, sr, cmd, l))
                labels.add("status")
        return sorted(labels) if labels & {"transfer", "status"} else None

    case = st.fixed_dictionaries({"base": base, "ops": st.lists(op, min_size=2, max_size=25)})
    bits = [{"base": 0x40400000, "ops": [["any_status", 1 << i, 1 << (31 - i)]]} for i in range(32)] + \
           [{"base": 0x40400000, "ops": [["any_status", 0xFFFFFFFF ^ (1 << i), 0]]} for i in range(32)]
    return [Part("histories", case, run, 20000 if q else 300000),
            Part("status_bits", bits, run, len(bits), shards=2)]
