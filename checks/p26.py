"""P26: the full AXI product compresses a frame from memory to memory."""
import numpy as np
from hypothesis import strategies as st

import cfgs
import core
import fw
import gen
from fw import Part, Violation

PROPERTY = "P26"
RULE = ("Case: addresses, frame size and content, Huffman table, memory behaviour (handshake patterns of all five AXI channels, "
        "latencies, outstanding limit), pauses by the start register, reads of the status registers meanwhile, one or two "
        "frames; a memory model behind both ports. Every burst address, beat, strobe and flag is compared with what the "
        "frame requires, the words written with the Beta stream. Whole default frames (4096x3072) as shipped. Non-trivial: "
        "at least two bursts in each direction.")
ASSUMPTIONS = ["the memory answers in order, at most 15 bursts in flight, and accepts an address without waiting for data",
               "addresses are written before the start register and are multiples of 128",
               "the start register is raised again if it is lowered while a frame runs"]

READ_BURSTS, WRITE_BURSTS = 196608, 131072
START = 0xFFFFFFFF


def bus(s, reads, writes, axi=None):
    """register accesses of the DMA block while the memory works"""
    aw = s.source(["i_daw_addr"], [(w[0] << 2,) for w in writes], valid="i_daw_valid", ready="o_daw_ready")
    wd = s.source(["i_dw_data", "i_dw_strb"], [(w[1], 15) for w in writes], valid="i_dw_valid", ready="o_dw_ready")
    b = s.sink(["o_db_resp"], len(writes) + 1, valid="o_db_valid", ready="i_db_ready")
    ar = s.source(["i_dar_addr"], [(i << 2,) for i in reads], valid="i_dar_valid", ready="o_dar_ready")
    rs = s.sink(["o_dr_data", "o_dr_resp"], len(reads) + 1, valid="o_dr_valid", ready="i_dr_ready")
    n = s.run([aw, wd, ar], [b, rs], 40 * (len(reads) + len(writes)) + 60, axi=axi)
    for k in ("i_daw_valid", "i_dw_valid", "i_db_ready", "i_dar_valid", "i_dr_ready"):
        s.set(k, 0)
    bb, rr = s.records(b), s.records(rs)
    if len(bb) != len(writes) or len(rr) != len(reads) or any(x[0] for x in bb) or any(x[1] for x in rr):
        raise Violation("register accesses of the DMA block: %d of %d writes, %d of %d reads answered, %r %r" % (
            len(bb), len(writes), len(rr), len(reads), bb, rr))
    return [x[0] for x in rr]


def pack64(w):
    k = len(w) // 4 * 4
    e = np.asarray(w[:k], np.uint64).reshape(-1, 4)
    return (e[:, 0] << np.uint64(48)) | (e[:, 1] << np.uint64(32)) | (e[:, 2] << np.uint64(16)) | e[:, 3]


def memory_image(pix, seed, extra):
    """two pixels in each half of a word, the high half first; rubbish in the other bits and behind the frame"""
    n = len(pix) // 4
    r = np.random.RandomState(seed)
    m = np.frombuffer(r.bytes(8 * (n + 1 + extra)), np.uint64).copy()
    p = np.asarray(pix[:4 * n], np.uint64).reshape(-1, 4)
    q = (p[:, 0] << np.uint64(32)) | (p[:, 1] << np.uint64(44)) | p[:, 2] | (p[:, 3] << np.uint64(12))
    m[:n] = (m[:n] & np.uint64(0xFF000000FF000000)) | q
    if len(pix) % 4:
        m[n] = (m[n] & np.uint64(0xFF000000FFFFFFFF)) | np.uint64(int(pix[-2]) << 32 | int(pix[-1]) << 44)
    return m


def judge(a, raddr, waddr, exp, what):
    """what was transferred up to now; exp: the words of the stream"""
    if a.bad:
        raise Violation("%s: cycle %d: %s" % (what, a.bad_cycle, a.BAD[a.bad]))
    ar, aw, w = a.captured()
    for x, base, t, lim in ((ar, raddr, "read", READ_BURSTS), (aw, waddr, "write", WRITE_BURSTS)):
        e = (np.uint64(base) + np.uint64(0x80) * np.arange(len(x), dtype=np.uint64)) & np.uint64(0xFFFFFFFF)
        k = np.nonzero(x != e)[0]
        if len(k):
            raise Violation("%s: %s burst %d goes to %#x, expected %#x" % (what, t, k[0], x[k[0]], e[k[0]]))
        n = a.nar if t == "read" else a.naw
        if n > lim:
            raise Violation("%s: %d bursts are %s, the region has %d" % (what, n, "read" if t == "read" else "written", lim))
    e = pack64(exp)
    n = min(len(w), len(e))
    k = np.nonzero(w[:n] != e[:n])[0]
    if len(k):
        raise Violation("%s: word %d written is %#x, expected %#x" % (what, k[0], w[k[0]], e[k[0]]))
    if len(w) > len(e):
        # what follows the last whole word: the rest of the stream
        tail = [int(x) for x in exp[len(e) * 4:]]
        got = [int(w[len(e)]) >> s & 0xFFFF for s in (48, 32, 16, 0)]
        if got[:len(tail)] != tail:
            raise Violation("%s: the last word written is %#x, the stream ends in %r" % (what, w[len(e)], tail))
    return len(w)


def parts(tier, seed):
    q = tier == "quick"
    d, shipped = cfgs.build_all([("fullaxi", {"axi": True}), ("fullaxi", {})])
    core.ref()

    def start(s, c, raddr, waddr, a, what):
        w = [(0x400, raddr), (0x401, waddr)]
        if c["swap"]:
            w.reverse()
        for x in c["before"]:
            w.append((0x402, x))
        bus(s, [], w, a)
        if a.nar or a.naw or a.par or a.paw or a.pw:
            raise Violation("%s: the memory is accessed before the start" % what)
        bus(s, [], [(0x402, START)], a)

    def status(s, a, raddr, waddr, what):
        n0, m0 = a.nar, a.naw
        v = bus(s, [0x404, 0x405, 0x406, 0x407], [], a)
        n1, m1 = a.nar, a.naw
        for x, lo, hi, t in ((v[2], n0, n1, "read"), (v[3], m0, m1, "write")):
            if not lo <= x <= hi:
                raise Violation("%s: the %s count register reads %d, %d to %d bursts were started" % (what, t, x, lo, hi))
        for x, b, lo, hi, t in ((v[0], raddr, n0, n1, "read"), (v[1], waddr, m0, m1, "write")):
            if not lo <= (x - b) % 2 ** 32 / 0x80 <= hi:
                raise Violation("%s: the %s address register reads %#x after %d to %d bursts from %#x" % (what, t, x, lo, hi, b))

    def finish(s, a, raddr, waddr, exp, what, limit, pause=0, extra=700):
        n = s.run([], [], limit, stop_idle=6000 + pause, extra=extra, axi=a)
        if not a.ends:
            k = judge(a, raddr, waddr, exp, what)
            if n >= limit:
                return False
            raise Violation("%s: stops after %d of %d words, %d read bursts" % (what, k, len(pack64(exp)), a.nar))
        return True

    def ended(a, raddr, waddr, exp, what):
        """at the end of a frame"""
        k = judge(a, raddr, waddr, exp, what)
        miss = -(-len(exp) // 4) - k
        if miss > 0:
            if miss > 52:
                raise Violation("%s: %d of %d words are not written when the frame has ended" % (what, miss, k + miss))
            fw.finding("end-of-frame-lost", "%s: the last %d of %d words are not written" % (what, miss, k + miss))
        elif a.bad_after:
            raise Violation("%s: after the last word of the core: %s" % (what, a.BAD[a.bad_after]))

    def frame(c):
        s = d.new()
        s.init()
        s.reset()
        nb = 10 ** 9
        torn = False
        t = gen.table(c["table"], 12)
        w, h = c["wh"]
        # the settings of the core
        core.set_regs(s, w, h, 0xFFFFFF, t if c["table"] else None, 12)
        for k, f in enumerate(c["frames"]):
            what = "frame %d (%dx%d)" % (k, w, h)
            pix = gen.image(f["img"], w * h, w, 12)
            exp = core.marked_words(np.asarray(pix), w, 12, t)
            raddr, waddr = f["raddr"], f["waddr"]
            m = memory_image(np.asarray(pix), f["seed"], 2000)
            e = [gen.expand(f[x]) for x in ("ar", "r", "aw", "w", "b")]
            a = s.memory(m, raddr, len(m) // 16 + 200, len(exp) // 64 + 40, e, f["rlat"], f["blat"], f["limit"],
                         end=("o_fvalid", "o_fend", "o_fbusy"))
            start(s, f, raddr, waddr, a, what)
            dens = min(gen.density(f[x]) for x in ("ar", "r", "aw", "w", "b"))
            bud = int((w * h + 20 * len(exp)) * (6 + 4 / dens)) + (a.rlat + a.blat) * (w * h // 64 + len(exp) // 64 + 20) + 30000
            pause = gen.gap(*[f[x] for x in ("ar", "r", "aw", "w", "b")])
            bud += 2 * pause
            for n, action in f["meanwhile"]:
                s.run([], [], n, axi=a)
                if a.ends:
                    break
                try:
                    if action == "status":
                        status(s, a, raddr, waddr, what)
                    else:
                        bus(s, [], [(0x402, action)], a)
                        n0 = (a.nar, a.naw)
                        s.run([], [], 60, axi=a)
                        if a.nar > n0[0] + 1 or a.naw > n0[1] + 1:
                            raise Violation("%s: bursts are started while the start register is %#x" % (what, action))
                        bus(s, [], [(0x402, START)], a)
                except Violation:
                    if not a.ends:                    # the end of the frame resets the registers
                        raise
                if a.ends:
                    torn = True                       # also in the middle of an access
                    break
            if not a.ends and not finish(s, a, raddr, waddr, exp, what, bud, pause):
                return None
            ended(a, raddr, waddr, exp, what)
            nb = min(nb, a.nar, a.naw)
            if torn:
                break
            # between the frames; the memory is idle again
            s.run([], [], 200)
            for x in ("arready", "rvalid", "awready", "wready", "bvalid"):
                s.set("i_" + x, 0)
            s.run([], [], 50)
        return ["frame%d" % len(c["frames"])] if nb >= 2 else None

    def whole(c):
        s = shipped.new()
        s.init()
        s.reset()
        w, h = 4096, 3072
        pix = core.photo(c["seed"], w, h)
        exp = core.marked_words(pix, w, 12, gen.table(None, 12))
        m = memory_image(pix, c["seed"], 100)
        a = s.memory(m, c["raddr"], READ_BURSTS + 2000, len(exp) // 64 + 40, c["pats"], c["rlat"], c["blat"], c["limit"],
                     end=("o_fvalid", "o_fend", "o_fbusy"))
        what = "default frame"
        start(s, {"swap": 0, "before": []}, c["raddr"], c["waddr"], a, what)
        for _ in range(3):
            s.run([], [], c["chunk"], axi=a)
            status(s, a, c["raddr"], c["waddr"], what)
        if not finish(s, a, c["raddr"], c["waddr"], exp, what, 9000000):
            raise Violation("%s: not finished after nine million cycles" % what)
        ended(a, c["raddr"], c["waddr"], exp, what)
        return ["4096x3072"]

    def region(c):
        """a stream larger than the region for it"""
        s = d.new()
        s.init()
        s.reset()
        w, h = 4096, 3072
        r = np.random.RandomState(c["seed"])
        pix = r.randint(0, 4096, w * h).astype(np.uint16)
        exp = core.marked_words(pix, w, 12, gen.table(None, 12))
        core.set_regs(s, w, h, 0xFFFFFF)
        a = s.memory(memory_image(pix, 1, 100), c["raddr"], READ_BURSTS + 2000, WRITE_BURSTS + 2000, c["pats"], 3, 3, 8,
                     end=("o_fvalid", "o_fend", "o_fbusy"))
        start(s, {"swap": 0, "before": []}, c["raddr"], c["waddr"], a, "noise")
        s.run([], [], 16000000, stop_idle=6000, axi=a)
        k = judge(a, c["raddr"], c["waddr"], exp, "noise")
        if k != 16 * WRITE_BURSTS:
            raise Violation("noise: %d words of a stream of %d are written, the region has room for %d" % (
                k, len(exp) // 4, 16 * WRITE_BURSTS))
        return ["region"]

    addr = st.one_of(st.integers(0, 2 ** 25 - 1).map(lambda x: x << 7), st.sampled_from([0, 0x18000000, 0x1FFFFF80, 0xFFF000]))

    def fr():
        return st.fixed_dictionaries({
            "img": gen.image_spec(), "seed": st.integers(0, 2 ** 31), "raddr": addr, "waddr": addr,
            "ar": gen.ready_pattern(), "r": gen.bits_pattern(), "aw": gen.ready_pattern(), "w": gen.ready_pattern(),
            "b": gen.bits_pattern(), "rlat": st.sampled_from([0, 0, 1, 3, 20, 60]), "blat": st.sampled_from([0, 0, 1, 3, 20, 60]),
            "limit": st.sampled_from([1, 2, 3, 8, 15]), "swap": st.integers(0, 1),
            "before": st.lists(st.sampled_from([0, 1, 0x7FFFFFFF, 0xFFFFFFFE, 0xFFFF]), max_size=2),
            "meanwhile": st.lists(st.tuples(st.one_of(st.integers(0, 400), st.integers(0, 4000)), st.sampled_from(
                ["status", "status", 0, 1, 0xFFFFFFFE])), max_size=3)})

    def case(maxpix):
        return st.fixed_dictionaries({"wh": gen.geometry(2, maxpix), "table": gen.table_spec(),
                                      "frames": st.lists(fr(), min_size=1, max_size=2)})

    def case_g(maxpix):
        g = gen.gap_pattern()
        slow = st.tuples(fr(), st.fixed_dictionaries({}, optional={k: g for k in ("ar", "r", "aw", "w", "b")})).map(
            lambda x: dict(x[0], **x[1]))
        return st.fixed_dictionaries({"wh": gen.geometry(2, maxpix), "table": gen.table_spec(),
                                      "frames": st.lists(slow, min_size=1, max_size=2)})
    big = [{"seed": seed * 5 + 1, "raddr": 0x18000000, "waddr": 0x1B000000, "pats": [[], [], [], [], []], "rlat": 20,
            "blat": 10, "limit": 8, "chunk": 10000}]
    if not q:
        big += [{"seed": seed * 5 + 2 + i, "raddr": 0xF9FFF80 + 0x80 * i, "waddr": 0x1EFFFF80, "limit": 3 + i,
                 "pats": [[1, 0], [1] * (30 + i) + [0], [0, 0, 1], [1] * 20 + [0] * 3, [1, 0, 0]], "rlat": 3, "blat": 30 * i,
                 "chunk": 99991 * (i + 1)} for i in range(6)]
    return [Part("frames", case(1500), frame, 2500 if q else 40000),
            Part("frames_with_long_pauses", case_g(1500), frame, 150 if q else 4000),
            Part("large_frames", case(60000), frame, 120 if q else 2500, weight=3),
            Part("write_region", [{"seed": seed, "raddr": 0x8000000, "waddr": 0xA000000, "pats": [[], [], [], [], []]}], region, 1,
                 shards=1, weight=9),
            Part("default_frame", big, whole, len(big), shards=len(big), weight=10)]
