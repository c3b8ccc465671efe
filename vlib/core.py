"""Running frames through the products and predicting what must come out."""
import ctypes
import os
import subprocess

import numpy as np

import gen
import model
import rtl
from fw import Violation

BEGIN = [0xFFFF] * 8
END = [0xFFFF] * 8
FEND = [0xFFFE] * 8

_ref = None


def ref():
    global _ref
    if _ref is None:
        so = os.path.join(rtl.workdir(), "ref_%d.so" % os.getpid())
        rtl.sh(["clang", "-O2", "-shared", "-fPIC", "-o", so, os.path.join(rtl.HERE, "ref.c")])
        _ref = ctypes.CDLL(so)
        _ref.ref_scan.restype = ctypes.c_uint64
        _ref.ref_stuff.restype = ctypes.c_uint64
    return _ref


def scan_bytes(pix, w, bd, table):
    """bytes of the scan (zero padded to a byte) and the exact number of bits"""
    n = len(pix)
    a = np.asarray(pix, dtype=np.uint16)
    code = np.array([c for c, l in table] + [0] * (17 - len(table)), dtype=np.uint64)
    ln = np.array([l for c, l in table] + [0] * (17 - len(table)), dtype=np.int32)
    out = np.zeros(n * 4 + 8, dtype=np.uint8)
    bits = ctypes.c_uint64()
    k = ref().ref_scan(a.ctypes.data_as(ctypes.c_void_p), ctypes.c_uint64(n), ctypes.c_uint64(w), bd,
                       code.ctypes.data_as(ctypes.c_void_p), ln.ctypes.data_as(ctypes.c_void_p),
                       out.ctypes.data_as(ctypes.c_void_p), ctypes.byref(bits))
    r = out[:k]
    if n <= 64:                                                       # cross-check of the two models
        s = model.scan_bits(list(map(int, pix)), w, bd, [tuple(x) for x in table] + [(0, 0)] * (17 - len(table)))
        assert len(s) == bits.value
        assert bytes(r) == bytes(model.pack(s, 8))
    return r, bits.value


def words_of(b, nb):
    """bytes -> big endian words of nb bytes, zero padded"""
    pad = (-len(b)) % nb
    if pad:
        b = np.concatenate([b, np.zeros(pad, np.uint8)])
    b = b.reshape(-1, nb).astype(np.uint64)
    v = np.zeros(len(b), np.uint64)
    for k in range(nb):
        v = (v << np.uint64(8)) | b[:, k]
    return v


def plain_words(pix, w, bd, table, out_bits):
    b, n = scan_bytes(pix, w, bd, table)
    return words_of(b, out_bits // 8)


def stuffed_words(pix, w, bd, table):
    b, n = scan_bytes(pix, w, bd, table)
    if len(b) % 2:
        b = np.concatenate([b, np.zeros(1, np.uint8)])
    out = np.zeros(2 * len(b) + 2, np.uint8)
    k = ref().ref_stuff(np.ascontiguousarray(b).ctypes.data_as(ctypes.c_void_p), ctypes.c_uint64(len(b)),
                        out.ctypes.data_as(ctypes.c_void_p))
    return words_of(out[:k], 2)


def marked_words(pix, w, bd, table):
    return np.concatenate([np.array(BEGIN, np.uint64), stuffed_words(pix, w, bd, table), np.array(END, np.uint64)])


def photo(seed, w, h):
    """smooth with edges and patches of noise; a default frame of it fits the default cycle budget"""
    r = np.random.RandomState(seed & 0x7FFFFFFF)
    n = w * h
    a = (np.cumsum(r.randint(-3, 4, n)) + r.randint(0, 4096)) % 4096
    k = r.randint(0, n, n // 300)
    a[k] = r.choice([0, 4095, 2048, 2047], len(k))
    k = r.randint(0, n, n // 2000)
    for i in range(12):
        a[np.minimum(k + i, n - 1)] = r.randint(0, 4096, len(k))
    return a.astype(np.uint16)


# ------------------------------------------------------------------------------------------------ AXI lite
REG_HW = 0x800
REG_CYC = 0x801
REG_TAB = 0x400


def axi_writes(sim, writes):
    """[(register index, data[, strobe])] -> responses"""
    n = len(writes)
    aw = sim.source(["i_aw_addr"], [(w[0] << 2,) for w in writes], valid="i_aw_valid", ready="o_aw_ready")
    wd = sim.source(["i_w_data", "i_w_strb"], [(w[1], w[2] if len(w) > 2 else 15) for w in writes], valid="i_w_valid",
                    ready="o_w_ready")
    b = sim.sink(["o_b_resp"], n, valid="o_b_valid", ready="i_b_ready")
    for _ in range(3):
        sim.run([aw, wd], [b], 40 * n + 100, stop_idle=24)
        break
    r = [x[0] for x in sim.records(b)]
    sim.set("i_aw_valid", 0)
    sim.set("i_w_valid", 0)
    sim.set("i_b_ready", 0)
    if len(r) != n:
        raise Violation("register writes: %d of %d were answered" % (len(r), n))
    return r


def axi_reads(sim, idx):
    n = len(idx)
    ar = sim.source(["i_ar_addr"], [(i << 2,) for i in idx], valid="i_ar_valid", ready="o_ar_ready")
    rs = sim.sink(["o_r_data", "o_r_resp"], n, valid="o_r_valid", ready="i_r_ready")
    sim.run([ar], [rs], 40 * n + 100, stop_idle=24)
    sim.set("i_ar_valid", 0)
    sim.set("i_r_ready", 0)
    r = sim.records(rs)
    if len(r) != n:
        raise Violation("register reads: %d of %d were answered" % (len(r), n))
    return r


def set_regs(sim, w=None, h=None, cyc=None, table=None, bd=None):
    wr = []
    if w is not None:
        wr.append((REG_HW, (w << 16) | h))
    if cyc is not None:
        wr.append((REG_CYC, cyc))
    if table is not None:
        for i, (c, l) in enumerate(table[:bd + 1]):
            e = gen.entry(i, c, l, bd)
            wr.append((REG_TAB + 2 * i, e & 0xFFFFFFFF))
            wr.append((REG_TAB + 2 * i + 1, e >> 32))
    r = axi_writes(sim, wr)
    if any(r):
        raise Violation("a register write was refused: %r" % (list(zip(wr, r)),))


# ------------------------------------------------------------------------------------------------ products
class Product:
    def __init__(self, design, bd, ps, out_bits, io, marked):
        self.design = design
        self.bd = bd
        self.ps = ps
        self.out_bits = out_bits
        self.io = io
        self.marked = marked
        self.base = None

    def fresh(self):
        """a sim after reset, with the default table and all registers zero"""
        if self.base is None:
            s = self.design.new()
            s.reset()
            self.base = s
        s = self.design.new()
        s.copy_from(self.base)
        return s

    def items(self, pix, junk=0):
        """input words for the pixels, (n, ports) uint64"""
        p = np.asarray(pix, dtype=np.uint64)
        k = self.io
        if k == "plain":
            return p.reshape(-1, self.ps)
        j = np.uint64(junk & 0xFF)
        if k == "axis2":                                      # beta axi stream
            q = p.reshape(-1, 2)
            d = (q[:, 0] << np.uint64(20)) | (q[:, 1] << np.uint64(8)) | j
            last = np.zeros(len(d), np.uint64)
            last[-1] = 1
            return np.stack([d, last], 1)
        if k == "axis1":                                      # micro axi stream
            d = p | (j << np.uint64(12)) | (j << np.uint64(24))
            last = np.zeros(len(d), np.uint64)
            last[-1] = 1
            return np.stack([d, last], 1)
        if k == "axis4":
            q = p.reshape(-1, 4)
            d = q[:, 0] | (q[:, 1] << np.uint64(12)) | (q[:, 2] << np.uint64(24)) | (q[:, 3] << np.uint64(36)) | (j << np.uint64(48))
            last = np.zeros(len(d), np.uint64)
            last[-1] = 1
            return np.stack([d, last], 1)
        if k == "fifo":                                       # 64 bit words, 2 x 24 bits used
            q = p.reshape(-1, 4)
            d = (q[:, 0] << np.uint64(52)) | (q[:, 1] << np.uint64(40)) | (q[:, 2] << np.uint64(28)) | (q[:, 3] << np.uint64(16)) | j
            return d.reshape(-1, 1)
        raise KeyError(k)

    def source(self, sim, items, pat, hold=1):
        k = self.io
        pat = gen.expand(pat)
        if k == "plain":
            return sim.source(["i_pixel%d" % i for i in range(self.ps)], items, valid="i_valid", ready="o_nready",
                              ready_inv=1, pat=pat, hold=hold)
        d = ["i_s_tdata"] if k == "fifo" else ["i_s_tdata", "i_s_tlast"]
        return sim.source(d, items, valid="i_s_tvalid", ready="o_s_tready", pat=pat, hold=hold)

    def sink(self, sim, cap, pat, monitor=1):
        pat = gen.expand(pat)
        if self.io == "plain":
            return sim.sink(["o_data", "o_end"], cap, valid="o_valid", ready="i_busy", ready_inv=1, pat=pat,
                            last="o_end", monitor=monitor)
        if "o_m_tlast" in sim.d.outputs:
            return sim.sink(["o_m_tdata", "o_m_tlast"], cap, valid="o_m_tvalid", ready="i_m_tready", pat=pat,
                            last="o_m_tlast", monitor=monitor)
        return sim.sink(["o_m_tdata"], cap, valid="o_m_tvalid", ready="i_m_tready", pat=pat, monitor=monitor)

    def quiet(self, sim):
        """nobody offers pixels any more"""
        sim.set("i_valid" if self.io == "plain" else "i_s_tvalid", 0)
        if self.io == "plain":
            sim.set("i_busy", 1)
        else:
            sim.set("i_m_tready", 0)

    def expected(self, pix, w, table):
        if self.marked:
            return marked_words(pix, w, self.bd, table)
        return plain_words(pix, w, self.bd, table, self.out_bits)


def raw_records(snk):
    a = np.frombuffer(snk._k1, dtype=np.uint64, count=snk.n * snk.stride)
    return a.reshape(-1, snk.stride)


def bad_stable(snk):
    if snk.bad_count:
        return "an offered word was %s before it was accepted (cycle %d)" % (
            "withdrawn" if (snk.bad_kind & 255) == 1 else "changed", snk.bad_cycle)
    return None


def budget(nin, nout, vp, rp):
    # only a safety valve: runs end with the last word, or when nothing moves for long
    return int(20 * (nin / gen.density(vp) + nout / gen.density(rp))) + 70 * nout + 6000


def one_frame(prod, sim, w, h, pix, table, vpat, rpat, hold=1, junk=0, extra=40, what="frame", cap_extra=64,
              stable=True):
    """Feeds one frame, checks everything that comes out.  The registers must already be set."""
    exp = prod.expected(pix, w, table)
    items = prod.items(pix, junk)
    src = prod.source(sim, items, vpat, hold)
    snk = prod.sink(sim, len(exp) + cap_extra, rpat)
    if not prod.marked:
        extra = 0
    sim.run([src], [snk], budget(len(items), len(exp), vpat, rpat), stop_lasts=1, extra=extra, stop_idle=3500)
    prod.quiet(sim)
    got = raw_records(snk)
    if src.pos != len(items):
        raise Violation("%s %dx%d: %d of %d inputs were accepted, %d words came out (%d expected)"
                        % (what, w, h, src.pos, len(items), len(got), len(exp)))
    check_words(got, exp, what="%s %dx%d" % (what, w, h), plain=not prod.marked)
    if stable:
        b = bad_stable(snk)
        if b:
            raise Violation("%s %dx%d: %s" % (what, w, h, b))
    return exp


def check_words(got, exp, what, plain=False):
    n = len(exp)
    g = got[:, 0]
    m = min(len(g), n)
    if not np.array_equal(g[:m], exp[:m]):
        k = int(np.nonzero(g[:m] != exp[:m])[0][0])
        raise Violation("%s: output word %d of %d is %#x, expected %#x" % (what, k, n, int(g[k]), int(exp[k])))
    if len(g) < n:
        raise Violation("%s: only %d of %d words came out" % (what, len(g), n))
    if len(g) > n:
        raise Violation("%s: %d words came out after the last of %d" % (what, len(g) - n, n))
    if got.shape[1] > 1:
        l = got[:, 1]
        if not l[n - 1]:
            raise Violation("%s: the last word is not flagged" % what)
        if l[:n - 1].any():
            raise Violation("%s: word %d of %d is flagged as last" % (what, int(np.nonzero(l)[0][0]), n))


def big_image(seed, w, h):
    """a large 12 bit frame: smooth areas, noise and extremes"""
    r = np.random.RandomState(seed & 0x7FFFFFFF)
    n = w * h
    a = (np.cumsum(r.randint(-3, 4, n)) + 2048) % 4096
    k = r.randint(0, n, n // 50)
    a[k] = r.choice([0, 4095, 2048, 2047], len(k))
    m = n // 3
    a[m:m + n // 20] = r.randint(0, 4096, n // 20)
    return a.astype(np.uint16)
