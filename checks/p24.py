"""P24: the hardware test tool (xilinx_test) and the test file generators."""
import fcntl
import mmap
import os
import re
import shutil
import subprocess
import tempfile

import numpy as np
from hypothesis import strategies as st

import core
import fw
import gen
import prods
import rtl
import sw
from fw import Part, Violation
from p23 import DMA, MM2S, S2MM

PROPERTY = "P24"
RULE = ("Case: whole runs of the compiled tool with generated raw12 files, reference files and destination contents, for "
        "the 32 and 64 bit layouts, with and without AXI-lite, against models of the DMA and the register block; the "
        "destination is what a faultless core would write, or differs from it in one bit, in its markers or is not "
        "written at all. Oracle: the source memory holds every pixel in its documented place; the verdicts are those of a "
        "byte by byte comparison. Also runs where the real Beta netlist is fed the source memory and writes the "
        "destination, and runs of the file generators. Non-trivial: all.")
ASSUMPTIONS = ["the reference file has at least 256 bytes (a 4096x3072 image cannot be smaller), the raw file is complete",
               "the end marker lies within 128 bytes of the end of the data"]

W, H = 4096, 3072
RAW = W * H * 3 // 2
MEM = 0x2000000


class World:
    """DMA, register block and memories around one run of the tool"""

    def __init__(self, cfg, on_start):
        self.cfg, self.on_start = cfg, on_start
        self.dma = DMA()
        self.dma.start(cfg["dma"])
        self.regs = {}
        self.core_accesses = 0
        self.began = False
        self.starts = {MM2S: [], S2MM: []}
        self.bad = None

    def is_core(self, a):
        return self.cfg["axi"] <= a < self.cfg["axi"] + 0x10000

    def read(self, a, n):
        if self.cfg["dma"] <= a < self.cfg["dma"] + 0x10000:
            return self.dma.read(a, n)
        if self.is_core(a) and n == 4:
            self.core_accesses += 1
            o = (a - self.cfg["axi"]) >> 2
            return self.regs.get(o, 0)
        raise Violation("the tool reads %#x" % a)

    def write(self, a, n, v):
        if self.cfg["dma"] <= a < self.cfg["dma"] + 0x10000:
            for c in self.dma.ch.values():
                c.started = []
            self.dma.write(a, n, v)
            for k, c in self.dma.ch.items():
                self.starts[k] += c.started
            if not self.began and all(self.starts.values()):
                self.began = True
                self.on_start(self)
                self.dma.finish = {MM2S: self.cfg["polls"][0] + 1, S2MM: self.cfg["polls"][1] + 1}
            return
        if self.is_core(a) and n == 4:
            self.core_accesses += 1
            o = (a - self.cfg["axi"]) >> 2
            if o not in (0x800, 0x801):
                raise Violation("the tool writes register %#x of the core" % o)
            if self.began:
                raise Violation("the tool changes the core's settings after starting the transfer")
            self.regs[o] = v
            return
        raise Violation("the tool writes %#x" % a)

    def sleep(self, us):
        self.dma.sleep(us)

    def mapped(self, base, n):
        pass


def file_of(path, data):
    with open(path, "wb") as f:
        f.write(data)


def source_image(raw, bits, n):
    """the source memory for the first n pixels of the raw12 file"""
    b = np.frombuffer(raw, np.uint8, n * 3 // 2).reshape(-1, 3).astype(np.uint64)
    p = np.empty(n, np.uint64)
    p[0::2] = (b[:, 0] << np.uint64(4)) | (b[:, 1] >> np.uint64(4))
    p[1::2] = ((b[:, 1] & np.uint64(15)) << np.uint64(8)) | b[:, 2]
    if bits == 64:
        q = p.reshape(-1, 4)
        return p, (q[:, 0] << np.uint64(52)) | (q[:, 1] << np.uint64(40)) | (q[:, 2] << np.uint64(28)) | (q[:, 3] << np.uint64(16))
    q = p.reshape(-1, 2)
    return p, ((q[:, 0] << np.uint64(20)) | (q[:, 1] << np.uint64(8))).astype(np.uint32)


def raw_bytes(spec):
    """contents of a raw12 file: kind, seed, extra bytes at the end"""
    kind, seed, extra = spec
    r = np.random.RandomState(seed)
    if kind == "random":
        a = np.frombuffer(r.bytes(RAW + extra), np.uint8)
    elif kind == "walk":                                          # every position distinguishable
        a = ((np.arange(RAW + extra, dtype=np.uint64) * 0x9E3779B97F4A7C15 + seed) >> 32).astype(np.uint8)
    elif kind == "ff":
        a = np.full(RAW + extra, 0xFF, np.uint8)
    else:
        a = np.zeros(RAW + extra, np.uint8)
        k = r.randint(0, RAW, 5000)
        a[k] = r.randint(0, 256, 5000)
    return a.tobytes()


def swap16(b):
    if len(b) % 2:
        b = b + b"\0"
    a = np.frombuffer(b, np.uint8).reshape(-1, 2)
    return a[:, ::-1].tobytes()


START = b"\xff" * 16
END = {"normal": b"\xff" * 16, "force": b"\xfe\xff" * 8}


def parts(tier, seed):
    q = tier == "quick"
    tmp = tempfile.mkdtemp(dir=rtl.workdir())
    base = dict(DMA_BASE="0x40400000u", SOURCE_BASE="0x10000000", DEST_BASE="0x12000000", AXI_LITE_BASE="0x83C00000u",
                CORE_BIT_DEPTH=12)
    cfgs_ = []
    for i, (bits, lite, dbg) in enumerate([(64, 1, 1), (32, 1, 0), (64, 0, 1), (32, 0, 0)]):
        m = dict(base, INPUT_LENGTH=bits, AXI_LITE_ENABLE=lite, DEBUG_REG_ENABLE=dbg)
        if i:
            m.update(DMA_BASE="0x%xu" % (0x40400000 + i * 0x10000), AXI_LITE_BASE="0x%xu" % (0x43C00000 + i * 0x10000),
                     SOURCE_BASE="0x%x" % (0x10000000 + i * 0x4000000), DEST_BASE="0x%x" % (0x20000000 + i * 0x2000000))
        cfgs_.append(m)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        exes = list(ex.map(lambda i: sw.build(tmp, cfgs_[i], "tool%d" % i), range(len(cfgs_))))

    def run_tool(ci, raw, ref, dest_fn, stale=b"", polls=(0, 0), rawlen=None):
        """-> (printed text, world, source memory). dest_fn(world, source) -> bytes written to the destination"""
        m = cfgs_[ci]
        cfg = dict(dma=int(m["DMA_BASE"][:-1], 16), axi=int(m["AXI_LITE_BASE"][:-1], 16), polls=polls,
                   src=int(m["SOURCE_BASE"], 16), dst=int(m["DEST_BASE"], 16), bits=m["INPUT_LENGTH"])
        d = tempfile.mkdtemp(dir=tmp)
        fds = []
        maps = []
        p = None
        try:
            file_of(d + "/a.raw12", raw)
            file_of(d + "/b.lj92", ref)
            for k in ("src", "dst"):
                f = os.open(d + "/" + k, os.O_RDWR | os.O_CREAT)
                g = fcntl.fcntl(f, fcntl.F_DUPFD, 100)
                os.close(f)
                fds.append(g)
                os.ftruncate(g, MEM)
                maps.append(mmap.mmap(g, MEM))
            src, dst = maps
            if stale:
                dst[:len(stale)] = stale

            def started(w):
                out = dest_fn(w, src)
                dst[:len(out)] = out
            w = World(cfg, started)
            p = sw.Proc(exes[ci], w, [d + "/a.raw12", d + "/b.lj92"],
                        [(cfg["src"], MEM, fds[0]), (cfg["dst"], MEM, fds[1])], seconds=120)
            w.dma.limit = 2000
            try:
                rc = p.call()
            except sw.Ended as e:
                if e.rc < 0:
                    raise Violation("the tool crashes (signal %d): ...%s" % (-e.rc, e.text[-200:]))
                return e.text, w, None, e.rc
            p.p.wait()
            return p.printed(), w, None, int(rc, 16)
        finally:
            if p is not None:
                p.close()
            for x in maps:
                x.close()
            for f in fds:
                os.close(f)
            shutil.rmtree(d)

    def judge_setup(ci, w, n):
        m = cfgs_[ci]
        src, dst = int(m["SOURCE_BASE"], 16), int(m["DEST_BASE"], 16)
        if w.starts[MM2S] != [(src, W * H * 2)]:
            raise Violation("the input is transferred as %r, expected %d bytes at %#x once" % (w.starts[MM2S], W * H * 2, src))
        if len(w.starts[S2MM]) != 1 or w.starts[S2MM][0][0] != dst or not n + 33 <= w.starts[S2MM][0][1] <= MEM:
            raise Violation("the output (%d bytes and markers) is transferred as %r, expected one transfer to %#x" % (
                n, w.starts[S2MM], dst))
        if m["AXI_LITE_ENABLE"]:
            e = {0x800: W << 16 | H, 0x801: 0xFFFFFF}
            if w.regs != e:
                raise Violation("the core is set up as %r, expected %r" % (w.regs, e))
        elif w.core_accesses:
            raise Violation("AXI-lite is disabled but the tool accesses the core")

    def judge_text(t, first, last, equal, what, odd_tail=False):
        """last: None or (kind, offset); odd_tail: the only difference is the last byte of a stream of odd length.
        Returns the deviations that are listed as known findings; the caller raises them when all else is judged."""
        known = []
        i, j, k = t.find("Check for first marker."), t.find("Check for last marker."), t.find("Validate data.")
        if not 0 <= i < j < k:
            raise Violation("%s: the tool prints %r" % (what, t[-300:]))
        f, l, v = t[i:j], t[j:k], t[k:]
        if (("No marker found" not in f and "marker found." in f), "No marker found." in f) != (first, not first):
            raise Violation("%s: the first marker is %s, the tool says %r" % (
                what, "there" if first else "not there", f.split("\n")[1]))
        g = re.findall(r"(normal|force) marker found - offset is (\d+)", l)
        if last is None:
            if g or "No marker found." not in l:
                raise Violation("%s: there is no end marker, the tool says %r" % (what, l.split("\n")[1]))
        elif last[0] == "force" and not g and "No marker found." in l:
            known.append(Violation("%s: a forced end marker lies %d bytes after the data, the tool says %r" % (
                what, last[1], l.split("\n")[1]), key="forced-end-marker-not-recognised"))
        elif g != [(last[0], str(last[1]))] or "No marker found." in l:
            raise Violation("%s: a %s end marker lies %d bytes after the data, the tool says %r" % (
                what, last[0], last[1], l.split("\n")[1]))
        if odd_tail and ("Validation succeeded." in v, "Validation failed" in v) == (True, False):
            known.append(Violation("%s: the output differs from the reference in the last byte, the tool says %r" % (
                what, v.split("\n")[1]), key="last-byte-of-odd-reference-not-compared"))
        elif ("Validation succeeded." in v, "Validation failed" in v) != (equal, not equal):
            raise Violation("%s: the output is %s the reference, the tool says %r" % (
                what, "equal to" if equal else "different from", v.split("\n")[1]))
        return known

    def report(known):
        """raises a deviation of the kinds in judge_text (one that is not listed first)"""
        for k in sorted(known, key=lambda k: k.key in fw.KNOWN):
            raise k

    def case():
        rawspec = st.tuples(st.sampled_from(["random", "walk", "ff", "sparse"]), st.integers(0, 1 << 30),
                            st.sampled_from([0, 0, 0, 1, 2, 100, 4096]))
        n = st.one_of(st.integers(256, 400), st.integers(256, 70000), st.sampled_from([256, 257, 258, 259, 4096, 4097]),
                      st.integers(3000000, 3000100), st.integers(16000000, 19000000))
        where = st.one_of(st.integers(0, 1 << 26), st.integers(-12, -1), st.integers(0, 12))
        change = st.one_of(st.just(["none"]), st.just(["none"]),
                           st.tuples(st.just("bit"), where, st.integers(0, 7)),
                           st.tuples(st.just("bit"), where, st.integers(0, 7)),
                           st.tuples(st.just("start"), st.integers(0, 15), st.integers(0, 7)),
                           st.tuples(st.just("end"), st.integers(0, 15), st.integers(0, 7)),
                           st.tuples(st.just("gap"), st.integers(0, 120), st.integers(0, 1 << 20)),
                           st.tuples(st.just("noend")), st.tuples(st.just("stale"), st.sampled_from([0, 16, 100, 1 << 30])))
        return st.fixed_dictionaries({"cfg": st.integers(0, 3), "raw": rawspec, "n": n, "seed": st.integers(0, 1 << 30),
                                      "kind": st.sampled_from(["normal", "normal", "force"]), "change": change,
                                      "tail": st.sampled_from([0, 0, 1]),
                                      "polls": st.tuples(st.integers(0, 20), st.integers(0, 20))})

    def run(c):
        raw = raw_bytes(c["raw"])
        r = np.random.RandomState(c["seed"])
        ref = bytearray(r.bytes(c["n"]))
        # a stream as the core makes them: no 0xFF is followed by anything but 0x00 (the byte after may be anything)
        a = np.frombuffer(ref, np.uint8)
        ff = np.nonzero(a[:-1] == 0xFF)[0]
        a[ff + 1] = 0
        if a[-1] == 0xFF:
            a[-1] = 0x7F
        if c["tail"]:
            a[-1] = 0                                             # ends in a zero byte
        n = len(ref)
        data = bytearray(swap16(bytes(ref)))
        n2 = len(data)
        ch = c["change"]
        kind, end, first, equal = c["kind"], bytearray(END[c["kind"]]), bytearray(START), True
        last = (kind, n2 - n)
        gap = b""
        odd = False
        if ch[0] == "bit":
            k = ch[1] % n                                         # byte of the stream
            data[k ^ 1] ^= 1 << ch[2]
            equal = False
            # the flipped byte can neither make nor break an end marker found after the data
            if n % 2 and k == n - 1 and data[-1] == 0xFF:
                return None
            odd = n % 2 == 1 and k == n - 1
        elif ch[0] == "start":
            first[ch[1]] ^= 1 << ch[2]
        elif ch[0] == "end":
            end[ch[1]] ^= 1 << ch[2]
            last = None
        elif ch[0] == "gap":
            gap = bytes(np.random.RandomState(ch[2]).randint(0, 0xF0, ch[1], dtype=np.uint8))
            last = (kind, n2 - n + ch[1])
        elif ch[0] == "noend":
            end, last = b"", None
        mem = bytes(first) + bytes(data) + gap + bytes(end) + b"\0" * 200
        stale = b""
        if ch[0] == "stale":
            # the output of an earlier run is in the memory; this time the core stops early
            stale = mem
            cut = min(ch[1], len(mem)) if ch[1] < 1 << 30 else 0
            mem = mem[:cut]
            full = mem + b"\0" * (16 + n2 + 16 - len(mem))
            equal = full[16:16 + n2] == bytes(data)
            last = None
            first = full[:16]
            if equal:
                return None
        whole = {}

        def dest(w, src):
            _, e = source_image(raw, cfgs_[c["cfg"]]["INPUT_LENGTH"], W * H)
            s = np.frombuffer(src, e.dtype, len(e))
            bad = np.nonzero(s != e)[0]
            whole["src"] = None if len(bad) == 0 else (int(bad[0]), int(s[bad[0]]), int(e[bad[0]]), len(bad))
            del s
            return mem
        t, w, _, rc = run_tool(c["cfg"], raw, bytes(ref), dest, stale, tuple(c["polls"]))
        if "src" not in whole:
            raise Violation("the tool ends (%s) without transferring anything: %r" % (rc, t[-300:]))
        if rc:
            raise Violation("the tool ends with %d: %r" % (rc, t[-300:]))
        if whole["src"]:
            raise Violation("source word %d is %#x, the raw12 file makes it %#x (%d words differ)" % whole["src"])
        judge_setup(c["cfg"], w, n)
        report(judge_text(t, bytes(first) == START, last, equal, "%d bytes, %s end, change %s" % (n, kind, list(ch)), odd))
        return [ch[0], kind, "%dbit" % cfgs_[c["cfg"]]["INPUT_LENGTH"], "odd" if n % 2 else "even", c["raw"][0]]

    # ------------------------------------------------------------------------------------- the core in the loop
    P = prods.build(["beta_fifo_axistream"])
    D = prods.build(["beta_axistream"])

    def case_e():
        return st.fixed_dictionaries({"cfg": st.sampled_from([0, 2, 1]), "raw": st.tuples(
            st.sampled_from(["random", "walk", "sparse"]), st.integers(0, 1 << 30), st.just(0)),
            "rows": st.integers(1, 3), "cut": st.one_of(st.just(0), st.integers(1500, 6000)), "v": gen.bits_pattern(),
            "r": gen.ready_pattern()})

    def run_e(c):
        bits = cfgs_[c["cfg"]]["INPUT_LENGTH"]
        p = P["beta_fifo_axistream"] if bits == 64 else D["beta_axistream"]
        raw = raw_bytes(c["raw"])
        n = W * c["rows"]
        pix, _ = source_image(raw, bits, n)
        t = gen.table(None, 12)
        stream = core.stuffed_words(pix, W, 12, t)
        ref = b"".join(int(x).to_bytes(2, "big") for x in stream)
        st_ = {}

        def dest(w, src):
            a = np.frombuffer(src, np.uint64 if bits == 64 else np.uint32, n * 2 // (bits // 8)).astype(np.uint64)
            s = p.fresh()
            core.set_regs(s, W, c["rows"], c["cut"] or 0xFFFFFF)
            items = a.reshape(-1, 1)
            if bits == 32:
                l = np.zeros((len(a), 1), np.uint64)
                l[-1] = 1
                items = np.concatenate([items, l], 1)
            so = p.source(s, items, c["v"])
            sk = p.sink(s, len(stream) + 200, c["r"])
            s.run([so], [sk], core.budget(len(items), len(stream), c["v"], c["r"]), stop_lasts=1, stop_idle=3500)   # (the DMA stops at tlast)
            p.quiet(s)
            g = core.raw_records(sk)[:, 0]
            st_["n"] = len(g)
            st_["forced"] = len(g) >= 8 and bool((g[-8:] == 0xFFFE).all())
            return g.astype("<u2").tobytes()
        txt, w, _, rc = run_tool(c["cfg"], raw, ref, dest)
        what = "the core's own output for %d rows%s" % (c["rows"], ", %d cycles allowed" % c["cut"] if c["cut"] else "")
        if not st_.get("forced"):
            report(judge_text(txt, True, ("normal", 0), True, what))
            return ["normal", "%dbit" % bits]
        # cut off: what came out is a beginning of the stream, then the forced end
        m = st_["n"] - 16
        ok = m == len(stream)
        known = []
        if ok:
            known += judge_text(txt, True, ("force", 0), True, what)
        elif "Validation succeeded" in txt:
            raise Violation("%s: only %d of %d words came out and the tool reports success" % (what, m, len(stream)))
        # the same output compared with a reference of just that length
        ref2 = ref[:2 * m]
        if len(ref2) >= 256:
            txt, w, _, rc = run_tool(c["cfg"], raw, ref2, dest)
            known += judge_text(txt, True, ("force", 0), True, what + ", compared with the stream up to there")
        report(known)
        return ["forced", "%dbit" % bits]

    # ------------------------------------------------------------------------------------- bad arguments
    def run_a(c):
        d = tempfile.mkdtemp(dir=tmp)
        try:
            w = World(dict(dma=0x40400000, axi=0x83C00000, polls=(0, 0)), lambda w: None)
            args = []
            for k, a in enumerate(c["args"]):
                f = "%s/%d" % (d, k)
                if a is not None:
                    with open(f, "wb") as g:
                        g.truncate(a)
                args.append(f)
            fds = []
            mem = []
            for k, b in enumerate((0x10000000, 0x12000000)):
                f = os.open(d + "/m%d" % k, os.O_RDWR | os.O_CREAT)
                g = fcntl.fcntl(f, fcntl.F_DUPFD, 100)
                os.close(f)
                os.ftruncate(g, MEM)
                fds.append(g)
                mem.append((b, MEM, g))
            p = sw.Proc(exes[0], w, args, mem, seconds=60)
            try:
                p.call()
                rc = 0
            except sw.Ended as e:
                rc = e.rc
            finally:
                p.close()
                for f in fds:
                    os.close(f)
            if rc <= 0 or w.began:
                raise Violation("with files of %r bytes the tool ends with %d%s" % (
                    c["args"], rc, " after starting a transfer" if w.began else ""))
            return ["refused"]
        finally:
            shutil.rmtree(d)
    bad = [{"args": x} for x in ([], [RAW], [RAW, 1000, 1000], [None, 1000], [RAW, None], [RAW - 1, 1000], [0, 1000],
                                 [RAW, 0], [1000, RAW])]

    # ------------------------------------------------------------------------------------- file generators
    def run_g(c):
        d = tempfile.mkdtemp(dir=tmp)
        try:
            f = d + "/x.raw12"
            if c["what"] == "generate":
                r = []
                for _ in range(2):
                    if c["old"] is not None:
                        file_of(f, b"z" * c["old"])
                    sw_run("file_generator.py", [f])
                    r.append(open(f, "rb").read())
                for b in r:
                    if len(b) != 4096 * 10 * 3 // 2:
                        raise Violation("file_generator.py makes %d bytes, 4096x10 pixels of 12 bits are 61440" % len(b))
                    k = np.bincount(np.frombuffer(b, np.uint8), minlength=256)
                    if k.min() < 60 or k.max() > 600:              # each 240 on average
                        raise Violation("file_generator.py: the bytes are not random (%d..%d of each)" % (k.min(), k.max()))
                if r[0] == r[1]:
                    raise Violation("file_generator.py makes the same file again")
            else:
                n = c["size"]
                org = np.random.RandomState(c["seed"]).bytes(n)
                file_of(f, org)
                k = min(c["keep"], n)
                sw_run("file_shrinker.py", [f, str(k)])
                b = open(f, "rb").read()
                if b != org[:k]:
                    raise Violation("file_shrinker.py: the first %d of %d bytes are asked for, %d bytes are left%s" % (
                        k, n, len(b), "" if len(b) != k else ", different ones"))
            if sorted(os.listdir(d)) != ["x.raw12"]:
                raise Violation("%s leaves files behind: %r" % (c["what"], os.listdir(d)))
            return [c["what"]]
        finally:
            shutil.rmtree(d)

    def sw_run(name, args):
        r = subprocess.run([rtl.PYPY, "-B", sw.REPO + "/test_files/" + name] + args, capture_output=True, text=True,
                           env=rtl.ENV, timeout=120)
        if r.returncode:
            raise Violation("%s %s fails: %s" % (name, args[1:], r.stderr[-300:]))
    gcase = st.one_of(
        st.fixed_dictionaries({"what": st.just("generate"), "old": st.sampled_from([None, 10, 100000])}),
        *[st.fixed_dictionaries({"what": st.just("shrink"), "size": st.one_of(st.integers(1, 300), st.integers(1, 200000)),
                                 "keep": st.one_of(st.integers(0, 300), st.integers(0, 200000)),
                                 "seed": st.integers(0, 1 << 30)})] * 3)

    edges = [{"cfg": i % 4, "raw": ["sparse", i, 0], "n": n, "seed": i, "kind": "normal", "change": ["bit", k, i % 8],
              "tail": 0, "polls": [0, 0]}
             for i, (n, k) in enumerate((n, k) for n in (300, 301, 302, 303) for k in (-1, -2, -3, -4, -5, 0))]
    return [Part("tool", case(), run, 160 if q else 3000, weight=3),
            Part("first_and_last_bytes", edges, run, len(edges)),
            Part("core_in_the_loop", case_e(), run_e, 24 if q else 400, weight=2),
            Part("bad_arguments", bad, run_a, len(bad), shards=4),
            Part("file_generators", gcase, run_g, 48 if q else 600)]
