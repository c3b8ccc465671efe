"""liblj92 under test (P19 to P21): builds it with the sanitizers, talks to the harness process, and an independent
T.81 lossless encoder and decoder (plain Python, any predictor, component count and table)."""
import array
import glob
import os
import random
import shutil
import signal
import struct
import subprocess
import tempfile

from fw import Violation

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]
SAN = ["-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
ERRORS = {-1, -2, -3, -4, -5}


def build(tmp, fuzz=False, opt="-O1", slow=False):
    """slow: the library's other Huffman decoder (#define SLOW_HUFF)"""
    out = os.path.join(tmp, "ljfuzz" if fuzz else "ljslow" if slow else "ljh")
    cmd = ["clang", opt, "-include", "stdint.h", "-I", REPO + "/liblj92"] + SAN
    if slow:
        cmd += ["-DSLOW_HUFF"]
    if fuzz:
        cmd += ["-DFUZZ", "-fsanitize=fuzzer"]
    cmd += sorted(glob.glob(REPO + "/liblj92/*.c")) + [HERE + "/ljharness.c", "-o", out] + WRAP
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Violation("liblj92 does not compile: " + r.stderr[-800:], key="build")
    return out


def san_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0:max_allocation_size_mb=6000:quarantine_size_mb=16:malloc_context_size=4:max_malloc_fill_size=1048576:malloc_fill_byte=165"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    return e


def crash_summary(err):
    """what the sanitizer said, without addresses"""
    import re
    lines = err.split("\n")
    what = "crash"
    for l in lines:
        if "runtime error:" in l:
            what = re.sub(r"^.*/", "", l)
            break
        if "ERROR: AddressSanitizer" in l:
            what = re.sub(r"0x[0-9a-f]+", "0x..", l.split("ERROR: ")[1])
            break
        if "HARNESS-TIMEOUT" in l:
            what = "the call did not return in time"
            break
        if "FUZZ-ORACLE" in l:
            what = l
            break
        if "deadly signal" in l:
            what = l
    fn = ""
    for l in lines:
        m = re.search(r"#\d+ 0x[0-9a-f]+ in (\w+) .*lj92\.c:(\d+)", l)
        if m:
            fn = "%s (lj92.c:%s)" % (m.group(1), m.group(2))
            break
    return (what[:200] + (" in " + fn if fn else "")).strip()


class Lib:
    """a harness process; restarted after a crash"""

    def __init__(self, exe, seconds=30):
        self.exe, self.seconds, self.p, self.pid = exe, seconds, None, None

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe, str(self.seconds)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=san_env())
        self.pid = os.getpid()

    def stop(self):
        if self.p is not None and self.pid == os.getpid():
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
        self.p = None

    def _ask(self, head, blobs, what):
        if self.p is None or self.pid != os.getpid():
            self.p = None
            self.start()
        try:
            self.p.stdin.write(struct.pack("<12i", *(head + [0] * (12 - len(head)))))
            for b in blobs:
                self.p.stdin.write(b)
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass
        o = self._read(48)
        if o is None:
            self.crashed(what)
        return struct.unpack("<12i", o)

    def _read(self, n):
        out = b""
        while len(out) < n:
            b = self.p.stdout.read(n - len(out))
            if not b:
                return None
            out += b
        return out

    def crashed(self, what):
        self.p.wait()
        self.err.seek(0)
        e = self.err.read().decode("utf-8", "replace")
        self.stop()
        s = crash_summary(e)
        raise Violation("%s: %s" % (what, s), key="crash: " + s)

    def decode(self, data, wl=0, sl=0, lin=None, cap=1 << 24, fail_at=-1, what="decode"):
        lin = array.array("H", lin or [])
        o = self._ask([1, fail_at, len(data), wl, sl, len(lin), cap], [data, lin.tobytes()], what)
        r = dict(zip("ret_open ret w h bits comps changed repeat too_big live n allocs".split(), o))
        r["target"] = array.array("H")
        if r["n"]:
            t = self._read(2 * r["n"])
            if t is None:
                self.crashed(what)
            r["target"].frombytes(t)
        if r["changed"]:
            raise Violation("%s: the caller's input buffer was changed" % what, key="input changed")
        if r["live"]:
            raise Violation("%s: %d blocks of the library are still allocated after close" % (what, r["live"]), key="leak")
        if r["repeat"]:
            raise Violation("%s: a second decode of the same handle gives another result" % what, key="repeat")
        if r["ret"] not in ERRORS and r["ret"] != 0:
            raise Violation("%s: return value %d is not a status" % (what, r["ret"]))
        return r

    def encode(self, img, w, h, bd, rl=0, sl=0, delin=None, fail_at=-1, what="encode"):
        img = img if isinstance(img, array.array) else array.array("H", img)
        d = array.array("H", delin or [])
        o = self._ask([2, fail_at, len(img), w, h, bd, rl, sl, len(d)], [img.tobytes(), d.tobytes()], what)
        out = b""
        if o[0] == 0:
            out = self._read(o[10])
            if out is None:
                self.crashed(what)
        if o[9]:
            raise Violation("%s: %d blocks of the library are still allocated" % (what, o[9]), key="encode leak")
        if o[0] not in ERRORS and o[0] != 0:
            raise Violation("%s: return value %d is not a status" % (what, o[0]))
        return o[0], out, o[11]


    def large(self, w, h, bd, decode):
        """(status, bytes, status of decoding, image differs) for a nearly constant image made by the harness"""
        o = self._ask([3, -1, w, h, bd, decode], [], "image of %dx%d" % (w, h))
        if o[9]:
            raise Violation("image of %dx%d: %d blocks are still allocated" % (w, h, o[9]), key="encode leak")
        return o[:4]


# ---------------------------------------------------------------------------------------------- T.81, lossless
def predict(pred, P, x, i, row, col, w, c):
    """x: interleaved samples (w*c per row), i: index of the sample"""
    if row == 0:
        return x[i - c] if col else 1 << (P - 1)
    rb = x[i - w * c]
    if col == 0:
        return rb
    ra, rc = x[i - c], x[i - w * c - c]
    if pred == 1:
        return ra
    if pred == 2:
        return rb
    if pred == 3:
        return rc
    if pred == 4:
        return ra + rb - rc
    if pred == 5:
        return ra + ((rb - rc) >> 1)
    if pred == 6:
        return rb + ((ra - rc) >> 1)
    if pred == 7:
        return (ra + rb) >> 1
    raise ValueError(pred)


def differences(x, w, h, c, P, pred):
    out = []
    i = 0
    for row in range(h):
        for col in range(w):
            for _ in range(c):
                d = (x[i] - predict(pred, P, x, i, row, col, w, c)) & 0xFFFF
                out.append(d - 0x10000 if d > 0x8000 else d)
                i += 1
    return out


def image_of(w, h, c, P, pred, spec):
    """spec: [kind, seed]; kinds: diff (chosen differences), uniform, const, extremes, wide (all 16 bits)"""
    kind, seed = spec
    r = random.Random(seed)
    m = (1 << P) - 1
    n = w * h * c
    if kind == "const":
        return [r.choice((0, m, r.getrandbits(P), 1 << (P - 1)))] * n
    if kind == "uniform":
        return [r.getrandbits(P) for _ in range(n)]
    if kind == "extremes":
        v = (0, m, 1 << (P - 1), 1)
        return [r.choice(v) for _ in range(n)]
    if kind == "ramp":
        s, b = r.randrange(-9, 10), r.getrandbits(P)
        return [(b + s * i) & m for i in range(n)]
    pool = []
    k = r.randrange(1, 8)
    for _ in range(k):
        s = r.randrange(0, P + 1)
        pool += {0: [0], 1: [(1 << s) - 1], 2: [-((1 << s) - 1)], 3: [1 << s >> 1], 4: [-(1 << s >> 1)], 5: [r.randrange(1 << s)],
                 6: [-r.randrange(1 << s)], 7: list(range(-2, 3))}[r.randrange(8)]
    if P == 16 and r.randrange(2):
        pool += [0x8000, 0x7FFF][:r.randrange(1, 3)]
    x = []
    for row in range(h):
        for col in range(w):
            for _ in range(c):
                d = r.choice(pool)
                x.append(0)
                x[-1] = (predict(pred, P, x, len(x) - 1, row, col, w, c) + d) & 0xFFFF & m
    return x


def canonical(bits, vals):
    """T.81 C.2: {symbol: (code, length)}"""
    out = {}
    code = k = 0
    for ln in range(1, 17):
        for _ in range(bits[ln]):
            out[vals[k]] = (code, ln)
            code += 1
            k += 1
        code <<= 1
    return out


def random_table(seed, symbols, maxlen=16, ones=False, extra=0):
    """BITS, HUFFVAL with a code for each symbol (and `extra` more); the all-ones code stays unused unless `ones`"""
    r = random.Random(seed)
    syms = list(symbols)
    others = [s for s in range(17) if s not in syms]
    r.shuffle(others)
    syms += others[:extra]
    r.shuffle(syms)
    n = len(syms) + (0 if ones else 1)
    if n == 1:
        lens = [r.randrange(1, maxlen + 1)]
    else:
        leaves = [0]
        skew = r.randrange(4)
        while len(leaves) < n:
            cand = [i for i, l in enumerate(leaves) if l < maxlen]
            if skew == 0:
                i = min(cand, key=lambda i: leaves[i])
            elif skew == 1:
                i = max(cand, key=lambda i: leaves[i])
            else:
                i = r.choice(cand)
            l = leaves.pop(i)
            leaves += [l + 1, l + 1]
        lens = sorted(leaves)
        if r.randrange(4) == 0:        # incomplete: some codes longer than needed
            lens = sorted(min(maxlen, l + r.randrange(3)) for l in lens)
    if not ones and n > 1:
        lens = lens[:-1]               # the last one is (a prefix of) the all-ones code
    bits = [0] * 17
    for l in lens:
        bits[l] += 1
    return bits, syms


def bitstring(diffs, codes):
    out = []
    for d in diffs:
        s = 16 if d == 0x8000 else abs(d).bit_length()
        code, n = codes[s]
        v, t = code, n
        if 0 < s < 16:
            v = v << s | (d if d > 0 else d + (1 << s) - 1)
            t += s
        out.append(format(v, "0%db" % t))
    return "".join(out)


def stuffed(bits, pad="1"):
    bits += pad * (-len(bits) % 8)
    b = int(bits, 2).to_bytes(len(bits) // 8, "big") if bits else b""
    return b.replace(b"\xff", b"\xff\x00")


def seg(marker, body, fill=0):
    return b"\xff" * fill + bytes([0xFF, marker]) + struct.pack(">H", len(body) + 2) + body


def stream(x, w, h, c, P, pred, bits, vals, tid=0, order=0, extra=(), fill=0, ids=None, pad="1", scan=None, eoi=True, tail=b""):
    """a conforming stream; order bit 0: SOF before DHT; extra: (position 0-3, marker, body) segments"""
    dht = seg(0xC4, bytes([tid]) + bytes(bits[1:17]) + bytes(vals), fill)
    ids = ids or list(range(c))
    sof = seg(0xC3, struct.pack(">BHHB", P, h, w, c) + b"".join(bytes([i, 0x11, 0]) for i in ids), fill)
    sos = seg(0xDA, bytes([c]) + b"".join(bytes([i, tid << 4]) for i in ids) + bytes([pred, 0, 0]), fill)
    segs = [sof, dht] if order & 1 else [dht, sof]
    out = [b"\xff\xd8"]
    for pos in range(3):
        out += [seg(m, b, fill) for p, m, b in extra if p == pos]
        if pos < 2:
            out.append(segs[pos])
    out.append(sos)
    if scan is None:
        scan = stuffed(bitstring(differences(x, w, h, c, P, pred), canonical(bits, vals)), pad)
    out.append(scan)
    if eoi:
        out.append(b"\xff\xd9")
    return b"".join(out) + tail


class Bad(Exception):
    pass


def parse(data):
    """an independent, strict decoder: dict with w, h, c, P, pred, bits, vals, samples"""
    if data[:2] != b"\xff\xd8":
        raise Bad("no SOI")
    i, r = 2, {}
    while True:
        if data[i] != 0xFF:
            raise Bad("no marker at %d" % i)
        while data[i + 1] == 0xFF:
            i += 1
        m = data[i + 1]
        ln = struct.unpack(">H", data[i + 2:i + 4])[0]
        b = data[i + 4:i + 2 + ln]
        if len(b) != ln - 2:
            raise Bad("segment cut off")
        i += 2 + ln
        if m == 0xC3:
            r["P"], r["h"], r["w"], r["c"] = struct.unpack(">BHHB", b[:6])
            if len(b) != 6 + 3 * r["c"]:
                raise Bad("SOF3 length")
        elif m == 0xC4:
            r["bits"] = [0] + list(b[1:17])
            r["vals"] = list(b[17:])
            if len(r["vals"]) != sum(r["bits"]):
                raise Bad("DHT: %d codes, %d values" % (sum(r["bits"]), len(r["vals"])))
            if sum(n << (16 - l) for l, n in enumerate(r["bits"]) if l) > 65535:
                raise Bad("DHT: over-subscribed, or the code of all ones is used")
            if len(set(r["vals"])) != len(r["vals"]):
                raise Bad("DHT: a value twice")
            if b[0] >> 4 or (b[0] & 15) > 3:
                raise Bad("DHT: class or destination %#x" % b[0])
        elif m == 0xDA:
            if b[0] != r["c"] or len(b) != 4 + 2 * r["c"]:
                raise Bad("SOS")
            r["pred"] = b[1 + 2 * b[0]]
            if b[-2] or b[-1]:
                raise Bad("SOS: Se/Ah/Al")
            break
    e = data.find(b"\xff\xd9", i)
    if e < 0 or e + 2 != len(data):
        raise Bad("no EOI at the end")
    raw = data[i:e]
    if raw.replace(b"\xff\x00", b"").count(b"\xff"):
        raise Bad("marker in the scan")
    raw = raw.replace(b"\xff\x00", b"\xff")
    bits = format(int.from_bytes(raw, "big"), "0%db" % (8 * len(raw))) if raw else ""
    inv = {(n, c): s for s, (c, n) in canonical(r["bits"], r["vals"]).items()}
    w, h, c, P = r["w"], r["h"], r["c"], r["P"]
    x, pos, i = [], 0, 0
    hist = {}
    for row in range(h):
        for col in range(w):
            for _ in range(c):
                code = n = 0
                while (n, code) not in inv:
                    if n == 16 or pos >= len(bits):
                        raise Bad("no code at bit %d (sample %d)" % (pos, i))
                    code = code << 1 | (bits[pos] == "1")
                    pos += 1
                    n += 1
                s = inv[(n, code)]
                hist[s] = hist.get(s, 0) + 1
                if s == 0:
                    d = 0
                elif s == 16:
                    d = 0x8000
                else:
                    if pos + s > len(bits):
                        raise Bad("scan cut off")
                    d = int(bits[pos:pos + s], 2)
                    pos += s
                    if d < 1 << (s - 1):
                        d -= (1 << s) - 1
                x.append(0)
                x[-1] = (predict(r["pred"], P, x, i, row, col, w, c) + d) & 0xFFFF
                i += 1
    if len(bits) - pos > 7:
        raise Bad("%d bits after the last sample" % (len(bits) - pos))
    r["x"], r["hist"] = x, hist
    r["nbits"] = pos
    return r


def optimal_bits(hist):
    """fewest bits of Huffman codes for the histogram with the all-ones code left free (None if longer than 16)"""
    import heapq
    q = [(n, i, (s,)) for i, (s, n) in enumerate(sorted(hist.items()))] + [(0, 99, (-1,))]
    heapq.heapify(q)
    depth = {s: 0 for s in hist}
    depth[-1] = 0
    k = 100
    while len(q) > 1:
        a, b = heapq.heappop(q), heapq.heappop(q)
        for s in a[2] + b[2]:
            depth[s] += 1
        q_ = (a[0] + b[0], k, a[2] + b[2])
        k += 1
        heapq.heappush(q, q_)
    if max(depth.values()) > 16:
        return None
    return sum(hist[s] * depth[s] for s in hist)


def place(x, wl, sl, gap=0xA5C3):
    """x written wl values at a time with sl untouched ones in between"""
    if wl <= 0:
        return array.array("H", x)
    out = array.array("H")
    for i in range(0, len(x), wl):
        if i:
            out.extend([gap] * sl)
        out.extend(x[i:i + wl])
    return out


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vlj")
        self.pid = os.getpid()
        import atexit
        atexit.register(self.close)

    def close(self):
        if os.getpid() == self.pid:
            shutil.rmtree(self.dir, ignore_errors=True)
