"""P21: liblj92 never corrupts memory, whatever the input."""
import os
import random
import re
import subprocess

from hypothesis import strategies as st

import lj
from fw import Part, Violation

PROPERTY = "P21"
RULE = ("Cases against a build with AddressSanitizer and UndefinedBehaviorSanitizer, input and target buffers of exactly the right size: "
        "(a) conforming streams with mutations (bytes, header fields set to extreme values, cuts, insertions, repeated and dropped "
        "segments, overwritten tables), any write, skip and linearization arguments; (b) every prefix of conforming streams; "
        "(c) sequences of random marker segments; (d) allocation failures at every allocation; (e) encoder calls with odd "
        "arguments and values beyond the delinearization table; (f) coverage-guided fuzzing (libFuzzer) of decoder and encoder. "
        "After every case: a status code, input unchanged, no block left allocated, second decode equal, finished in time; a "
        "stream that ends before its last sample is never decoded successfully. Non-trivial: the case got past lj92_open, or an allocation was "
        "failed, or the encoder ran.")
ASSUMPTIONS = ["write length and skip length are not negative", "the target holds width * height * components values plus the skips"]


def parts(tier, seed):
    q = tier == "quick"
    sc = lj.Scratch()
    exe = lj.build(sc.dir)
    fuzz = lj.build(sc.dir, fuzz=True)
    slow = lj.build(sc.dir, slow=True)
    libs = {}

    def lib(s=0):
        p = (os.getpid(), s)
        if p not in libs:
            libs[p] = lj.Lib(slow if s else exe, 20)
        return libs[p]

    def base(c):
        r = random.Random(c["seed"])
        w, h, n, P, pred = c["w"], c["h"], c["c"], c["P"], c["pred"]
        x = lj.image_of(w, h, n, P, pred, [c["kind"], c["seed"]])
        ds = lj.differences(x, w, h, n, P, pred)
        syms = sorted({16 if d == 0x8000 else abs(d).bit_length() for d in ds})
        bits, vals = lj.random_table(c["seed"], syms, extra=c["extra"])
        extra = [(c["seed"] % 3, 0xFE, bytes(r.randrange(256) for _ in range(c["seed"] % 9)))] if c["seed"] % 4 == 0 else []
        b = lj.bitstring(ds, lj.canonical(bits, vals))
        return lj.stream(x, w, h, n, P, pred, bits, vals, order=c["seed"] & 1, extra=extra, fill=c["seed"] % 5 == 0), len(b)

    MUT = [0, 2, 4, 4, 6, 6, 8, 10, 12, 12, 14, 16, 1, 5, 7, 13, 3, 15, 2]      # mostly behind the headers
    EXT = [0, 1, 2, 3, 7, 8, 15, 16, 17, 0x7F, 0x80, 0xFE, 0xFF]

    def mutate(b, muts):
        b = bytearray(b)
        for op, pos, val in muts:
            op = MUT[op]
            if not b:
                break
            head = b.find(b"\xff\xda")
            lim = max(1, (head + 16 if head >= 0 else len(b)) if op & 1 else len(b))
            i = pos % min(lim, len(b))
            if not op & 1 and head >= 0 and len(b) > head + 12 and op < 10:
                i = head + 8 + pos % (len(b) - head - 8)
            k = op >> 1
            if k == 0:
                b[i] = val & 255
            elif k == 1:
                b[i] = EXT[val % len(EXT)]
            elif k == 2:
                b[i] ^= 1 << (val & 7)
            elif k == 3:
                del b[i:i + 1 + val % 4]
            elif k == 4:
                b[i:i] = bytes([val & 255] * (1 + (val >> 8) % 3))
            elif k == 5:
                del b[len(b) - 1 - pos % len(b):]
            elif k == 6:                                          # a header field
                m = [0xC4, 0xC3, 0xDA, 0xFE][val % 4]
                j = b.find(bytes([0xFF, m]))
                if j >= 0:
                    o = j + 2 + pos % (24 if m == 0xC4 else 14)
                    if o < len(b):
                        b[o] = EXT[val // 4 % len(EXT)]
            elif k == 7:                                          # repeat a segment
                m = [0xC4, 0xC3, 0xDA, 0xD8][val % 4]
                j = b.find(bytes([0xFF, m]))
                if j >= 0:
                    b[i:i] = b[j:j + 2 + pos % 40]
            elif k == 8:
                b[i:] = bytes([val & 255]) * (pos % 300)
        return bytes(b)

    def args(c):
        r = random.Random(c["args"])
        wl = r.choice([0, 0, 1, 2, 3, c["w"], c["w"] * c["c"], r.randrange(1, 300)])
        sl = r.choice([0, 0, 1, r.randrange(20)])
        lin = None
        if r.randrange(3) == 0:
            lin = [r.randrange(65536)] * r.choice([1, 2, r.randrange(1, 70000), 1 << c["P"], 65536])
        return wl, sl, lin

    def run_mut(c):
        b, _ = base(c)
        b = mutate(b, c["muts"])
        wl, sl, lin = args(c)
        d = lib(c["seed"] % 7 == 0).decode(b, wl, sl, lin, cap=1 << 21, what="stream %s" % short(b))
        if d["ret_open"]:
            return None
        return ["opened", "decoded" if d["ret"] == 0 else "refused later"]

    def short(b):
        h = b.hex()
        return h if len(h) < 400 else h[:400] + "..."

    basec = dict(w=st.integers(1, 20), h=st.integers(1, 12), c=st.sampled_from([1, 1, 1, 2, 3, 4]), P=st.sampled_from(range(2, 17)),
                 pred=st.one_of(st.integers(1, 7), st.just(6)), kind=st.sampled_from(["diff", "uniform", "extremes"]),
                 seed=st.integers(0, 2 ** 32), extra=st.sampled_from([0, 0, 2, 12]), args=st.integers(0, 2 ** 32))
    mut = st.tuples(st.integers(0, 18), st.integers(0, 5000), st.integers(0, 65535)).map(list)
    mutc = st.fixed_dictionaries(dict(muts=st.lists(mut, min_size=1, max_size=6), **basec))

    # every prefix: no memory error, and never a success once coded bits are missing
    def run_cut(c):
        b, nbits = base(c)
        wl, sl, lin = args(c)
        lin = None
        e = b.rfind(b"\xff\xd9")
        s = b.find(b"\xff\xda")
        s += 2 + (b[s + 2] << 8 | b[s + 3])
        opened = 0
        for n in range(len(b)):
            d = lib(c["seed"] % 7 == 0).decode(b[:n], wl, sl, lin, what="the first %d of %d bytes of stream %s" % (n, len(b), short(b)))
            opened += d["ret_open"] == 0
            coded = 8 * len(b[s:n].replace(b"\xff\x00", b"\xff")) if n > s else 0
            if d["ret"] == 0 and coded < nbits and n < e:
                raise Violation("the first %d of %d bytes decode successfully, %d of %d bits of the scan are there (stream %s)" % (
                    n, len(b), coded, nbits, short(b)), key="truncated accepted")
        return ["prefixes"] if opened else None

    # a marker in the middle of the scan data: the samples behind it are missing
    def run_marker(c):
        b, nbits = base(c)
        s = b.find(b"\xff\xda")
        s += 2 + (b[s + 2] << 8 | b[s + 3])
        e = b.rfind(b"\xff\xd9")
        i = s + c["at"] % max(1, e - s)
        if i > s and b[i - 1] == 0xFF:
            i -= 1
        coded = 8 * len(b[s:i].replace(b"\xff\x00", b"\xff"))
        b = b[:i] + bytes([0xFF, c["m"]]) + bytes(c["junk"])
        d = lib().decode(b, 0, 0, what="stream %s" % short(b))
        if d["ret"] == 0 and coded < nbits:
            raise Violation("a scan that ends after %d of %d bits is decoded successfully (stream %s)" % (coded, nbits, short(b)),
                            key="truncated accepted")
        return ["marker in scan"] if d["ret_open"] == 0 else None

    markc = st.fixed_dictionaries(dict(at=st.integers(0, 3000), m=st.sampled_from([0xD9, 0xD9, 0xDA, 0xC4, 0x01, 0xFE]),
                                       junk=st.lists(st.integers(0, 255), max_size=40), **basec))

    # (c) sequences of segments
    def run_segs(c):
        r = random.Random(c["seed"])
        b = b"\xff\xd8"
        nc = r.choice([1, 1, 2, 3, 4, 5, 255])
        for m, n, fix in c["segs"]:
            if m == 0xC4 and fix:
                bl, v = lj.random_table(r.randrange(1 << 30), r.sample(range(17), r.randrange(1, 17)), ones=bool(r.randrange(2)))
                if fix == 2:
                    bl[r.randrange(1, 17)] += r.choice([1, 1, 5, 200])
                    bl = [min(255, k) for k in bl]
                if fix == 3:
                    v = v[:-1]
                body = bytes([r.randrange(4)]) + bytes(bl[1:]) + bytes(v)
            elif m == 0xC3 and fix == 5:
                body = bytes([r.randrange(2, 17), 0, r.randrange(1, 9), 0, r.randrange(1, 9), nc]) + bytes([0, 0x11, 0] * nc)
            elif m == 0xDA and fix == 5:
                body = bytes([nc]) + bytes([0, 0] * nc) + bytes([r.randrange(1, 8), 0, 0])
            elif m == 0xC3 and fix:
                k = r.choice([1, 1, 2, 3, 4])
                body = bytes([r.choice([2, 8, 12, 16, 16, 0, 1, 17, 255]), 0, r.choice([1, 2, 9, 0]), r.choice([0, 0, 0, 1, 255]), r.choice([1, 3, 30, 0]),
                              k if fix < 3 else r.randrange(256)]) + bytes([0, 0x11, 0] * k)
            elif m == 0xDA and fix:
                k = r.choice([1, 1, 2, 3, 4])
                body = bytes([k if fix < 3 else r.randrange(256)]) + bytes([0, 0] * k) + bytes([r.choice([1, 2, 3, 4, 5, 6, 6, 7, 0, 8, 255]), 0, 0])
            else:
                body = bytes(r.choice(EXT) for _ in range(n))
            ln = len(body) + 2
            if fix == 4:
                ln = r.choice([0, 1, 2, ln - 1, ln + 1, 65535])
            b += b"\xff" + bytes([m]) + bytes([ln >> 8 & 255, ln & 255]) + body
        b += bytes(r.choice([0xFF, 0, r.randrange(256)]) for _ in range(c["scan"]))
        d = lib(c["seed"] % 7 == 0).decode(b, c["wl"], c["sl"], [5] * c["lin"], cap=1 << 20, what="stream %s" % short(b))
        return None if d["ret_open"] else ["opened", "decoded" if d["ret"] == 0 else "refused later"]

    one = st.tuples(st.sampled_from([0xC4, 0xC3, 0xDA, 0xC4, 0xC3, 0xDA, 0xFE, 0xD8, 0xD9, 0x00, 0xFF, 0xDD]), st.integers(0, 30), st.integers(0, 4)).map(list)
    fine = st.tuples(st.just([0xC4, 0, 1]), st.just([0xC3, 0, 5]), st.just([0xDA, 0, 5])).map(list)
    good = st.tuples(st.just([0xC4, 0, 1]), st.just([0xC3, 0, 1]), st.lists(one, max_size=2), st.just([0xDA, 0, 1])).map(
        lambda t: [t[0], t[1]] + t[2] + [t[3]])
    segc = st.fixed_dictionaries({"segs": st.one_of(st.lists(one, max_size=7), good, fine, fine), "seed": st.integers(0, 2 ** 32), "scan": st.integers(0, 200),
                                  "wl": st.integers(0, 40), "sl": st.integers(0, 5), "lin": st.sampled_from([0, 0, 1, 300, 65536])})

    # (d) allocation failures
    def run_oom(c):
        if c["enc"]:
            w, h, P = c["w"], c["h"], c["P"]
            x = lj.image_of(w, h, 1, P, 6, [c["kind"], c["seed"]])
            delin = list(range(1 << P)) if c["args"] & 1 else None
            ret, ref, total = lib().encode(x, w, h, P, w, 0, delin)
            if ret:
                raise Violation("encode of a good image returns %d" % ret)
            for k in range(total):
                ret, out, _ = lib().encode(x, w, h, P, w, 0, delin, fail_at=k, what="encode with allocation %d of %d failing" % (k, total))
                if ret not in (0, -2):
                    raise Violation("encode with allocation %d failing returns %d" % (k, ret))
                if ret == 0 and out != ref:
                    raise Violation("encode with allocation %d failing gives another stream" % k)
        else:
            b, _ = base(c)
            if c["args"] & 1:                                      # table defined twice
                i = b.find(b"\xff\xc4")
                n = 2 + (b[i + 2] << 8 | b[i + 3])
                b = b[:i] + b[i:i + n] * 2 + b[i + n:]
            total = lib().decode(b)["allocs"]
            for k in range(total):
                d = lib().decode(b, fail_at=k, what="stream %s with allocation %d of %d failing" % (short(b), k, total))
                if d["ret"] not in (0, -2):
                    raise Violation("decode with allocation %d failing returns %d" % (k, d["ret"]))
        return ["allocation failures", "encoder" if c["enc"] else "decoder"]

    oomc = st.fixed_dictionaries(dict(enc=st.integers(0, 1), **basec))

    # (e) encoder arguments
    def run_enc(c):
        r = random.Random(c["seed"])
        w, h, bd = c["w"], c["h"], c["bd"]
        n = max(0, w) * max(0, h)
        m = (1 << min(16, max(1, bd))) - 1
        if n > 100000:
            n = 0                                                 # one that must be refused before it is read
        x = [r.getrandbits(16) & (0xFFFF if c["big"] else m) for _ in range(n)]
        if c["ffs"]:                                              # runs that code into 0xFF bytes
            v, x = 1 << (max(1, min(bd, 16)) - 1), []
            for i in range(n):
                x.append(v & 0xFFFF)
                v += c["ffs"] * (1 if i & 1 else -1) * (1 << r.randrange(16))
        delin = [r.getrandbits(16) & m for _ in range(c["dl"])] if c["dl"] else None
        data = lj.place(x, c["rl"], c["sl"])
        ret, out, _ = lib().encode(data, w, h, bd, c["rl"], c["sl"], delin, what="encode %r" % (c,))
        if ret == 0 and delin and any(v >= len(delin) for v in x):
            raise Violation("encode %r: a value beyond the delinearization table is not refused" % (c,), key="delinearize bound")
        return ["encoded"] if ret == 0 else ["refused"]

    odd = st.sampled_from([0] + [1] * 12).flatmap(lambda k: st.integers(1, 30) if k else st.sampled_from([0, -1, -65535, 65536, 70000]))
    depths = st.sampled_from([0] + [1] * 9).flatmap(lambda k: st.integers(2, 16) if k else st.sampled_from([0, 1, 17, 31, 32, 33, -1]))
    encc = st.fixed_dictionaries(dict(
        w=odd, h=odd, bd=depths, big=st.integers(0, 1), ffs=st.sampled_from([0, 0, 1, 3]),
        dl=st.one_of(st.just(0), st.integers(1, 70), st.sampled_from([4096, 65535, 65536])), rl=st.integers(1, 60), sl=st.integers(0, 9),
        seed=st.integers(0, 2 ** 32)))

    # (f) libFuzzer, from a corpus of conforming streams
    def corpus(d, r, n):
        os.makedirs(d)
        for i in range(n):
            c = {"w": r.randrange(1, 9), "h": r.randrange(1, 6), "c": r.choice([1, 1, 2, 4]), "P": r.randrange(2, 17), "pred": r.choice([6, r.randrange(1, 8)]),
                 "kind": "diff", "seed": r.randrange(1 << 32), "extra": r.choice([0, 5])}
            b, _ = base(c)
            with open(os.path.join(d, "s%d" % i), "wb") as f:
                f.write(bytes([0, 0, 0, 0, r.randrange(2), 255, 255, 0]) + b)
        for i in range(8):
            with open(os.path.join(d, "e%d" % i), "wb") as f:
                f.write(bytes([1 | r.randrange(128) << 1] + [r.randrange(256) for _ in range(r.randrange(8, 200))]))

    def run_fuzz(c):
        if "hex" in c:                                            # replay of one input
            f = os.path.join(sc.dir, "one_%d" % os.getpid())
            with open(f, "wb") as o:
                o.write(bytes.fromhex(c["hex"]))
            p = subprocess.run([fuzz, "-timeout=20", f], capture_output=True, text=True, errors="replace", env=lj.san_env())
            if p.returncode:
                raise Violation("fuzz input %s: %s" % (c["hex"][:200], lj.crash_summary(p.stderr)), key="crash: " + lj.crash_summary(p.stderr))
            return ["replayed"]
        d = os.path.join(sc.dir, "fz%d_%d" % (c["shard"], os.getpid()))
        corpus(d + "c", random.Random("%s/%s" % (c["seed"], c["shard"])), 24)
        os.makedirs(d)
        cmd = [fuzz, "-runs=%d" % c["runs"], "-seed=%d" % (c["seed"] * 16 + c["shard"] + 1), "-max_len=%d" % c["max_len"], "-timeout=20", "-rss_limit_mb=3000",
               "-max_total_time=%d" % c["seconds"], "-verbosity=0", "-print_final_stats=1", "-reload=0", "-artifact_prefix=" + d + "/", d + "c"]
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=lj.san_env())
        found = sorted(os.listdir(d))
        if p.returncode or found:
            if found:
                b = open(os.path.join(d, found[0]), "rb").read()
                # shrink with the fuzzer itself
                if not found[0].startswith("timeout"):
                    subprocess.run([fuzz, "-minimize_crash=1", "-runs=3000", "-max_total_time=10", "-exact_artifact_path=" + d + "/min", os.path.join(d, found[0])],
                                   capture_output=True, env=lj.san_env())
                    if os.path.exists(d + "/min"):
                        b = open(d + "/min", "rb").read()
                c.clear()
                c["hex"] = b.hex()
                raise Violation("fuzz input %s: %s" % (b.hex()[:300], lj.crash_summary(p.stderr)), key="crash: " + lj.crash_summary(p.stderr))
            raise RuntimeError("libFuzzer failed: " + p.stderr[-1500:])
        m = re.search(r"number_of_executed_units: *(\d+)", p.stderr)
        import shutil
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + "c", ignore_errors=True)
        n = int(m.group(1)) if m else 0
        return ["libFuzzer: %d or more executions" % (n // 1000 * 1000)]

    nf = 4 if q else 16
    fz = [{"shard": i, "seed": seed, "runs": 40000 if q else 4000000, "seconds": 40 if q else 900, "max_len": [400, 1200, 150, 5000][i % 4]} for i in range(nf)]
    return [
        Part("mutated streams", mutc, run_mut, 6000 if q else 300000, weight=3),
        Part("prefixes", st.fixed_dictionaries(basec), run_cut, 60 if q else 3000, weight=2),
        Part("marker in the scan", markc, run_marker, 1500 if q else 50000),
        Part("segments", segc, run_segs, 4000 if q else 200000, weight=2),
        Part("allocation failures", oomc, run_oom, 120 if q else 3000),
        Part("encoder arguments", encc, run_enc, 1500 if q else 60000, weight=2),
        Part("libFuzzer", fz, run_fuzz, len(fz), shards=nf, weight=9),
    ]
