"""P20: liblj92 decodes conforming lossless-JPEG streams of any origin."""
import glob
import os
import random

from hypothesis import strategies as st

import core
import gen
import lj
import prods
from fw import Part, Violation

PROPERTY = "P20"
RULE = ("Case: precision 2-16, 1-4 components, predictor 1-7, size, content, Huffman table (any code shape, codes up to 16 bits, unused "
        "codes, incomplete), segment order, fill bytes before markers, comments and application segments of any content, an "
        "earlier table with the same name, component and table names, padding bits, bytes after the end marker, write and skip "
        "length, linearization table. The stream is made by an independent encoder; the decoder must report the geometry and put "
        "exactly the samples where the arguments say. A second part puts the Beta and Micro cores' own streams behind a header. "
        "Non-trivial: more than one sample and at least two difference categories.")
ASSUMPTIONS = ["one scan with all components, one table, no restart intervals, point transform or subsampling "
               "(README of liblj92)", "linearization tables have an entry for every sample that occurs"]
DEFAULT = ([0, 0, 0, 7] + [1] * 10 + [0] * 3, [1, 2, 3, 4, 5, 6, 7, 0] + list(range(8, 17)))
OTHER = [0xE0, 0xE1, 0xEC, 0xEF, 0xFE, 0xFE, 0xDB, 0xF0]


def parts(tier, seed):
    q = tier == "quick"
    sc = lj.Scratch()
    exe = lj.build(sc.dir)
    slow = lj.build(sc.dir, slow=True)
    libs = {}

    def lib(s=0):
        p = (os.getpid(), s)
        if p not in libs:
            libs[p] = lj.Lib(slow if s else exe)
        return libs[p]

    def compare(data, x, w, h, c, P, wl, sl, lin, desc, slow=0):
        d = lib(slow).decode(data, wl, sl, lin)
        if d["ret_open"]:
            raise Violation("%s: open returns %d (stream %s)" % (desc, d["ret_open"], data[:64].hex()), key="open refuses")
        if (d["w"], d["h"], d["bits"], d["comps"]) != (w, h, P, c):
            raise Violation("%s: reported as %dx%d, %d bits, %d components" % (desc, d["w"], d["h"], d["bits"], d["comps"]))
        if d["ret"]:
            raise Violation("%s: decode returns %d" % (desc, d["ret"]), key="decode refuses")
        exp = lj.place([lin[v] for v in x] if lin else x, wl, sl)
        if d["target"] != exp:
            i = next(i for i in range(len(exp)) if d["target"][i] != exp[i])
            raise Violation("%s, write %d skip %d: target[%d] is %d, expected %d" % (desc, wl, sl, i, d["target"][i], exp[i]),
                            key="content")

    def run(case):
        w, h, c, P, pred = case["w"], case["h"], case["c"], case["P"], case["pred"]
        r = random.Random(case["seed"])
        x = lj.image_of(w, h, c, P, pred, case["x"])
        ds = lj.differences(x, w, h, c, P, pred)
        syms = sorted({16 if d == 0x8000 else abs(d).bit_length() for d in ds})
        bits, vals = lj.random_table(case["table"], syms, maxlen=16, extra=case["extra"])
        ex = []
        for k in case["segs"]:
            n = k % 37 if k % 5 else 0
            ex.append((k % 3, OTHER[k // 7 % len(OTHER)],
                       bytes(r.choice([0xFF, 0xC4, 0xC3, 0xDA, 0xD9, 0xD8, 0, r.randrange(256)]) for _ in range(n))))
        tid = case["tid"]
        if case["older"]:
            b2, v2 = lj.random_table(case["older"], r.sample(range(17), r.randrange(1, 6)))
            # one that the second definition replaces
            ex.insert(0, (0, 0xC4, bytes([tid]) + bytes(b2[1:]) + bytes(v2)))
        ids = r.sample(range(256), c) if case["ids"] else None
        data = lj.stream(x, w, h, c, P, pred, bits, vals, tid=tid, order=case["order"], extra=ex, fill=case["fill"], ids=ids,
                         pad=case["pad"], tail=bytes(r.randrange(256) for _ in range(case["tail"])))
        rowlen = w * c
        wl = {0: rowlen, 1: rowlen * h, 2: w, 3: 0}.get(case["wl"], case["wl"] - 3)
        sl = 0 if wl == 0 else case["sl"]
        lin = None
        if case["lin"]:
            lin = [r.randrange(65536) for _ in range(max(x) + 1 + (r.randrange(5) if case["lin"] > 1 else 0))]
        desc = "%dx%d, %d components, %d bits, predictor %d" % (w, h, c, P, pred)
        compare(data, x, w, h, c, P, wl, sl, lin, desc, case["slow"])
        if len(x) < 2 or len(syms) < 2:
            return None
        L = ["predictor%d" % pred, "components%d" % c]
        if ex:
            L.append("other segments")
        if case["older"]:
            L.append("table defined twice")
        if lin:
            L.append("linearized")
        if wl != rowlen or sl:
            L.append("tile")
        if 16 in syms:
            L.append("difference 32768")
        if max(i for i in range(17) if bits[i]) > 13:
            L.append("codes>13 bits")
        if case["slow"]:
            L.append("SLOW_HUFF")
        if case["tail"]:
            L.append("bytes after the end")
        return L

    dim = st.one_of(st.integers(1, 4), st.integers(1, 24))
    kinds = st.sampled_from(["diff", "diff", "diff", "uniform", "extremes", "ramp", "const"])
    case = st.fixed_dictionaries(dict(
        P=st.sampled_from(list(range(2, 17)) + [16, 16]), w=dim, h=dim, c=st.sampled_from([1, 1, 1, 2, 2, 3, 4, 4]),
        pred=st.integers(1, 7), x=st.tuples(kinds, st.integers(0, 2 ** 32)).map(list), seed=st.integers(0, 2 ** 32),
        table=st.integers(0, 2 ** 32), extra=st.sampled_from([0, 0, 1, 3, 9, 17]), segs=st.lists(st.integers(0, 10000), max_size=3),
        tid=st.sampled_from([0, 0, 1, 2, 3]), older=st.one_of(st.just(0), st.just(0), st.integers(1, 2 ** 32)),
        ids=st.integers(0, 1), order=st.integers(0, 1), fill=st.sampled_from([0, 0, 0, 1, 3]), pad=st.sampled_from("01"),
        tail=st.sampled_from([0, 0, 1, 2, 7]), wl=st.one_of(st.just(0), st.integers(0, 60)),
        sl=st.one_of(st.just(0), st.integers(0, 9)), lin=st.sampled_from([0, 0, 0, 1, 2]), slow=st.sampled_from([0, 0, 0, 0, 1])))

    # one-dimensional long images, all predictors and component counts
    def run_long(case):
        return run(dict(case, w=case["n"] if case["dir"] == 0 else 1, h=1 if case["dir"] == 0 else case["n"]))

    longc = case.flatmap(lambda d: st.builds(lambda n, k: dict(d, n=n, dir=k), st.sampled_from([255, 256, 1000, 4097]), st.integers(0, 1)))

    # ---- the cores' streams behind a header
    P2 = prods.build(["beta", "micro"])

    def core_case(c):
        p = P2[c["p"]]
        w, h = c["wh"]
        w -= w % 4
        w = max(w, 4)
        pix = gen.image(c["img"], w * h, w, 12)
        if c["table"]:
            bl, hv = lj.random_table(c["table"], range(13))
        else:
            bl, hv = DEFAULT
        t = [lj.canonical(bl, hv)[k] for k in range(13)]
        s = p.fresh()
        core.set_regs(s, w, h, 0xFFFFFF, t if c["table"] else None, 12)
        items = p.items(pix)
        src = p.source(s, items, c["v"], 1)
        exp_n = len(p.expected(pix, w, t))
        snk = p.sink(s, exp_n + 64, c["r"])
        s.run([src], [snk], core.budget(len(items), exp_n, c["v"], c["r"]), stop_lasts=1, stop_idle=3500)
        words = core.raw_records(snk)[:, 0]
        b = b"".join(int(v).to_bytes(2, "big") for v in words)
        if b[:16] != b"\xff" * 16 or b[-16:] != b"\xff" * 16:
            raise Violation("%s %dx%d: no start and end markers around the stream" % (c["p"], w, h))
        scan = b[16:-16]
        data = lj.stream(pix, w // 4, h, 4, 12, 1, bl, hv, scan=scan)
        compare(data, [int(v) for v in pix], w // 4, h, 4, 12, w, 0, None, "%s core, %dx%d" % (c["p"], w, h))
        return [c["p"], "own table" if c["table"] else "default table"]

    def mk(n):
        p = P2[n]
        return st.fixed_dictionaries({"p": st.just(n), "wh": gen.geometry(p.ps, 1500), "img": gen.image_spec(),
                                      "table": st.one_of(st.just(0), st.integers(1, 2 ** 32)), "v": gen.bits_pattern(), "r": gen.ready_pattern()})

    corecase = st.sampled_from(sorted(P2)).flatmap(mk)

    # ---- the sample files of the repository: each stream with a header is the raw12 file beside it
    samples = [{"file": os.path.basename(f)} for f in sorted(glob.glob(lj.REPO + "/test_files/*_pure.lj92"))]

    def run_sample(case):
        f = lj.REPO + "/test_files/" + case["file"]
        raw = open(f[:-len("_pure.lj92")], "rb").read()
        x = []
        for i in range(0, len(raw), 3):
            a, b, d = raw[i:i + 3]
            x += [a << 4 | b >> 4, (b & 15) << 8 | d]
        data = open(f, "rb").read()
        d = lib().decode(data)
        if d["ret"] or sorted(d["target"]) != sorted(x) or list(d["target"]) != x:
            raise Violation("%s does not decode to the raw12 file (status %d)" % (case["file"], d["ret"]))
        return ["sample"]

    return [
        Part("streams", case, run, 2500 if q else 80000, weight=3),
        Part("long rows and columns", longc, run_long, 60 if q else 2000, weight=2),
        Part("core streams", corecase, core_case, 300 if q else 8000, weight=3),
        Part("repository samples", samples, run_sample, len(samples)),
    ]
