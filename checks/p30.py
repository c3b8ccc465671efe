"""P30: calls of liblj92 on different handles never influence each other, in any order and from any thread."""
import array
import os
import random
import signal
import struct
import subprocess

from hypothesis import strategies as st

import lj
from fw import Part, Violation

PROPERTY = "P30"
RULE = ("Case: up to five streams (conforming ones of every kind, cut and damaged ones), up to three images and three linearization tables (some too short), "
        "and two to five lists of calls: open, decode into an own tile of one shared image, decode again elsewhere or through "
        "another table, close, encode; several handles on one stream, handles open while others are opened, used and closed, "
        "calls whose allocations fail. Part `interleaved`: one thread, any order of the lists (AddressSanitizer); part `threads`: one thread per list "
        "(ThreadSanitizer). Every call must return what the same call returns alone: geometry and samples from the independent "
        "encoder, the shared image is exactly the tiles, every encoding of one image is the same and decodes to it, the inputs are unchanged, nothing stays allocated. "
        "Non-trivial: two handles were in use at once, or an encoding happened while a handle was in use.")
ASSUMPTIONS = ["one handle is used by one thread at a time", "tiles do not overlap",
               "a call whose allocation fails may return an error; its tile may then hold anything"]
OPEN, DECODE, CLOSE, ENCODE = 1, 2, 3, 4
GAP = 0xA5C3


def parts(tier, seed):
    q = tier == "quick"
    sc = lj.Scratch()

    def build(kind):
        out = os.path.join(sc.dir, "ljm_" + kind)
        cmd = ["clang", "-O1", "-g", "-include", "stdint.h", "-I", lj.REPO + "/liblj92",
               "-fsanitize=thread" if kind == "tsan" else "-fsanitize=address,undefined", "-fno-omit-frame-pointer"]
        if kind != "tsan":
            cmd.append("-fno-sanitize-recover=undefined")
        cmd += [lj.REPO + "/liblj92/lj92.c", lj.HERE + "/ljmulti.c", "-o", out, "-lpthread"] + lj.WRAP
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Violation("liblj92 does not compile: " + r.stderr[-800:], key="build")
        return out

    asan, tsan = build("asan"), build("tsan")
    empty = struct.pack("<6i", 0, 0, 0, 0, 0, 0)
    env = lj.san_env()
    env["TSAN_OPTIONS"] = "halt_on_error=1:report_signal_unsafe=0:exitcode=66"
    if subprocess.run([tsan], input=empty, capture_output=True, env=env).returncode:
        tsan = asan                                   # no ThreadSanitizer here; threads are still judged by their results

    def execute(exe, blob, desc):
        p = subprocess.run([exe], input=blob, capture_output=True, env=env)
        if p.returncode:
            e = p.stderr.decode("utf-8", "replace")
            if "ThreadSanitizer: data race" in e:
                import re
                m = re.search(r"#0 (\w+) .*lj92\.c:(\d+)", e)
                s = "data race" + (" in %s (lj92.c:%s)" % m.groups() if m else ": " + e[:400])
            elif p.returncode in (70, 71):
                raise RuntimeError("harness: %d" % p.returncode)
            else:
                s = lj.crash_summary(e)
            raise Violation("%s: %s" % (desc, s), key="crash: " + s)
        return p.stdout

    def run(c):
        r = random.Random(c["seed"])
        streams, images = [], []
        for s in c["streams"]:
            w, h, k, P, pred = s["w"], s["h"], s["c"], s["P"], s["pred"]
            x = lj.image_of(w, h, k, P, pred, s["x"])
            ds = lj.differences(x, w, h, k, P, pred)
            syms = sorted({16 if d == 0x8000 else abs(d).bit_length() for d in ds})
            bits, vals = lj.random_table(s["table"], syms, maxlen=16, extra=s["extra"])
            data = lj.stream(x, w, h, k, P, pred, bits, vals)
            good = True
            if s["bad"]:
                good = False
                a = random.Random(s["bad"])
                data = bytearray(data)
                if a.randrange(2):
                    del data[a.randrange(len(data)):]
                for _ in range(a.randrange(1, 4)):
                    if data:
                        data[a.randrange(len(data))] = a.choice([0, 1, 0xFF, 0xD8, a.randrange(256)])
                data = bytes(data)
            streams.append((data, good, w, h, k, P, x))
        for m in c["images"]:
            x = lj.image_of(m["w"], m["h"], 1, m["P"], 6, m["x"])
            images.append((m["w"], m["h"], m["P"], m["w"], m["sl"], x))
        tabs = [[r.randrange(65536) for _ in range(1 << 16)] if t == 1 else [(i * 77 + 3) & 0xFFFF for i in range(t or 1 << 16)] for t in c["tabs"]]
        # the lists of calls
        lists = []
        nslot = 0
        off_col = 0
        tiles = []
        for t, calls in enumerate(c["calls"]):
            L = []
            mine = []                                  # (slot, stream) open here
            for kind, a, b, f in calls:
                fa = f if c["faults"] else -1
                if kind == "open":
                    L.append([t, OPEN, nslot, a % len(streams), 0, 0, 0, -1, fa])
                    mine.append((nslot, a % len(streams)))
                    nslot += 1
                elif kind == "decode" and mine:
                    slot, s = mine[a % len(mine)]
                    _, good, w, h, k, P, x = streams[s]
                    lin = b % (len(tabs) + 1) - 1
                    L.append([t, DECODE, slot, s, off_col, w * k, -1, lin, fa])
                    off_col += w * k + b % 2
                    tiles.append(h)
                elif kind == "close" and mine:
                    slot, s = mine.pop(a % len(mine))
                    L.append([t, CLOSE, slot, s, 0, 0, 0, -1, -1])
                elif kind == "encode" and images:
                    L.append([t, ENCODE, 0, a % len(images), 0, 0, 0, -1, fa])
            for slot, s in mine:
                L.append([t, CLOSE, slot, s, 0, 0, 0, -1, -1])
            lists.append(L)
        # one order
        ops = []
        pos = [0] * len(lists)
        while any(p < len(l) for p, l in zip(pos, lists)):
            t = r.choice([t for t in range(len(lists)) if pos[t] < len(lists[t])])
            for _ in range(r.choice([1, 1, 1, 2, 5])):
                if pos[t] < len(lists[t]):
                    ops.append(lists[t][pos[t]])
                    pos[t] += 1
        stride = off_col + 1
        rows = max(tiles + [1])
        # a call that is not expected to work is only made as long as the handle exists: a stream that may not open
        # is opened, and its handle is then not used any more
        keep = []
        for o in ops:
            if o[1] in (DECODE, CLOSE) and not streams[o[3]][1]:
                continue
            o[6] = stride - o[5] if o[1] == DECODE else 0
            keep.append(o)
        ops = keep
        if c["faults"]:                                # handles whose open may fail: the harness cannot know; drop their use
            risky = {o[2] for o in ops if o[1] == OPEN and o[8] >= 0}
            ops = [o for o in ops if not (o[1] in (DECODE, CLOSE) and o[2] in risky)]
        leak_ok = c["faults"] or any(not s[1] for s in streams)
        blob = [struct.pack("<i", len(streams))]
        for s in streams:
            blob += [struct.pack("<i", len(s[0])), s[0]]
        blob.append(struct.pack("<i", len(images)))
        for w, h, P, rl, sl, x in images:
            d = lj.place(x, rl, sl)
            blob += [struct.pack("<7i", w, h, P, rl, sl, len(d), 0), d.tobytes()]
        blob.append(struct.pack("<i", len(tabs)))
        for t in tabs:
            blob += [struct.pack("<i", len(t)), array.array("H", t).tobytes()]
        n = stride * rows
        blob.append(struct.pack("<3i", n, len(lists) if c["threads"] else 0, len(ops)))
        for o in ops:
            blob.append(struct.pack("<9i", *o))
        desc = "%d calls in %d %s" % (len(ops), len(lists), "threads" if c["threads"] else "interleaved lists")
        out = execute(tsan if c["threads"] else asan, b"".join(blob), desc)
        # judge
        p = 0
        exp = array.array("H", [GAP]) * n
        free = set()
        encs = {}
        busy = set()
        both = False
        for i, o in enumerate(ops):
            ret, w, h, P, k, ln = struct.unpack_from("<6i", out, p)
            p += 24
            enc = out[p:p + ln]
            p += ln
            what = "%s: call %d (%s)" % (desc, i, "open decode close encode".split()[o[1] - 1])
            if o[1] == OPEN:
                data, good, ew, eh, ek, eP, x = streams[o[3]]
                if ret not in lj.ERRORS and ret != 0:
                    raise Violation("%s: %d is not a status" % (what, ret))
                if good and (ret == 0 or o[8] < 0):
                    if ret:
                        raise Violation("%s returns %d" % (what, ret), key="open refuses")
                    if (w, h, P, k) != (ew, eh, eP, ek):
                        raise Violation("%s: reported %dx%d, %d bits, %d components, but it is %dx%d, %d, %d" % (
                            what, w, h, P, k, ew, eh, eP, ek), key="geometry")
                both = both or bool(busy)
                busy.add(o[2])
            elif o[1] == CLOSE:
                busy.discard(o[2])
            elif o[1] == DECODE:
                data, good, ew, eh, ek, eP, x = streams[o[3]]
                short = o[7] >= 0 and max(x) >= len(tabs[o[7]])
                if short and ret == 0:
                    raise Violation("%s: accepted with a table that is too short" % what)
                if ret and o[8] < 0 and not short:
                    raise Violation("%s returns %d" % (what, ret), key="decode refuses")
                if ret:
                    free |= {o[4] + y * stride + z for y in range(eh) for z in range(o[5])}
                    continue
                v = [tabs[o[7]][a] for a in x] if o[7] >= 0 else x
                for y in range(eh):
                    exp[o[4] + y * stride:o[4] + y * stride + o[5]] = array.array("H", v[y * o[5]:(y + 1) * o[5]])
            else:
                both = both or bool(busy)
                if ret and o[8] < 0:
                    raise Violation("%s returns %d" % (what, ret), key="encode refuses")
                if ret == 0:
                    encs.setdefault(o[3], []).append(enc)
        left, = struct.unpack_from("<i", out, p)
        p += 4
        got = array.array("H")
        got.frombytes(out[p:p + 2 * n])
        p += 2 * n
        if got != exp:
            bad = [j for j in range(n) if got[j] != exp[j] and j not in free]
            if bad:
                j = bad[0]
                raise Violation("%s: the shared image has %d at row %d, column %d, expected %s" % (
                    desc, got[j], j // stride, j % stride, "nothing written" if exp[j] == GAP else exp[j]), key="content")
        for s in streams:
            if out[p:p + len(s[0])] != s[0]:
                raise Violation("%s: a stream was changed" % desc, key="input changed")
            p += len(s[0])
        for w, h, P, rl, sl, x in images:
            d = lj.place(x, rl, sl).tobytes()
            if out[p:p + len(d)] != d:
                raise Violation("%s: an image was changed" % desc, key="input changed")
            p += len(d)
        for a, es in encs.items():
            w, h, P, rl, sl, x = images[a]
            if any(e != es[0] for e in es):
                raise Violation("%s: two encodings of one image differ" % desc, key="encodings differ")
            try:
                g = lj.parse(es[0])
            except lj.Bad as e:
                raise Violation("%s: an encoding does not conform: %s" % (desc, e), key="encoding")
            if (g["w"], g["h"], g["P"], g["x"]) != (w, h, P, x):
                raise Violation("%s: an encoding decodes to something else" % desc, key="encoding")
        if left and not leak_ok:
            raise Violation("%s: %d blocks stay allocated" % (desc, left), key="leak")
        if not both:
            return None
        L = ["handles at once"]
        if len({o[3] for o in ops if o[1] == DECODE}) < len({o[2] for o in ops if o[1] == DECODE}):
            L.append("several handles on one stream")
        if encs:
            L.append("encoding")
        if any(o[7] >= 0 for o in ops if o[1] == DECODE):
            L.append("linearized")
        if any(o[7] >= 0 and max(streams[o[3]][6]) >= len(tabs[o[7]]) for o in ops if o[1] == DECODE):
            L.append("table too short")
        if any(not s[1] for s in streams):
            L.append("damaged streams")
        if c["faults"]:
            L.append("failing allocations")
        if c["threads"] and tsan != asan:
            L.append("ThreadSanitizer")
        return L

    dim = st.one_of(st.integers(1, 4), st.integers(1, 20))
    kinds = st.sampled_from(["diff", "diff", "uniform", "extremes", "ramp", "const"])
    img = st.tuples(kinds, st.integers(0, 2 ** 32)).map(list)
    stream = st.fixed_dictionaries(dict(
        w=dim, h=dim, c=st.sampled_from([1, 1, 2, 3, 4]), P=st.integers(2, 16), pred=st.sampled_from([1, 2, 3, 4, 5, 6, 6, 6, 7]), x=img,
        table=st.integers(0, 2 ** 32), extra=st.sampled_from([0, 0, 3, 17]), bad=st.one_of(st.just(0), st.just(0), st.just(0), st.integers(1, 2 ** 32))))
    image = st.fixed_dictionaries(dict(w=dim, h=dim, P=st.integers(2, 16), x=img, sl=st.sampled_from([0, 0, 3])))
    call = st.tuples(st.sampled_from(["open", "open", "decode", "decode", "decode", "close", "encode"]), st.integers(0, 7), st.integers(0, 7),
                     st.sampled_from([-1, -1, -1, 0, 1, 2, 5])).map(list)
    # every list opens something first
    calls = st.tuples(st.integers(0, 7), st.lists(call, min_size=1, max_size=12)).map(lambda x: [["open", x[0], 0, -1]] + x[1])

    def case(threads):
        return st.fixed_dictionaries(dict(
            seed=st.integers(0, 2 ** 32), streams=st.lists(stream, min_size=1, max_size=5), images=st.lists(image, max_size=3),
            tabs=st.lists(st.sampled_from([0, 1, 0, 1, 3, 40, 500]), max_size=3), calls=st.lists(calls, min_size=2, max_size=4 if threads else 5),
            threads=st.just(threads), faults=st.sampled_from([False, False, True])))
    return [Part("interleaved", case(False), run, 2000 if q else 25000),
            Part("threads", case(True), run, 1200 if q else 15000)]
