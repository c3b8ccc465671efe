"""P02: Beta and Micro emit a complete, marked and stuffed frame stream."""
from hypothesis import strategies as st

import core
import gen
import model
import prods
from fw import Part, Violation

PROPERTY = "P02"
RULE = ("Case: Beta or Micro, frame geometry, content (incl. content coded into many 0xFF bytes), Huffman table, input and "
        "output timing. All words that come out are compared with start words + stuffed scan + end words, and nothing "
        "may follow; the stream is also decoded back to the pixels by an independent decoder. Non-trivial: the scan "
        "contains a 0xFF byte, or stalls occur, or the frame has more than one row.")
ASSUMPTIONS = ["frame size programmed before the frame, cycle budget not exceeded, width >= 4 and even for Beta"]


def parts(tier, seed):
    q = tier == "quick"
    P = prods.build(["beta", "micro"])

    def case(maxpix):
        def mk(n):
            p = P[n]
            return st.fixed_dictionaries({
                "p": st.just(n), "wh": gen.geometry(p.ps, maxpix), "img": gen.image_spec(), "table": gen.table_spec(),
                "v": gen.bits_pattern(), "r": gen.ready_pattern(), "hold": st.integers(0, 1)})
        return st.sampled_from(sorted(P)).flatmap(mk)

    def run(c):
        p = P[c["p"]]
        w, h = c["wh"]
        pix = gen.image(c["img"], w * h, w, 12)
        t = gen.table(c["table"], 12)
        s = p.fresh()
        core.set_regs(s, w, h, 0xFFFFFF, t if c["table"] else None, 12)
        exp = core.one_frame(p, s, w, h, pix, t, c["v"], c["r"], c["hold"], what=c["p"], stable=False)
        if w * h <= 400:
            # what came out equals exp: removing markers and stuffing must give the pixels back
            b = model.words_to_bytes([int(x) for x in exp[8:-8]], 2)
            bits = model.bits_of_bytes(model.unstuff(b))
            back, used = model.decode_scan(bits, w * h, w, 12, [tuple(x) for x in t])
            if back != pix:
                raise Violation("%s: the stream does not decode to the frame" % c["p"])
        ff = bool(((exp[8:-8] >> 8 == 0xFF) | (exp[8:-8] & 0xFF == 0xFF)).any())
        L = [c["p"]]
        if ff:
            L.append("has_FF")
            if int(exp[-9]) & 0xFF == 0 and int(exp[-9]) >> 8 == 0xFF:
                L.append("last_byte_FF")
        if c["v"] or c["r"]:
            L.append("stalls")
        if h > 1:
            L.append("rows")
        if len(exp) == 17:
            L.append("one_word")
        return L if len(L) > 1 else None

    def default_frame(c):
        """the frame the shipped products are made for"""
        p = P[c["p"]]
        w, h = 4096, 3072
        pix = core.big_image(c["seed"], w, h)
        s = p.fresh()
        core.set_regs(s, w, h, 0xFFFFFF)
        core.one_frame(p, s, w, h, pix, gen.table(None, 12), [], c["r"], what=c["p"], stable=False)
        return [c["p"], "4096x3072"]

    big = [{"p": "beta", "seed": seed * 7 + 1, "r": []}]
    if not q:
        big += [{"p": "micro", "seed": seed * 7 + 2, "r": [1, 1, 1, 0]}, {"p": "beta", "seed": seed * 7 + 3, "r": [1, 0, 1]}]
    return [Part("small_frames", case(1200), run, 4000 if q else 60000),
            Part("large_frames", case(140000), run, 160 if q else 2500, weight=3),
            Part("default_frame", big, default_frame, len(big), shards=len(big), weight=10)]
