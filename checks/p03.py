"""P03: the board-level wrappers deliver the wrapped core's stream for packed pixels."""
import numpy as np
from hypothesis import strategies as st

import core
import gen
import prods
from fw import Part, Violation

PROPERTY = "P03"
RULE = ("Case: a wrapper, one to four frames of one geometry with own contents, junk in the unused input bits, input and "
        "output timing; the frames follow each other without waiting. The accepted output words (40 bit words: their "
        "concatenation) are compared with the reference streams and the last flags. Non-trivial: stalls on a side, or "
        "more than one frame.")
ASSUMPTIONS = ["frame pixel counts are whole input words", "the quad-pixel stream core has no automatic reset: one frame"]


def parts(tier, seed):
    q = tier == "quick"
    names = ["beta_axistream", "micro_axistream", "beta_fifo_axistream", "beta_fifo_lvds", "integration_3_axi_stream"]
    P = prods.build(names)

    def case(maxpix, nf):
        def mk(n):
            p = P[n]
            return st.fixed_dictionaries({
                "p": st.just(n), "wh": gen.geometry(p.step, maxpix),
                "imgs": st.lists(gen.image_spec(), min_size=1, max_size=1 if n.startswith("integ") else nf),
                "table": gen.table_spec(), "v": gen.bits_pattern(), "r": gen.ready_pattern(),
                "junk": st.integers(0, 255)})
        return st.sampled_from(names).flatmap(mk)

    def run(c):
        p = P[c["p"]]
        w, h = c["wh"]
        t = gen.table(c["table"], 12)
        s = p.fresh()
        core.set_regs(s, w, h, 0xFFFFFF, t if c["table"] else None, 12)
        pix = [gen.image(x, w * h, w, 12) for x in c["imgs"]]
        if p.marked:
            exp = [core.marked_words(x, w, 12, t) for x in pix]
        else:
            exp = [core.plain_words(x, w, 12, t, p.out_bits) for x in pix]
        items = np.concatenate([p.items(x, c["junk"]) for x in pix])
        src = p.source(s, items, c["v"], 1)
        total = sum(map(len, exp))
        lvds = p.out_bits == 40
        snk = p.sink(s, total + 64, c["r"])
        s.run([src], [snk], core.budget(len(items), total, c["v"], c["r"]) + 1000 * len(pix),
              stop_lasts=0 if lvds else len(pix), extra=60 if p.marked else 0, stop_idle=2500)
        g = core.raw_records(snk)
        b = core.bad_stable(snk)
        if b:
            raise Violation("%s %dx%d: %s" % (p.name, w, h, b))
        if lvds:
            by = np.concatenate(exp)
            by = np.stack([by >> np.uint64(8), by & np.uint64(255)], 1).reshape(-1).astype(np.uint8)
            e = core.words_of(by[:len(by) // 5 * 5], 5)
            core.check_words(g, e, "%s %d frames of %dx%d" % (p.name, len(pix), w, h))
        else:
            pos = 0
            for i, e in enumerate(exp):
                core.check_words(g[pos:pos + len(e)], e, "%s frame %d of %d, %dx%d" % (p.name, i + 1, len(pix), w, h))
                pos += len(e)
            if len(g) > pos:
                raise Violation("%s: %d words after the last frame" % (p.name, len(g) - pos))
        if src.pos != len(items):
            raise Violation("%s %dx%d: %d of %d input words were accepted" % (p.name, w, h, src.pos, len(items)))
        L = [p.name] + (["frames%d" % len(pix)] if len(pix) > 1 else []) + (["stalls"] if c["v"] or c["r"] else [])
        return L if len(L) > 1 else None

    return [Part("frames", case(800, 4), run, 3600 if q else 50000),
            Part("large", case(80000, 2), run, 100 if q else 1500, weight=3)]
