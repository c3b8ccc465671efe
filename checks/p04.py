"""P04: frames are independent."""
import numpy as np
from hypothesis import strategies as st

import core
import gen
import hist
import prods
from fw import Part, Violation

PROPERTY = "P04"
RULE = ("Case: a history of operations on one product: frames (own content and timing), change of the frame size, of the "
        "Huffman table, reading back all registers, idle time, frames with a cycle budget. After each frame the output "
        "must be exactly the stream of that frame alone with the current registers. Non-trivial: at least two frames.")
ASSUMPTIONS = ["registers are changed between frames, after the last word was accepted"]


def parts(tier, seed):
    q = tier == "quick"
    names = ["beta", "micro", "beta_axistream", "micro_axistream", "beta_fifo_axistream"]
    P = prods.build(names)

    def case(maxpix, n):
        def mk(k):
            p = P[k]
            f = hist.frame_op(p, maxpix)
            return st.fixed_dictionaries({"p": st.just(k), "ops": st.lists(st.one_of(
                f, f, f, hist.size_op(p, maxpix), hist.table_op(), hist.idle_op(), hist.read_op(),
                hist.forced_op(p, maxpix)), min_size=2, max_size=n)})
        return st.sampled_from(names).flatmap(mk)

    def run(c):
        p = P[c["p"]]
        r = hist.Run(p)
        nf = 0
        L = {c["p"]}
        for o in c["ops"] + [{"op": "read"}]:
            if p.io == "fifo" and o["op"] == "limit":
                continue                # input left over in the word splitter belongs to the next frame
            r.op(o)
            nf += o["op"] in ("frame", "limit")
            L.add(o["op"])
        if nf >= 2:
            return L | {"frames>=5"} if nf >= 5 else L
    def case_m(maxn, most=False):
        def mk(k):
            p = P[k]
            n = st.just(maxn) if most else st.one_of(st.integers(200, maxn), st.just(maxn))
            if most:
                return st.fixed_dictionaries({
                    "p": st.just(k), "wh": st.sampled_from([[4, 1], [4, 2], [8, 1]]), "n": n, "v": st.just([]), "r": st.just([]),
                    "imgs": st.lists(gen.image_spec(), min_size=2, max_size=8), "seed": st.integers(0, 2 ** 32)})
            return st.fixed_dictionaries({
                "p": st.just(k), "wh": gen.geometry(p.step, 16), "imgs": st.lists(gen.image_spec(), min_size=2, max_size=8),
                "n": n, "seed": st.integers(0, 2 ** 32), "v": st.one_of(st.just([]), gen.bits_pattern()),
                "r": st.one_of(st.just([]), gen.ready_pattern())})
        return st.sampled_from(names).flatmap(mk)

    def run_m(c):
        """one uninterrupted run: images of one small size in random order, each stream as if it were alone"""
        p = P[c["p"]]
        w, h = c["wh"]
        if p.io == "fifo" and w * h % 4:
            return None                     # frames that do not fill the input words
        s = p.fresh()
        core.set_regs(s, w, h, 0xFFFFFF)
        t = gen.table(None, 12)
        pool = [gen.image(x, w * h, w, 12) for x in c["imgs"]]
        exp1 = [p.expected(x, w, t) for x in pool]
        item1 = [p.items(x) for x in pool]
        n = max(2, int(c["n"] * min(gen.density(c["v"]), gen.density(c["r"]))))
        order = np.random.RandomState(c["seed"] & 0x7FFFFFFF).randint(0, len(pool), n)
        exp = np.concatenate([exp1[i] for i in order])
        items = np.concatenate([item1[i] for i in order])
        src = p.source(s, items, c["v"], 1)
        snk = p.sink(s, len(exp) + 64, c["r"], 0)
        s.run([src], [snk], core.budget(len(items), len(exp), c["v"], c["r"]) + 1000 * n, stop_lasts=n, stop_idle=3500)
        g = core.raw_records(snk)
        pos = 0
        for k, i in enumerate(order):
            e = exp1[i]
            if not np.array_equal(g[pos:pos + len(e), 0], e) or not g[pos + len(e) - 1, 1] or g[pos:pos + len(e) - 1, 1].any():
                core.check_words(g[pos:pos + len(e)], e, "%s frame %d of %d, %dx%d" % (p.name, k + 1, n, w, h))
            pos += len(e)
        if len(g) != pos:
            raise Violation("%s: %d words after the last of %d frames" % (p.name, len(g) - pos, n))
        if src.pos != len(items):
            raise Violation("%s: %d of %d input words were accepted" % (p.name, src.pos, len(items)))
        return [p.name, "frames>256" if n > 256 else "frames", "frames>65536"][:3 if n > 65536 else 2]

    return [Part("many_frames", case_m(4000 if q else 140000), run_m, 16 if q else 200, weight=4),
            Part("most_frames", case_m(70000, True), run_m, 3 if q else 20),
            Part("histories", case(300, 12), run, 2400 if q else 40000),
            Part("long_histories", case(120, 40), run, 200 if q else 4000, weight=2),
            Part("big_histories", case(20000, 5), run, 100 if q else 2000, weight=2)]
