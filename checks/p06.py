"""P06: overrun of the cycle budget."""
from hypothesis import strategies as st

import hist
import prods
from fw import Part, Violation

PROPERTY = "P06"
RULE = ("Case: a product, a frame size, and a sequence of frames with a cycle budget (absolute, or at a percentage of, or a "
        "few cycles around, the duration an unlimited twin run of the same frame takes), with stalls, and with input that "
        "stops early; normal frames in between. The stream must be the whole frame, or a prefix and eight forced end "
        "words, and which of the two follows from the twin's duration. Non-trivial: the frame was forced to end.")
ASSUMPTIONS = ["within 8 cycles of the limit either outcome is accepted"]


def parts(tier, seed):
    q = tier == "quick"
    names = ["beta", "micro", "beta_axistream", "micro_axistream"]
    P = prods.build(names)

    def case(maxpix, n, forced=hist.forced_op):
        def mk(k):
            p = P[k]
            f = forced(p, maxpix)
            return st.fixed_dictionaries({"p": st.just(k), "size": hist.size_op(p, maxpix), "ops": st.lists(
                st.one_of(f, f, f, hist.frame_op(p, maxpix), hist.size_op(p, maxpix), hist.idle_op()),
                min_size=1, max_size=n)})
        return st.sampled_from(names).flatmap(mk)

    def run(c):
        p = P[c["p"]]
        r = hist.Run(p)
        r.op(c["size"])
        L = set()
        for o in c["ops"] + [{"op": "frame", "img": ["uniform", 5], "v": [], "r": [], "hold": 1}]:
            x = r.op(o)
            if x:
                L |= set(x)
        return L | {c["p"]} if "forced" in L else None
    # a starved frame with a huge budget: the forced end must still come, and not before
    huge = [{"p": n, "size": {"op": "size", "wh": [40, 4]},
             "ops": [{"op": "limit", "img": ["uniform", 7], "v": [], "r": [], "limit": ["abs", x], "cut": 50, "hold": 1, "wait": 1}]}
            for n, x in ([("micro", (1 << 23) + 5)] if q else [(n, x) for n in names for x in ((1 << 23) + 5, 0xFFFFFE, 6666000)])]
    return [Part("budgets_huge", huge, run, 0, weight=3),
            Part("budgets", case(500, 4), run, 3600 if q else 60000),
            Part("budgets_with_long_pauses", case(300, 3, hist.slow_forced_op), run, 600 if q else 6000),
            Part("budgets_large", case(30000, 2), run, 100 if q else 2000, weight=3)]
