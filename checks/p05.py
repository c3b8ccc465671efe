"""P05: output handshake of every product."""
import numpy as np
from hypothesis import strategies as st

import cfgs
import core
import gen
import prods
from fw import Part, Violation

PROPERTY = "P05"
RULE = ("Case: a product (programmable core in several configurations, Beta, Micro, all stream wrappers), a frame, and two "
        "different input/output timings incl. ready only after valid, ready pulses and long stalls; sometimes a small "
        "cycle budget so that the frame is force-ended. Every cycle valid/data/last are monitored while the consumer is "
        "not ready; the accepted words must not depend on the timing. Non-trivial: the consumer stalls at least once.")
ASSUMPTIONS = ["the last flag of the bare programmable core is meaningful together with its valid",
               "a forced end depends on time, so only stability is compared there, not the word sequence"]


def parts(tier, seed):
    q = tier == "quick"
    names = ["beta", "micro", "beta_axistream", "micro_axistream", "beta_fifo_axistream", "beta_fifo_lvds"]
    P = prods.build(names)
    cs = cfgs.core_configs("p05%s" % seed, 8 if q else 40, corners=False) + cfgs.CORNERS[1:2]
    for i, (c, d) in enumerate(zip(cs, cfgs.build_all([("integration3", c) for c in cs]))):
        p = core.Product(d, c["bd"], c["ps"], c["out_bits"], "plain", False)
        p.name = "core%d" % i
        p.step = p.ps
        P[p.name] = p
    keys = sorted(P)

    def case(maxpix):
        def mk(n):
            p = P[n]
            return st.fixed_dictionaries({
                "p": st.just(n), "params": st.just(cs[int(n[4:])] if n.startswith("core") else {}),
                "wh": gen.geometry(p.step, maxpix), "img": gen.image_spec(), "v": gen.bits_pattern(),
                "r": gen.ready_pattern(), "r2": gen.ready_pattern(), "v2": gen.bits_pattern(),
                "junk": st.integers(0, 255),
                "limit": st.one_of(st.none(), st.none(), st.integers(0, 400))})
        return st.sampled_from(keys).flatmap(mk)

    def once(p, c, w, h, pix, v, r):
        s = p.fresh()
        lim = c["limit"] if p.marked and c["limit"] is not None else 0xFFFFFF
        core.set_regs(s, w, h, lim)
        items = p.items(pix, c["junk"])
        src = p.source(s, items, v, 1)
        cap = len(pix) * 6 + 400
        snk = p.sink(s, cap, r)
        s.run([src], [snk], core.budget(len(items), len(pix) * 2, v, r), stop_lasts=1,
              extra=40 if p.marked and lim == 0xFFFFFF else 0, stop_idle=1500)
        b = core.bad_stable(snk)
        if b:
            raise Violation("%s %dx%d: %s" % (p.name, w, h, b))
        g = core.raw_records(snk)
        if p.marked and g.shape[1] > 1:
            l = [i for i in range(len(g)) if g[i, 1]]
            if l and l[0] != len(g) - 1:
                raise Violation("%s %dx%d: word %d of %d is flagged as last" % (p.name, w, h, l[0], len(g)))
        return g

    def run(c):
        p = P[c["p"]]
        w, h = c["wh"]
        pix = gen.image(c["img"], w * h, w, p.bd)
        a = once(p, c, w, h, pix, c["v"], c["r"])
        b = once(p, c, w, h, pix, c["v2"], c["r2"])
        if c["limit"] is None or not p.marked:
            if a.shape != b.shape or (a != b).any():
                raise Violation("%s %dx%d: the accepted words depend on the timing (%d / %d words)"
                                % (p.name, w, h, len(a), len(b)))
        if c["r"] or c["r2"]:
            return [p.name.rstrip("0123456789") if p.name.startswith("core") else p.name] + (["force_limit"] if p.marked and c["limit"] is not None else []) + \
                (["ready_after_valid"] if 2 in c["r"] + c["r2"] else []) + (["long_stall"] if 0 in c["r"] and c["r"].count(0) > 50 else [])

    def case_g():
        def mk(n):
            p = P[n]
            g = gen.gap_pattern()
            return st.fixed_dictionaries({
                "p": st.just(n), "params": st.just(cs[int(n[4:])] if n.startswith("core") else {}),
                "wh": gen.geometry(p.step, 400), "img": gen.image_spec(), "junk": st.integers(0, 255),
                "pv": st.tuples(st.one_of(g, st.just([])), st.one_of(g, gen.ready_pattern())).filter(
                    lambda x: gen.gap(*x)).map(list), "n": st.integers(1, 2)})
        return st.sampled_from(keys).flatmap(mk)

    def run_g(c):
        """pauses of up to 131000 cycles change nothing"""
        p = P[c["p"]]
        w, h = c["wh"]
        t = gen.table(None, p.bd)
        v, r = c["pv"]
        pix = gen.image(c["img"], w * h, w, p.bd)
        s = p.fresh()
        core.set_regs(s, w, h, 0xFFFFFF)
        for i in range(c["n"] if p.marked and "lvds" not in p.name else 1):
            exp = p.expected(pix, w, t)
            items = p.items(pix, c["junk"])
            src = p.source(s, items, v, 1)
            snk = p.sink(s, len(exp) + 64, r)
            s.run([src], [snk], 100000 + 200 * (len(exp) + len(items)) + 4 * gen.gap(v, r), stop_lasts=1,
                  extra=40 if p.marked else 0, stop_idle=3500 + gen.gap(v, r))
            p.quiet(s)
            b = core.bad_stable(snk)
            what = "%s frame %d, %dx%d, with pauses of %d cycles" % (p.name, i + 1, w, h, gen.gap(v, r))
            if b:
                raise Violation("%s: %s" % (what, b))
            if "lvds" in p.name:
                g = core.raw_records(snk)
                by = core.words_of(np.stack([exp >> np.uint64(8), exp & np.uint64(255)], 1).reshape(-1).astype(np.uint8)[:2 * len(exp) // 5 * 5], 5)
                core.check_words(g, by, what)
            else:
                core.check_words(core.raw_records(snk), exp, what)
            if src.pos != len(items):
                raise Violation("%s: %d of %d inputs were accepted" % (what, src.pos, len(items)))
        return [p.name.rstrip("0123456789") if p.name.startswith("core") else p.name, "pause>65535" if gen.gap(v, r) > 65535 else "pause"]

    return [Part("long_pauses", case_g(), run_g, 400 if q else 10000), Part("stability", case(900), run, 4000 if q else 60000),
            Part("stability_large", case(60000), run, 80 if q else 1500, weight=3)]
