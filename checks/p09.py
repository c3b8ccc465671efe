"""P09: DMA register block and AXI to AXI-lite bridge."""
import random

from hypothesis import strategies as st

import bus
import cfgs
import core
import gen
from fw import Part, Violation

PROPERTY = "P09"
RULE = ("Case: histories of reads and writes with byte strobes on all channels, each with its own timing, against the DMA "
        "register block directly and through the bridge (with transaction IDs); status inputs change between phases. "
        "Oracle: register memory, write effect between acceptance and response; IDs must match. And random values on every "
        "port of the bridge each cycle: pass-through; and a generic slave behind it. Non-trivial: a read and a write.")
ASSUMPTIONS = ["register indices 12-15 and address aliases are not specified",
               "the slave behind the bridge has one read and one write in progress at most, as AXI-lite slaves here do"]


def parts(tier, seed):
    q = tier == "quick"
    D = dict(zip(("dma_axi_lite", "bridged_dma", "axi_lite"),
                 cfgs.build_all([(n, {}) for n in ("dma_axi_lite", "bridged_dma", "axi_lite")])))
    idx = st.one_of(st.integers(0x400, 0x402), st.integers(0x400, 0x402), st.integers(0x400, 0x40B), st.integers(0, 0x3FF))
    u32 = st.integers(0, 0xFFFFFFFF)

    def case(d, phase=bus.phase):
        return st.fixed_dictionaries({
            "d": st.just(d), "phases": st.lists(st.fixed_dictionaries({
                "ph": phase(idx, idx, 10), "ins": st.lists(u32, min_size=9, max_size=9),
                "ids": st.lists(st.integers(0, 4095), min_size=20, max_size=20)}), min_size=1, max_size=5)})

    def case_l(d, maxn):
        return st.fixed_dictionaries({
            "d": st.just(d), "phases": st.lists(st.fixed_dictionaries({
                "ph": bus.long_phase(maxn), "ins": st.lists(u32, min_size=9, max_size=9),
                "ids": st.integers(0, 2 ** 32)}), min_size=1, max_size=2)})

    def run(c):
        s = D[c["d"]].new()
        s.reset()
        if c["d"] == "bridged_dma":
            s.set("i_ar_len", 0)
        regs = {0x400 + i: (0, 0xFFFFFFFF) for i in range(3)}
        regs.update({0x403 + i: (0, None) for i in range(9)})
        mem = bus.Memory(regs)
        nr = nw = 0
        for p in c["phases"]:
            ph = p["ph"]
            ids = (p["ids"][:10], p["ids"][10:]) if c["d"] == "bridged_dma" and "seed" not in ph else None
            if "seed" in ph:
                pick = [0x400, 0x401, 0x402] * 5 + list(range(0x403, 0x40C)) + [0, 1, 0x3FF]
                ph = bus.expand_phase(ph, pick, pick)
                if c["d"] == "bridged_dma":
                    rnd = random.Random(p["ids"])
                    ids = [rnd.getrandbits(12) for _ in ph["reads"]], [rnd.getrandbits(12) for _ in ph["writes"]]
            for i, v in enumerate(p["ins"]):
                s.set("i_in%d" % (i + 1), v)
                mem.val[0x403 + i] = v
            ch = bus.Channels(s, ph, ids)
            s.run(ch.srcs, ch.snks, ch.budget(), stop_idle=450 + bus.pauses(ph))
            ch.idle()
            mem.check(ch, c["d"])
            if ids:
                rr, bb = ch.results(c["d"])
                for i, r in enumerate(rr):
                    if r[2] != ids[0][i] or not r[3]:
                        raise Violation("bridge: read %d came with ID %d and was answered with ID %d, last %d"
                                        % (i, ids[0][i], r[2], r[3]))
                for i, r in enumerate(bb):
                    if r[1] != ids[1][i]:
                        raise Violation("bridge: write %d came with ID %d and was answered with ID %d" % (i, ids[1][i], r[1]))
            nr += len(ph["reads"])
            nw += len(ph["writes"])
            s.eval()
            o = (s.get("o_read_addr"), s.get("o_write_addr"), s.get("o_start"))
            e = tuple(mem.val[0x400 + i] for i in range(3))
            if o != e:
                raise Violation("%s: outputs read_addr/write_addr/start are %r, the registers %r" % (c["d"], o, e))
        if nr and nw:
            return [c["d"]]

    PAIRS = [("m_ar_addr", "ar_addr", 32), ("m_ar_prot", "ar_prot", 3), ("m_ar_valid", "ar_valid", 1),
             ("m_r_ready", "r_ready", 1), ("m_aw_addr", "aw_addr", 32), ("m_aw_prot", "aw_prot", 3),
             ("m_aw_valid", "aw_valid", 1), ("m_w_data", "w_data", 32), ("m_w_strb", "w_strb", 4),
             ("m_w_valid", "w_valid", 1), ("m_b_ready", "b_ready", 1), ("ar_ready", "m_ar_ready", 1),
             ("r_data", "m_r_data", 32), ("r_resp", "m_r_resp", 2), ("r_valid", "m_r_valid", 1),
             ("aw_ready", "m_aw_ready", 1), ("w_ready", "m_w_ready", 1), ("b_resp", "m_b_resp", 2),
             ("b_valid", "m_b_valid", 1), ("m_aclk", "aclk", 1), ("m_areset_n", "areset_n", 1)]

    def run_b(c):
        import random
        r = random.Random(c["seed"])
        d = D["axi_lite"]
        s = d.new()
        s.reset()
        ins = [b for a, b, w in PAIRS]
        w = [w for a, b, w in PAIRS]
        extra = ["ar_id", "aw_id", "w_id", "ar_len", "aw_len", "w_last"]
        rows = [[r.getrandbits(x) for x in w] + [r.getrandbits(d.inputs["i_" + e][1]) for e in extra] for _ in range(c["n"])]
        outs = s.trace(["i_" + x for x in ins + extra], rows, ["o_" + a for a, b, x in PAIRS] + ["o_r_last"])
        for k, (i, o) in enumerate(zip(rows, outs)):
            for (a, b, x), vi, vo in zip(PAIRS, i, o):
                if vi != vo:
                    raise Violation("bridge: %s is %#x while %s is %#x" % (a, vo, b, vi))
            if not o[-1]:
                raise Violation("bridge: a single beat without the last flag")
        return ["passthrough"]

    def run_s(c):
        """a generic slave: own ready schedules and latencies, one read and one write in progress"""
        import random
        r = random.Random(c["seed"])
        s = D["axi_lite"].new()
        s.reset()
        n = c["n"]
        rid = [r.getrandbits(12) for _ in range(n)]
        wid = [r.getrandbits(12) for _ in range(n)]
        res = {"r": [], "b": []}
        st_ = {"r": None, "w": None, "nr": 0, "nw": 0}
        for cyc in range(40 * n + 60):
            dice = lambda p: r.randrange(100) < p
            arv = st_["nr"] < n and (c["eager"] or dice(50))
            awv = st_["nw"] < n and (c["eager"] or dice(50))
            sr, sw = st_["r"], st_["w"]
            rv = sr is not None and sr <= 0
            bv = sw is not None and sw <= 0
            ins = dict(i_ar_valid=int(arv), i_ar_id=rid[st_["nr"]] if arv else r.getrandbits(12),
                       i_aw_valid=int(awv), i_aw_id=wid[st_["nw"]] if awv else r.getrandbits(12),
                       i_r_ready=int(dice(c["rdy"])), i_b_ready=int(dice(c["rdy"])),
                       i_m_ar_ready=int(sr is None and dice(60)), i_m_aw_ready=int(sw is None and dice(60)),
                       i_m_r_valid=int(rv), i_m_b_valid=int(bv))
            s.cycle(**ins)
            if s.get("o_r_valid") and ins["i_r_ready"]:
                res["r"].append(s.get("o_r_id"))
                st_["r"] = None
            if s.get("o_b_valid") and ins["i_b_ready"]:
                res["b"].append(s.get("o_b_id"))
                st_["w"] = None
            if arv and s.get("o_ar_ready"):
                st_["nr"] += 1
                st_["r"] = r.randrange(0, c["lat"] + 1) + 1
            if awv and s.get("o_aw_ready"):
                st_["nw"] += 1
                st_["w"] = r.randrange(0, c["lat"] + 1) + 1
            for k in "rw":
                if st_[k] is not None and st_[k] > 0:
                    st_[k] -= 1
            s.tick()
        for k, e in (("r", rid), ("b", wid)):
            if res[k] != e[:len(res[k])] or not res[k]:
                raise Violation("bridge: %s IDs %r, the transactions had %r" % (
                    "read" if k == "r" else "write", res[k], e[:len(res[k])]))
        return ["generic_slave"]

    rn = st.integers(0, 2 ** 32)
    return [Part("dma", case("dma_axi_lite"), run, 3000 if q else 50000),
            Part("bridged", case("bridged_dma"), run, 3000 if q else 50000),
            Part("dma_with_long_pauses", case("dma_axi_lite", bus.slow_phase), run, 150 if q else 5000),
            Part("bridged_with_long_pauses", case("bridged_dma", bus.slow_phase), run, 150 if q else 5000),
            Part("dma_long", case_l("dma_axi_lite", 70000), run, 8 if q else 60),
            Part("bridged_long", case_l("bridged_dma", 70000), run, 8 if q else 60),
            Part("bridge_passthrough", st.fixed_dictionaries({"seed": rn, "n": st.integers(1, 200)}), run_b, 400 if q else 5000),
            Part("bridge_ids", st.fixed_dictionaries({"seed": rn, "n": st.integers(1, 6), "eager": st.booleans(),
                                                      "rdy": st.sampled_from([20, 60, 100]), "lat": st.integers(0, 5)}),
                 run_s, 800 if q else 20000)]
