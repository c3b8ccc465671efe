"""P25: the generated Verilog."""
import json
import os
import random
import shutil
import subprocess

import numpy as np

import core
import gen
import rtl
from fw import Part, Violation
from concurrent.futures import ThreadPoolExecutor

PROPERTY = "P25"
RULE = ("The real generate_verilog.py is run over all modules (in scratch trees). Case: a module and random input sequences "
        "(per port its own density; register addresses from the address map; resets in the middle); the Verilog, compiled "
        "from the file, is compared cycle by cycle with nmigen's own simulation of the design the module's script generates. "
        "Or: a product and a frame; the Verilog of the product, as configured by default, encodes it and is compared with "
        "the model (whole default frames of 4096x3072 included). Non-trivial: outputs changed during the sequence.")
ASSUMPTIONS = ["yosys reads Verilog as a synthesis tool does", "all clocks of a design are one clock (all modules as shipped)",
               "the interface of the shipped tops is the one of the pinned tree (with the register bus of the Micro core)"]

REPO = rtl.REPO if hasattr(rtl, "REPO") else "/repo"
SRC = os.path.join(REPO, "migen_src")

AXI = {"s_axi_ri__araddr": ("i_ar_addr", None), "s_axi_ri__arvalid": ("i_ar_valid", 1), "s_axi_ri__arprot": ("i_ar_prot", 3),
       "s_axi_ri__rready": ("i_r_ready", 1), "s_axi_ro__arready": ("o_ar_ready", 1), "s_axi_ro__rdata": ("o_r_data", 32),
       "s_axi_ro__rresp": ("o_r_resp", 2), "s_axi_ro__rvalid": ("o_r_valid", 1),
       "s_axi_wi__awaddr": ("i_aw_addr", None), "s_axi_wi__awvalid": ("i_aw_valid", 1), "s_axi_wi__awprot": ("i_aw_prot", 3),
       "s_axi_wi__wdata": ("i_w_data", 32), "s_axi_wi__wstrb": ("i_w_strb", 4), "s_axi_wi__wvalid": ("i_w_valid", 1),
       "s_axi_wi__bready": ("i_b_ready", 1), "s_axi_wo__awready": ("o_aw_ready", 1), "s_axi_wo__wready": ("o_w_ready", 1),
       "s_axi_wo__bresp": ("o_b_resp", 2), "s_axi_wo__bvalid": ("o_b_valid", 1)}
PLAIN = {"valid_in": ("i_valid", 1), "busy_in": ("i_busy", 1), "nready": ("o_nready", 1), "valid_out": ("o_valid", 1),
         "end_out": ("o_end", 1)}


def stream(sw, mw, lasts=True):
    d = {"s_tdata": ("i_s_tdata", sw), "s_tvalid": ("i_s_tvalid", 1), "s_tready": ("o_s_tready", 1),
         "m_tdata": ("o_m_tdata", mw), "m_tvalid": ("o_m_tvalid", 1), "m_tready": ("i_m_tready", 1)}
    if lasts != "none":
        d["m_tlast"] = ("o_m_tlast", 1)
        if lasts is True:
            d["s_tlast"] = ("i_s_tlast", 1)
    return d


# module: ports, then as in prods.TABLE, then whether the registers are written over the bus
TOPS = {
    "beta_integration": (dict(PLAIN, pixel_in1=("i_pixel0", 12), pixel_in2=("i_pixel1", 12), data_out=("o_data", 16)),
                         (12, 2, 16, "plain", True), False),
    "micro_integration": (dict(PLAIN, pixel_in=("i_pixel0", 12), data_out=("o_data", 16), **AXI),
                          (12, 1, 16, "plain", True), True),
    "beta_integration_axistream": (stream(32, 16), (12, 2, 16, "axis2", True), False),
    "micro_integration_axistream": (dict(stream(32, 16), **AXI), (12, 1, 16, "axis1", True), True),
    "beta_integration_fifo_axistream": (stream(64, 16, "out"), (12, 2, 16, "fifo", True), False),
    "beta_integration_fifo_lvds": (stream(64, 40, "none"), (12, 2, 40, "fifo", True), False),
    "integration_3_axi_stream": (stream(64, 32), (12, 4, 32, "axis4", False), False),
}
W, H = 4096, 3072


def generate(mods, d, stale=None):
    """the repository's script over some of the modules -> {module: text}"""
    os.makedirs(os.path.join(d, "migen_src"))
    os.makedirs(os.path.join(d, "verilog_src"))
    os.makedirs(os.path.join(d, "bin"))
    shutil.copy(os.path.join(REPO, "generate_verilog.py"), d)
    for m in mods:
        os.symlink(os.path.join(SRC, m + ".py"), os.path.join(d, "migen_src", m + ".py"))
    for m, t in (stale or {}).items():
        open(os.path.join(d, "verilog_src", m + ".v"), "w").write(t)
    for n in ("python", "python3"):
        x = os.path.join(d, "bin", n)
        open(x, "w").write('#!/bin/sh\nexec "%s" "$@"\n' % rtl.PYPY)
        os.chmod(x, 0o755)
    env = dict(rtl.ENV, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", PATH=os.path.join(d, "bin") + ":" + os.environ["PATH"])
    p = subprocess.run([rtl.PYPY, "generate_verilog.py"], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=600)
    if p.returncode:
        raise Violation("generate_verilog.py ended with status %d:\n%s" % (p.returncode, p.stdout.decode()[-1500:]))
    out = {}
    v = os.path.join(d, "verilog_src")
    for f in sorted(os.listdir(v)):
        out[f] = open(os.path.join(v, f)).read()
    return out, p.stdout.decode()


def compiled(path, m):
    try:
        return rtl.load(rtl.compile_il(path, kind="verilog", tag=m, oob_last=True))
    except rtl.BuildError as e:
        raise Violation("%s.v is not accepted by yosys:\n%s" % (m, str(e)[-1500:]), key="yosys:" + m)
    except Exception as e:
        if type(e).__name__ == "NetError":
            raise Violation("%s.v is not a synchronous design with its clock as a port: %s" % (m, e), key="clock:" + m)
        raise


def strip(n):
    return n.lstrip("\\")


def parts(tier, seed):
    q = tier == "quick"
    wd = rtl.workdir()
    mods = sorted(f[:-3] for f in os.listdir(SRC) if f.endswith(".py"))
    r = random.Random("p25%s" % seed)
    order = list(mods)
    r.shuffle(order)
    big = [m for m in order if "integration" in m]
    small = [m for m in order if "integration" not in m]
    groups = [[] for _ in range(8)]
    for i, m in enumerate(big + small):
        groups[i % 8].append(m)
    groups = [g for g in groups if g]
    stale = "module stale(); endmodule\n"
    with ThreadPoolExecutor(8) as p:
        G = list(p.map(lambda a: generate(a[1], os.path.join(wd, "gen%d" % a[0]), {m: stale for m in a[1][::2]}),
                       enumerate(groups)))
    text, said = {}, {}
    vdir = os.path.join(wd, "v")
    os.makedirs(vdir)
    for g, (files, log) in zip(groups, G):
        for f, t in files.items():
            if f[:-2] not in g or not f.endswith(".v"):
                raise Violation("generate_verilog.py over %r wrote %s" % (g, f))
            if not t.strip():
                raise Violation("generate_verilog.py left %s empty" % f)
            text[f[:-2]] = t
            open(os.path.join(vdir, f), "w").write(t)
        for m in g:
            said[m] = log

    addr = [0x2000, 0x2004] + [0x1000 + 4 * i for i in range(26)] + [0x4000 + 4 * i for i in range(18)] + [0, 0x2008]
    dma = [0x1000 + 4 * i for i in range(13)]

    def sequences(D, ins, names, seeds, n, m):
        rows = []
        for s in seeds:
            rnd = random.Random("%s%s" % (m, s))
            dens = [rnd.choice([0.03, 0.1, 0.5, 0.5, 0.9, 0.97]) for _ in ins]
            hold = [rnd.choice([1, 1, 1, 2, 8]) for _ in ins]
            style = [rnd.randrange(4) for _ in ins]
            again = rnd.random() < 0.5
            cur = [0] * len(ins)
            for k in range(n):
                row = []
                for i, (nm, x) in enumerate(zip(names, ins)):
                    w = D.inputs[x][1]
                    if nm.endswith("rst"):
                        v = 1 if k < 2 or again and k > n // 2 and rnd.random() < 0.01 else 0
                    elif k % hold[i]:
                        v = cur[i]
                    elif w == 1:
                        v = 1 if rnd.random() < dens[i] else 0
                    elif nm.endswith("addr") and rnd.random() < 0.9:
                        v = rnd.choice(dma if m in ("dma_axi_lite", "beta_integration_fullaxi") else addr)
                    elif style[i] == 0:
                        v = rnd.getrandbits(w)
                    elif style[i] == 1:
                        v = rnd.choice([0, (1 << w) - 1, rnd.getrandbits(w)])
                    elif style[i] == 2:
                        v = rnd.getrandbits(min(w, rnd.choice([1, 2, 3, 5, w])))
                    else:
                        v = (cur[i] + rnd.choice([-1, 0, 1, 2])) % (1 << w)
                    v &= (1 << w) - 1
                    cur[i] = v
                    row.append(v)
                rows.append(row)
        return rows

    def module(c):
        m = c["m"]
        base = os.path.join(wd, "case_%s_%d" % (m, os.getpid()))
        D = None
        spec = {}
        if m in text:
            D = compiled(os.path.join(vdir, m + ".v"), m)
            ins = [n for n in D.inputs if n not in D.clks]
            names = [strip(n) for n in ins]
            rows = sequences(D, ins, names, c["seeds"], c["n"], m)
            spec = {"inputs": names, "rows": rows, "outputs": [strip(n) for n in D.outputs]}
        json.dump(spec, open(base + ".spec", "w"))
        try:
            rtl.sh([rtl.PYPY, "-B", os.path.join(rtl.HERE, "refsim.py"), os.path.join(SRC, m + ".py"), base + ".spec",
                    base + ".out"])
        except rtl.BuildError as e:
            if "/migen_src/" in str(e).split('File "')[-1] or m not in text:
                raise Violation("%s.py cannot generate: %s" % (m, str(e)[-1200:]), key="run:" + m)
            raise
        o = json.load(open(base + ".out"))
        for e in (".spec", ".out"):
            os.unlink(base + e)
        if o["generates"] != (m in text):
            raise Violation("%s.py %s a design to generate, generate_verilog.py wrote %s for it\n%s"
                            % (m, "has" if o["generates"] else "has no", "a file" if m in text else "no file", said[m][-600:]),
                            key="file:" + m)
        if D is None:
            return None
        import re
        und = [n for n in o["undriven"] if not re.match(r".*\(\d+\)$", n)]
        if und:
            raise Violation("%s.v: %s is used but neither driven nor a port" % (m, ", ".join(und)), key="undriven:" + m)
        if len(D.clks) > 1:
            raise Violation("%s.v: %d clocks %r" % (m, len(D.clks), D.clks), key="clocks:" + m)
        if m in TOPS:
            have = {strip(n): ("i", w) for n, (_, w) in D.inputs.items()}
            have.update({strip(n): ("o", w) for n, (_, w) in D.outputs.items()})
            for n, (a, w) in TOPS[m][0].items():
                if n not in have or have[n][0] != a[0] or w is not None and have[n][1] != w:
                    raise Violation("%s.v: the port %s (%s, %s bits) is %r" % (m, n, a[0], w, have.get(n)), key="port:%s:%s" % (m, n))
        if "missing" in o:
            raise Violation("%s.v has ports the design does not have: %r" % (m, o["missing"]), key="ports:" + m)
        s = D.new()
        s.init()
        outs = list(D.outputs)
        a = s.trace(ins, rows, outs)
        b = o["trace"]
        if a is not None and [list(x) for x in a] != b:
            for k, (x, y) in enumerate(zip(a, b)):
                for n, u, w in zip(outs, x, y):
                    if u != w:
                        raise Violation("%s.v: cycle %d: %s is %#x in the Verilog, %#x in the design" % (m, k, strip(n), u, w),
                                        key="trace:" + m)
        ch = sum(len(set(x)) > 1 for x in zip(*b))
        return [m] + (["half_of_the_outputs_moved"] if 2 * ch >= len(outs) else []) if ch else None

    cache = {}

    def product(m):
        if m not in cache:
            if m not in text:
                raise Violation("no Verilog for %s" % m)
            D = compiled(os.path.join(vdir, m + ".v"), m)
            # the names the other checks use
            al = {n: a for n, (a, _) in TOPS[m][0].items()}
            for t in (D.inputs, D.outputs):
                for k in list(t):
                    if strip(k) in al:
                        t[al[strip(k)]] = t.pop(k)
            miss = [n for n, a in al.items() if a not in D.inputs and a not in D.outputs]
            if miss:
                raise Violation("%s.v has no port %s" % (m, ", ".join(miss)))
            p = core.Product(D, *TOPS[m][1])
            p.name = m
            cache[m] = p
        return cache[m]

    def fresh(p):
        s = p.fresh()
        for n in p.design.inputs:
            if "areset" in n:
                s.set(n, 1)
        return s

    def frame(c):
        m = c["m"]
        p = product(m)
        s = fresh(p)
        t = gen.table(None, 12)
        bus = TOPS[m][2]
        what = m + ".v"
        for _ in range(4):
            s.eval()
            s.tick()
        if c["kind"] == "frames":                       # registers over the bus
            rnd = random.Random(c["seed"])
            for k in range(c["n"]):
                w, h = rnd.randrange(4, 40), rnd.randrange(1, 20)
                if c.get("wh"):
                    w, h = c["wh"]
                pix = core.big_image(c["seed"] + k, w, h) if w * h > 5000 else \
                    gen.image([rnd.choice(["uniform", "walk", "extremes", "ff"]), c["seed"] + k], w * h, w, 12)
                core.set_regs(s, w, h, 0xFFFFFF)
                if c["table"]:
                    t = [tuple(x) for x in gen.table([rnd.getrandbits(30), k % 3], 12)]
                    core.set_regs(s, None, None, None, t, 12)
                core.one_frame(p, s, w, h, pix, t, c["v"], c["r"], what=what)
            return [m, "over_the_bus"]
        h = c["rows"]
        pix = core.photo(c["seed"], W, h)                    # what the default budget of cycles has room for
        exp = p.expected(pix, W, t)
        if p.out_bits == 40:                            # whole 40 bit words of the stream
            by = np.stack([exp >> np.uint64(8), exp & np.uint64(255)], 1).reshape(-1).astype(np.uint8)
            exp = core.words_of(by[:len(by) // 5 * 5], 5)
        items = p.items(pix, c["seed"])
        src = p.source(s, items, c["v"])
        snk = p.sink(s, len(exp) + 64, c["r"])
        whole = h == H
        s.run([src], [snk], core.budget(len(items), len(exp), c["v"], c["r"]), stop_lasts=p.out_bits != 40, extra=40 if p.marked else 0,
              stop_idle=3500)
        got = core.raw_records(snk)
        if src.pos != len(items):
            raise Violation("%s: the first %d rows of %dx%d: %d of %d inputs were taken" % (what, h, W, H, src.pos, len(items)))
        if whole:
            core.check_words(got, exp, "%s, %dx%d" % (what, W, H), plain=not p.marked)
            return [m, "whole_default_frame"]
        # all but what is still inside, without the end
        n = len(exp) - 8
        if len(got) < n - 2000:
            raise Violation("%s: only %d of %d words came out for the first %d rows" % (what, len(got), n, h))
        n = min(n, len(got))
        bad = np.nonzero(got[:n, 0] != exp[:n])[0]
        if len(bad):
            raise Violation("%s: word %d of a %dx%d frame is %#x, expected %#x"
                            % (what, bad[0], W, H, int(got[bad[0], 0]), int(exp[bad[0]])))
        if got.shape[1] > 1 and got[:, 1].any():
            raise Violation("%s: the end came after %d rows of %d" % (what, h, H))
        return [m, "start_of_default_frame"]

    ns = 3 if q else 12
    n = 160 if q else 1200
    cases = []
    for k in range(1 if q else 6):
        for m in big + small:
            e = 1 if "integration" in m else 3
            cases.append({"m": m, "seeds": [r.getrandbits(32) for _ in range(ns)], "n": n * e if q else n})
    fc = []
    pats = [[1, 0, 1, 1], [0, 0, 0, 1], [1] * 9 + [0] * 7]
    beta = [m for m in TOPS if not TOPS[m][2]]
    full = beta[:1] + [r.choice(beta[1:])] if q else beta
    for m in full:
        fc.append({"m": m, "kind": "default", "rows": H, "seed": r.getrandbits(30), "v": [], "r": []})
    if not q:
        for m in beta:
            fc.append({"m": m, "kind": "default", "rows": H, "seed": r.getrandbits(30), "v": [1] * 60 + [0], "r": []})
    for m in beta:
        for k in range(2 if q else 12):
            fc.append({"m": m, "kind": "default", "rows": r.choice([3, 5, 9]), "seed": r.getrandbits(30), "v": r.choice([[]] + pats),
                       "r": r.choice([[]] + pats)})
    for m in TOPS:
        if TOPS[m][2]:
            fc.append({"m": m, "kind": "frames", "n": 1, "wh": [1024, 500] if q else [4096, 3072], "table": 0,
                       "seed": r.getrandbits(30), "v": [], "r": []})
            for k in range(3 if q else 40):
                fc.append({"m": m, "kind": "frames", "n": 6, "table": k % 2, "seed": r.getrandbits(30),
                           "v": r.choice([[]] + pats), "r": r.choice([[]] + pats)})
    return [Part("frames", fc, frame, 0, shards=len(fc), weight=100),
            Part("modules", cases, module, 0, shards=len(cases), weight=60)]
