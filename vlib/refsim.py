"""Runs a module's own __main__ under the interpreter that has nmigen, catches the design it hands to the generator, and
simulates it with nmigen's simulator.

    refsim.py MODULE.py SPEC.json OUT.json
SPEC: {"inputs": [names], "rows": [[values]], "outputs": [names]}   (absent: only list the ports)
"""
import json
import os
import re
import runpy
import sys
import warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
path = os.path.abspath(sys.argv[1])
sys.path.insert(0, os.path.dirname(path))

import nmigen.cli                          # noqa
from nmigen import *                       # noqa
from nmigen.back import pysim, rtlil       # noqa
from nmigen.back.pysim import Delay        # noqa
from nmigen.hdl.ir import Fragment         # noqa
from nmigen.hdl.xfrm import FragmentTransformer, ResetInserter, DomainRenamer   # noqa

got = {}


def fake_main(design, *a, **kw):
    got["design"] = design
    got["ports"] = list(kw.get("ports", ()))


nmigen.cli.main = fake_main
out = {"generates": False}
argv = sys.argv
sys.argv = [path, "generate"]
runpy.run_path(path, run_name="__main__")
sys.argv = argv
spec = json.load(open(sys.argv[2]))
if got:
    out["generates"] = True
    out["ports"] = [[p.name, len(p)] for p in got["ports"]]
if got:
    frag = Fragment.get(got["design"], None)
    whole = FragmentTransformer()(frag).prepare(ports=got["ports"])
    used, driven = {}, set()

    def walk(f, path):
        if isinstance(f, Instance):
            for k, (v, d) in f.named_ports.items():
                for x in Value.wrap(v)._rhs_signals():
                    if d == "i":
                        used.setdefault(id(x), (x, path + [k]))
                    else:
                        driven.add(id(x))
        for st in f.statements:
            for x in st._rhs_signals():
                used.setdefault(id(x), (x, path))
            for x in st._lhs_signals():
                driven.add(id(x))
        for dom, c in f.domains.items():
            for x in (c.clk, c.rst):
                if x is not None and dom in f.drivers:
                    used.setdefault(id(x), (x, path))
        for s, n in f.subfragments:
            walk(s, path + [str(n)])
    walk(whole, [])
    inputs = {id(x) for x in got["ports"]}
    for dom, c in whole.domains.items():
        # "main" itself adds the ports of domains nobody declared
        if dom not in frag.domains:
            inputs |= {id(c.clk), id(c.rst)}
    # attributes of the modules (a signal that is local to a module and never driven is just a constant)
    pub, seen = set(), set()

    def reach(o):
        if id(o) in seen:
            return
        seen.add(id(o))
        if isinstance(o, Signal):
            pub.add(id(o))
        elif isinstance(o, Record):
            for x in o.fields.values():
                reach(x)
        elif isinstance(o, (list, tuple)) or type(o).__name__ == "Array":
            for x in o:
                reach(x)
        elif isinstance(o, dict):
            for x in o.values():
                reach(x)
        elif isinstance(o, Elaboratable):
            for x in list(vars(o).values()):
                reach(x)
    reach(got["design"])
    for c in whole.domains.values():
        pub |= {id(c.clk), id(c.rst)}
    out["undriven"] = sorted({x.name for i, (x, p) in used.items() if i in pub and i not in driven and i not in inputs})
if got and "rows" in spec:
    resets = {"rst": Signal(name="rst")}
    ctl = {"sync": resets["rst"]}
    import sys as _s
    cd = _s.modules.get("clk_domains")
    if cd is not None and cd.accessed:
        resets = {"rst": cd.CORE.rst, "full_rst": cd.FULL.rst}
        ctl = {"sync": cd.CORE.rst, "full": cd.FULL.rst}

    # the names the generator gives to the ports
    _, names = rtlil.convert_fragment(FragmentTransformer()(frag).prepare(ports=got["ports"]), "top")

    def purge(f):
        f.domains.clear()
        for s, _ in f.subfragments:
            purge(s)
    purge(frag)
    class Reset(ResetInserter):
        def _insert_control(self, fragment, domain, signals):
            # a reset clears neither memories nor what their read ports hold, though nmigen's simulator would do so
            if not isinstance(fragment, Instance):
                super()._insert_control(fragment, domain, signals)
    # one clock; the resets become part of the logic
    frag = Reset(ctl)(frag)
    frag = DomainRenamer({"sync": "one", "full": "one"})(frag)
    dom = ClockDomain("one", reset_less=True)
    frag.add_domains(dom)
    sigs = dict(resets)
    for p in got["ports"]:
        sigs[names[p][-1] if p in names else p.name] = p
    sigs = {k.lstrip("\\"): v for k, v in sigs.items()}
    ins = [sigs.get(n) for n in spec["inputs"]]
    outs = [sigs.get(n) for n in spec["outputs"]]
    missing = [n for n, s in zip(spec["inputs"] + spec["outputs"], ins + outs) if s is None]
    if missing:
        out["missing"] = missing
    else:
        trace = []
        with pysim.Simulator(frag) as sim:

            def process():
                live = [s is not None and s in sim._signals for s in ins]
                olive = [s in sim._signals for s in outs]
                for row in spec["rows"]:
                    for s, l, v in zip(ins, live, row):
                        if l:
                            yield s.eq(v)
                    yield Delay(1e-9)
                    r = []
                    for s, l in zip(outs, olive):
                        r.append((yield s) if l else s.reset)
                    trace.append(r)
                    yield dom.clk.eq(1)
                    yield Delay(1e-9)
                    yield dom.clk.eq(0)
                    yield Delay(1e-9)
            sim.add_process(process)
            sim.run()
        out["trace"] = trace
json.dump(out, open(sys.argv[3], "w"))
