"""Elaborates a design of /repo/migen_src to RTLIL.  Runs under the interpreter that has nmigen.

    elab.py SPEC.json OUT.il
"""
import json
import os
import sys
import warnings
warnings.simplefilter("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, REPO + "/migen_src")
sys.dont_write_bytecode = True

from nmigen import *                      # noqa
from nmigen.back import rtlil             # noqa
from nmigen.hdl.ir import Fragment        # noqa


class Wrap(Elaboratable):
    """The design under stable port names that do not depend on what its signals are called."""

    def __init__(self, dut, ins, outs, resets=True):
        self.dut = dut
        self.ports = []
        self.conn = []
        for name, sig in ins:
            p = Signal(len(sig), name="i_" + name)
            self.ports.append(p)
            self.conn.append((sig, p))
        for name, sig in outs:
            p = Signal(len(sig), name="o_" + name)
            self.ports.append(p)
            self.conn.append((p, sig))

    def elaborate(self, platform):
        m = Module()
        m.submodules.dut = self.dut
        for a, b in self.conn:
            m.d.comb += a.eq(b)
        return m


def drivers(frag, domains):
    s = set()

    def walk(f):
        domains.update(f.domains)
        for dom, sigs in f.drivers.items():
            for x in sigs:
                s.add(id(x))
        for sf, _ in f.subfragments:
            walk(sf)
    walk(frag)
    return s


def emit(dut, ins, outs, path):
    w = Wrap(dut, ins, outs)
    frag = Fragment.get(w, None)
    ports = list(w.ports)
    domains = {}
    drv = drivers(frag, domains)
    for name, cd in domains.items():
        for sig in (cd.clk, cd.rst):
            if sig is not None and id(sig) not in drv and all(sig is not p for p in ports):
                ports.append(sig)
    with open(path, "w") as f:
        f.write(rtlil.convert(frag, name="top", ports=ports))


if __name__ == "__main__":
    spec = json.load(open(sys.argv[1]))
    import designs
    dut, ins, outs = getattr(designs, "d_" + spec["design"])(**spec.get("params", {}))
    emit(dut, ins, outs, sys.argv[2])
