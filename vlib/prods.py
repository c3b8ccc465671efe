"""The shipped products, built from the current tree."""
import cfgs
import core

# design, bd, ps, out bits, input layout, stream with markers
TABLE = {
    "beta": (12, 2, 16, "plain", True),
    "micro": (12, 1, 16, "plain", True),
    "beta_axistream": (12, 2, 16, "axis2", True),
    "micro_axistream": (12, 1, 16, "axis1", True),
    "beta_fifo_axistream": (12, 2, 16, "fifo", True),
    "beta_fifo_lvds": (12, 2, 40, "fifo", True),
    "integration_3_axi_stream": (12, 4, 32, "axis4", False),
}


def build(names, params=None):
    ds = cfgs.build_all([(n, (params or {}).get(n, {})) for n in names])
    core.ref()
    out = {}
    for n, d in zip(names, ds):
        p = core.Product(d, *TABLE[n])
        p.name = n
        p.step = 4 if p.io == "fifo" else p.ps          # pixels per input word
        out[n] = p
    return out
