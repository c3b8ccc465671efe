"""Configurations the modules accept, drawn from VERIF_SEED (plus fixed corners)."""
import random
from math import ceil

import rtl
from fw import Violation


def random_core(r):
    bd = r.choice(range(2, 17))
    ps = r.choice([1, 2, 4])
    total = min(16 + bd, 31) * ps
    out = 8 * r.choice([1, 2, 2, 3, 4, 4, 5, 6, 8])
    conv = min(total, r.choice([r.randrange(1, total + 1), r.randrange(max(1, total // 4), total + 1), total, 16, 30]))
    steps = ceil(total / conv) + 3
    cd = steps + 4 + r.choice([0, 0, 1, 2, 5, r.randrange(0, 60), r.randrange(0, 400)])
    lj = r.choice([25, 26, 27, 31, 32, 33, r.randrange(25, 130), 64, 128, 512])
    buf = conv + out + r.choice([0, 0, 1, 2, 7, r.randrange(0, 80), 2 * conv])
    return dict(bd=bd, ps=ps, out_bits=out, lj=lj, conv=conv, cdepth=cd, buf=buf)


CORNERS = [
    dict(bd=12, ps=2, out_bits=16, lj=512, conv=30, cdepth=512, buf=77),      # Beta
    dict(bd=12, ps=4, out_bits=32, lj=128, conv=48, cdepth=256, buf=144),     # the 4 pixel default
    dict(bd=16, ps=4, out_bits=64, lj=25, conv=124, cdepth=9, buf=188),
    dict(bd=16, ps=1, out_bits=8, lj=25, conv=31, cdepth=8, buf=39),
    dict(bd=2, ps=1, out_bits=8, lj=25, conv=18, cdepth=8, buf=26),
    dict(bd=2, ps=4, out_bits=24, lj=25, conv=7, cdepth=18, buf=31),
    dict(bd=16, ps=2, out_bits=16, lj=32, conv=1, cdepth=70, buf=17),
]


def core_configs(seed, n, corners=True):
    r = random.Random("core%s" % seed)
    out = [dict(c) for c in CORNERS] if corners else []
    seen = {str(c) for c in out}
    # every bit depth and every pixel count appears
    bds = list(range(2, 17))
    r.shuffle(bds)
    k = 0
    while len(out) < n:
        c = random_core(r)
        if k < len(bds):
            c2 = dict(c)
            c2["bd"] = bds[k]
            total = min(16 + c2["bd"], 31) * c2["ps"]
            c2["conv"] = min(total, c2["conv"])
            steps = ceil(total / c2["conv"]) + 3
            c2["cdepth"] = max(c2["cdepth"], steps + 4)
            c = c2
        k += 1
        if str(c) not in seen:
            seen.add(str(c))
            out.append(c)
    return out[:n]


def build_all(specs):
    """[(design, params)] -> [Design]; a legal design that does not build is a violation"""
    ds = rtl.build_many(specs)
    for s, d in zip(specs, ds):
        if isinstance(d, rtl.BuildError):
            blame(s, d)
    return ds


def blame(spec, err):
    """A failure inside the repository's code (or a netlist that is not a synchronous circuit) is a violation,
    anything else an error of the check."""
    t = str(err)
    files = [l for l in t.splitlines() if l.strip().startswith('File "')]
    inner = files[-1] if files else ""
    if "/migen_src/" in inner or "nmigen" in inner and any("/migen_src/" in f for f in files) \
            or "netsim.NetError" in t:
        raise Violation("%s %r cannot be built:\n%s" % (spec[0], spec[1], t[-1500:]))
    raise err
