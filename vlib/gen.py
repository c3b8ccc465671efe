"""Shared Hypothesis strategies (all cases JSON-able) and their deterministic expansion."""
import random

from hypothesis import strategies as st

import model

# ---------------------------------------------------------------- schedules
# A pattern is a JSON value: [] = always, list of ints, or ["rnd", seed, percent, n, sticky]


def _runs(rs, first):
    out = []
    v = first
    for r in rs:
        out += [v] * r
        v = 1 - v
    if 1 not in out:
        out.append(1)
    return out


def bits_pattern():
    """cyclic valid/ready pattern that contains at least one 1"""
    small = st.lists(st.integers(0, 1), min_size=1, max_size=12).map(lambda l: l if 1 in l else l + [1])
    runs = st.builds(_runs, st.lists(st.integers(1, 40), min_size=1, max_size=8), st.integers(0, 1))
    rnd = st.builds(lambda s, p, n: ["rnd", s, p, n], st.integers(0, 2 ** 32), st.sampled_from([3, 10, 30, 50, 70, 90, 97]),
                    st.integers(30, 800))
    pulse = st.builds(lambda a: [0] * a + [1], st.integers(1, 30))
    return st.one_of(st.just([]), small, runs, rnd, pulse)


def ready_pattern():
    """as bits_pattern, plus ready depending on the valid of the cycle before (2: ready if it was valid, 3: if not)"""
    dep = st.lists(st.sampled_from([0, 1, 2, 3]), min_size=1, max_size=8).map(
        lambda l: l if 1 in l else l + [1])
    late = st.just([2])
    stall = st.builds(lambda a, b: [1] * a + [0] * b + [1] * 7, st.integers(0, 60), st.integers(20, 400))
    return st.one_of(bits_pattern(), dep, late, stall)


def gap_pattern(most=70000):
    """one long pause after some cycles"""
    n = st.one_of(st.integers(200, min(most, 6000)),
                  st.builds(lambda k, o: min(most, (1 << k) + o), st.integers(8, 17), st.integers(-2, 40)))
    return st.builds(lambda a, b: ["gap", a, b], st.one_of(st.integers(0, 30), st.integers(0, 400)), n)


def gap(*pats):
    """the cycles in the long pauses of some patterns"""
    return sum(p[2] for p in pats if p and p[0] == "gap")


def expand(p):
    if p and p[0] == "gap":
        return [1] * p[1] + [0] * p[2] + [1] * 300000
    if p and p[0] == "rnd":
        r = random.Random(p[1])
        out = []
        v = 1
        for _ in range(p[3]):
            out.append(1 if r.randrange(100) < p[2] else 0)
        if 1 not in out:
            out.append(1)
        return out
    return list(p)


def density(p):
    """fraction of ones, for cycle budgets (dependent patterns count a half)"""
    q = expand(p) if p[:1] != ["gap"] else []
    if not q:
        return 1.0
    return max(0.01, sum(0.4 if x > 1 else x for x in q) / len(q))


# ---------------------------------------------------------------- images
KINDS = ["uniform", "walk", "const", "extremes", "ff", "rows", "small", "spikes"]


def image_spec(explicit=True):
    """["list", [...]] (cycled) or [kind, seed]"""
    k = st.builds(lambda k, s: [k, s], st.sampled_from(KINDS), st.integers(0, 2 ** 32))
    if not explicit:
        return k
    return st.one_of(k, st.builds(lambda l: ["list", l], st.lists(st.integers(0, 65535), min_size=1, max_size=40)))


def image(spec, n, w, bd):
    mask = (1 << bd) - 1
    if spec[0] == "list":
        l = [x & mask for x in spec[1]]
        return [l[i % len(l)] for i in range(n)]
    kind, s = spec
    r = random.Random(s)
    if kind == "uniform":
        return [r.getrandbits(bd) for _ in range(n)]
    if kind == "small":
        b = r.getrandbits(bd)
        return [min(mask, max(0, b + r.randrange(-3, 4))) for _ in range(n)]
    if kind == "const":
        v = r.choice([0, mask, 1 << (bd - 1), r.getrandbits(bd)])
        return [v] * n
    if kind == "extremes":
        c = [0, mask, 1 << (bd - 1), (1 << (bd - 1)) - 1, 1, mask - 1]
        return [r.choice(c) for _ in range(n)]
    if kind == "rows":
        out = []
        while len(out) < n:
            out += [r.getrandbits(bd)] * w
        return out[:n]
    if kind == "walk":
        out = []
        c = [r.getrandbits(bd) for _ in range(4)]
        step = 1 << r.randrange(0, bd + 1)
        for i in range(n):
            c[i & 3] = (c[i & 3] + r.randrange(-step, step + 1)) % (mask + 1)
            out.append(c[i & 3])
        return out
    if kind == "spikes":
        b = r.getrandbits(bd)
        out = [b] * n
        for _ in range(max(1, n // 9)):
            out[r.randrange(n)] = r.getrandbits(bd)
        return out
    if kind == "ff":
        # differences whose codes are long runs of ones (default table: big positive differences)
        out = []
        for i in range(n):
            x = i % w
            q = out[i - 4] if x >= 4 else out[i - w] if i >= w else 1 << (bd - 1)
            d = r.choice([(1 << (bd - 1)) - 1, (1 << max(1, bd - 2)) - 1, (1 << max(1, bd - 3)) - 1, 0, mask - q, 7, 1])
            out.append((q + d) & mask if r.randrange(8) else r.getrandbits(bd))
        return out
    raise KeyError(kind)


# ---------------------------------------------------------------- frame geometry
def geometry(ps, maxpix):
    """(width, height), width a multiple of ps and at least 4, biased to small and extreme shapes"""
    q = 4 // ps if ps <= 4 else 1

    def mk(wu, h):
        w = wu * ps
        return [w, max(1, min(h, maxpix // w))]
    wmax = min(65535 // ps, max(q, maxpix // ps))
    small = st.builds(mk, st.integers(q, min(wmax, q + 24)), st.integers(1, 24))
    wide = st.builds(mk, st.integers(q, wmax), st.integers(1, 4))
    tall = st.builds(mk, st.integers(q, min(wmax, q + 3)), st.integers(1, 65535))
    pows = st.builds(lambda k, o, h: mk(min(wmax, max(q, (1 << k) // ps + o)), h), st.integers(2, 16),
                     st.integers(-1, 1), st.integers(1, 9))
    return st.one_of(small, small, wide, tall, pows)


# ---------------------------------------------------------------- Huffman tables
def huff_codes(n, seed, skew, maxlen=16, reserve_ones=False):
    """n codewords of a random prefix code, at most maxlen bits long; [(code, length)]"""
    r = random.Random(seed)
    need = n + (1 if reserve_ones else 0)
    leaves = [(0, 0)]
    extra = r.choice([0, 0, 0, 1, 2, 5])
    while len(leaves) < need + extra or (len(leaves) == 1 and need == 1):
        cand = [i for i, (c, l) in enumerate(leaves) if l < maxlen]
        if not cand:
            break
        if skew == 0:
            i = min(cand, key=lambda k: leaves[k][1])
        elif skew == 1:
            i = r.choice(cand)
        else:
            i = max(cand, key=lambda k: (leaves[k][1], -k)) if r.randrange(10) < 9 else r.choice(cand)
        c, l = leaves.pop(i)
        leaves += [(c << 1, l + 1), (c << 1 | 1, l + 1)]
    m = r.choice([0, 0xFFFF, r.getrandbits(16)])                # another side of the tree at each level
    leaves = [(c ^ (m >> (16 - l)), l) for c, l in leaves]
    if reserve_ones:
        leaves = [x for x in leaves if x[0] != (1 << x[1]) - 1]
    r.shuffle(leaves)
    return [list(x) for x in leaves[:n]]


def table_spec():
    """None = the default table, or [seed, skew]"""
    return st.one_of(st.none(), st.builds(lambda s, k: [s, k], st.integers(0, 2 ** 32), st.integers(0, 2)))


def table(spec, bd):
    if spec is None:
        return [list(x) for x in model.TABLE[:bd + 1]]
    if spec[1] == 3:                                # any bits, not a prefix code
        r = random.Random(spec[0])
        return [[r.choice([(1 << l) - 1, r.getrandbits(l)]), l] for l in (r.choice([16, r.randrange(1, 17)]) for _ in range(bd + 1))]
    return huff_codes(bd + 1, spec[0], spec[1])


def entry(i, code, length, bd):
    """the memory word of a table entry, as documented by the encoder"""
    return (length << (16 + bd)) | (code << (0 if i == 16 else i))


def full_table(spec, bd):
    """17 entries for model functions"""
    t = table(spec, bd)
    return [tuple(x) for x in t] + [(0, 0)] * (17 - len(t))
