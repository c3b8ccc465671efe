"""Elaborate -> yosys -> C -> shared library -> Python handle.  Always from /repo's current tree."""
import atexit
import ctypes
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

import netsim

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYPY = os.environ.get("VERIF_PYPY", "/opt/pypyvenv/bin/python")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore", LANG="C.UTF-8",
           PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")

u64 = ctypes.c_uint64
U8P = ctypes.POINTER(ctypes.c_uint8)
U64P = ctypes.POINTER(u64)
MAXP = 24


class Src(ctypes.Structure):
    _fields_ = [("valid_port", ctypes.c_int), ("ready_port", ctypes.c_int), ("ready_inv", ctypes.c_int),
                ("ndata", ctypes.c_int), ("hold", ctypes.c_int), ("junk", ctypes.c_int),
                ("dport", ctypes.c_int * MAXP), ("dwords", ctypes.c_int * MAXP),
                ("items", U64P), ("n", u64), ("stride", u64), ("pat", U8P), ("npat", u64), ("acc", U64P),
                ("pos", u64), ("ppos", u64), ("offering", u64), ("rnd", u64)]


class Snk(ctypes.Structure):
    _fields_ = [("valid_port", ctypes.c_int), ("ready_port", ctypes.c_int), ("ready_inv", ctypes.c_int),
                ("ndata", ctypes.c_int), ("last_port", ctypes.c_int), ("monitor", ctypes.c_int),
                ("dport", ctypes.c_int * MAXP), ("dwords", ctypes.c_int * MAXP),
                ("cap", U64P), ("capcyc", U64P), ("capn", u64), ("stride", u64), ("pat", U8P), ("npat", u64),
                ("n", u64), ("ppos", u64), ("lasts", u64), ("have_prev", u64), ("bad_cycle", u64),
                ("bad_kind", u64), ("bad_count", u64), ("prev_valid", u64), ("prev", u64 * (2 * MAXP))]


class Evt(ctypes.Structure):
    _fields_ = [("cycle", u64), ("port", ctypes.c_int), ("word", ctypes.c_int), ("val", u64)]


AXI_PORTS = ["arvalid", "araddr", "arlen", "arsize", "arburst", "rready", "arready", "rvalid", "rdata", "rlast", "rresp",
             "awvalid", "awaddr", "awlen", "awsize", "awburst", "awready", "wvalid", "wdata", "wstrb", "wlast", "wready",
             "bvalid", "bready", "bresp"]


class Axi(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int) for n in AXI_PORTS + ["ev", "ee", "eb", "pad"]] + \
        [("mem", U64P), ("base", u64), ("words", u64), ("pat", U8P * 5), ("npat", u64 * 5),
         ("rlat", u64), ("blat", u64), ("limit", u64),
         ("ar", U64P), ("ncap_ar", u64), ("aw", U64P), ("ncap_aw", u64), ("w", U64P), ("ncap_w", u64),
         ("nar", u64), ("nr", u64), ("naw", u64), ("nw", u64), ("nb", u64), ("ppos", u64 * 5), ("rv", u64), ("bv", u64),
         ("par", u64), ("paw", u64), ("pw", u64), ("pv", u64 * 6), ("arc", u64 * 64), ("bc", u64 * 64),
         ("bad", u64), ("bad_cycle", u64), ("bad_after", u64), ("cyc", u64), ("ends", u64), ("end_cycle", u64), ("moves", u64)]
    BAD = {1: "the read address was withdrawn or changed", 2: "a read burst is not 16 beats of 8 bytes",
           3: "the write address was withdrawn or changed", 4: "a write burst is not 16 beats of 8 bytes",
           5: "the write data was withdrawn or changed", 6: "the last flag is on the wrong beat",
           7: "not all byte lanes are written", 8: "data is written before the address of its burst"}

    def captured(self):
        import numpy
        f = lambda p, n, cap: numpy.ctypeslib.as_array(p, shape=(max(1, int(cap)),))[:min(int(n), int(cap))]
        return f(self.ar, self.nar, self.ncap_ar), f(self.aw, self.naw, self.ncap_aw), f(self.w, self.nw, self.ncap_w)


class BuildError(Exception):
    pass


_tmp = None


def workdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="verif_")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


_n = [0]


def sh(cmd, timeout=600, env=ENV, cwd=None):
    p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, env=env, cwd=cwd)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-3000:]))
    return p.stdout.decode(errors="replace")


YS = """hierarchy -check -top %s
proc
flatten
opt_clean
setundef -undriven -zero
opt_expr -mux_undef
opt_merge
opt_muxtree
opt_reduce
opt_expr
opt_clean -purge
memory_collect
opt_clean
rename -top top
write_json %s
"""


class Design:
    """A compiled netlist."""

    def __init__(self, so, inputs, outputs, clks):
        self.lib = lib = ctypes.CDLL(so)
        lib.sim_new.restype = ctypes.c_void_p
        lib.sim_init.argtypes = [ctypes.c_void_p]
        lib.sim_eval.argtypes = [ctypes.c_void_p]
        lib.sim_tick.argtypes = [ctypes.c_void_p]
        lib.sim_set.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int, u64]
        lib.sim_get.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int]
        lib.sim_get.restype = u64
        lib.sim_copy.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
        lib.sim_run.restype = u64
        lib.sim_run.argtypes = [ctypes.c_void_p, ctypes.POINTER(Src), ctypes.c_int, ctypes.POINTER(Snk), ctypes.c_int,
                                ctypes.POINTER(Evt), u64, u64, u64, u64, u64]
        lib.sim_run_axi.restype = u64
        lib.sim_run_axi.argtypes = lib.sim_run.argtypes + [ctypes.POINTER(Axi)]
        lib.sim_trace.argtypes = [ctypes.c_void_p, u64, ctypes.c_int, ctypes.POINTER(ctypes.c_int), U64P,
                                  ctypes.c_int, ctypes.POINTER(ctypes.c_int), U64P]
        self.inputs = inputs
        self.outputs = outputs
        self.clks = clks

    def new(self):
        return Sim(self)


def compile_il(text_or_path, top="top", kind="rtlil", tag="d", opt="-O1", oob_last=False):
    d = workdir()
    _n[0] += 1
    base = os.path.join(d, "%s_%d_%d" % (tag, os.getpid(), _n[0]))
    ys = YS % (top, base + ".json")
    if kind == "verilog":                                          # read ports have no enable yet: collect them first
        ys = ys.replace("opt_clean\nsetundef", "memory_collect\nopt_clean\nsetundef", 1)
    ys = "read_%s %s\n" % (kind, text_or_path) + ys
    open(base + ".ys", "w").write(ys)
    sh(["yosys", "-q", "-s", base + ".ys"])
    n = netsim.Net(base + ".json")
    c = n.emit(oob_last)
    open(base + ".c", "w").write(c + open(os.path.join(HERE, "engine.c")).read())
    sh(["clang", "-std=c2x", opt, "-w", "-fPIC", "-shared", "-o", base + ".so", base + ".c"])
    info = {"so": base + ".so", "in": n.in_index, "out": n.out_index, "clk": sorted(n.clk_names)}
    for e in (".json", ".ys"):
        os.unlink(base + e)
    return info


def load(info):
    return Design(info["so"], info["in"], info["out"], info["clk"])


def build(design, params=None, opt="-O1"):
    d = workdir()
    _n[0] += 1
    base = os.path.join(d, "%s_%d_%d" % (design, os.getpid(), _n[0]))
    json.dump({"design": design, "params": params or {}}, open(base + ".spec", "w"))
    sh([PYPY, os.path.join(HERE, "elab.py"), base + ".spec", base + ".il"])
    return load(compile_il(base + ".il", tag=design, opt=opt))


def _build_info(a):
    design, params, opt = a
    d = workdir()
    import uuid
    base = os.path.join(d, "%s_%s" % (design, uuid.uuid4().hex[:10]))
    json.dump({"design": design, "params": params or {}}, open(base + ".spec", "w"))
    sh([PYPY, os.path.join(HERE, "elab.py"), base + ".spec", base + ".il"])
    ys = "read_rtlil %s\n" % (base + ".il") + YS % ("top", base + ".json")
    open(base + ".ys", "w").write(ys)
    sh(["yosys", "-q", "-s", base + ".ys"])
    sh(["/usr/bin/env", "python3", "-c", """
import sys; sys.path.insert(0, %r)
import netsim, json
b = %r
n = netsim.Net(b + '.json')
c = n.emit()
open(b + '.c', 'w').write(c + open(%r).read())
json.dump({'in': n.in_index, 'out': n.out_index, 'clk': sorted(n.clk_names)}, open(b + '.info', 'w'))
""" % (HERE, base, os.path.join(HERE, "engine.c"))])
    sh(["clang", "-std=c2x", opt, "-w", "-fPIC", "-shared", "-o", base + ".so", base + ".c"])
    info = json.load(open(base + ".info"))
    info["so"] = base + ".so"
    return info


def build_many(specs, jobs=8, opt="-O1"):
    """specs: [(design, params)] -> [Design or BuildError]"""
    workdir()

    def one(s):
        try:
            return load(_build_info((s[0], s[1], opt)))
        except BuildError as e:
            return e
    with ThreadPoolExecutor(jobs) as p:
        return list(p.map(one, specs))


def arr64(xs):
    return (u64 * max(1, len(xs)))(*xs)


def arr8(xs):
    return (ctypes.c_uint8 * max(1, len(xs)))(*xs)


class Sim:
    def __init__(self, design):
        self.d = design
        self.lib = design.lib
        self.s = self.lib.sim_new()
        self.cycles = 0

    def __del__(self):
        try:
            _libc.free(ctypes.c_void_p(self.s))
        except Exception:
            pass

    def init(self):
        self.lib.sim_init(self.s)

    def copy_from(self, o):
        self.lib.sim_copy(self.s, o.s)

    def set(self, name, v):
        p, w = self.d.inputs[name]
        if w <= 64:
            self.lib.sim_set(self.s, p, 0, v & 0xFFFFFFFFFFFFFFFF)
        else:
            for k in range((w + 63) // 64):
                self.lib.sim_set(self.s, p, k, (v >> (64 * k)) & 0xFFFFFFFFFFFFFFFF)

    def get(self, name):
        p, w = self.d.outputs[name]
        v = 0
        for k in range((w + 63) // 64):
            v |= self.lib.sim_get(self.s, p, k) << (64 * k)
        return v

    def eval(self):
        self.lib.sim_eval(self.s)

    def tick(self):
        self.lib.sim_tick(self.s)
        self.cycles += 1

    def cycle(self, **ins):
        for k, v in ins.items():
            self.set(k, v)
        self.eval()

    def resets(self):
        return [n for n in self.d.inputs if n.endswith("rst")]

    def reset(self, cycles=2):
        for r in self.resets():
            self.set(r, 1)
        for _ in range(cycles):
            self.eval()
            self.tick()
        for r in self.resets():
            self.set(r, 0)

    def _ports(self, table, names, st):
        for i, n in enumerate(names):
            p, w = table[n]
            st.dport[i] = p
            st.dwords[i] = (w + 63) // 64
        st.ndata = len(names)
        st.stride = sum(st.dwords[i] for i in range(len(names))) or 1

    def source(self, data, items, valid=None, ready=None, ready_inv=0, pat=None, hold=1, junk=1):
        """items: list of tuples of port values"""
        s = Src()
        s.valid_port = self.d.inputs[valid][0] if valid else -1
        s.ready_port = self.d.outputs[ready][0] if ready else -1
        s.ready_inv = ready_inv
        self._ports(self.d.inputs, data, s)
        flat = []
        ws = [s.dwords[i] for i in range(len(data))]
        if hasattr(items, "dtype"):             # numpy array of uint64, one row per item
            import numpy
            s._k1 = numpy.ascontiguousarray(items, dtype=numpy.uint64)
            assert s._k1.size == len(items) * s.stride
            s.items = ctypes.cast(s._k1.ctypes.data, U64P)
        elif all(w == 1 for w in ws):
            for it in items:
                flat.extend(it)
        else:
            for it in items:
                for w, v in zip(ws, it):
                    for k in range(w):
                        flat.append((v >> (64 * k)) & 0xFFFFFFFFFFFFFFFF)
        if not hasattr(items, "dtype"):
            s._k1 = arr64(flat)
            s.items = ctypes.cast(s._k1, U64P)
        s.n = len(items)
        s._k2 = arr8(pat or [])
        s.pat = ctypes.cast(s._k2, U8P)
        s.npat = len(pat or [])
        s._k3 = (u64 * max(1, len(items)))()
        s.acc = ctypes.cast(s._k3, U64P)
        s.hold = hold
        s.junk = junk
        s.rnd = 0x9E3779B97F4A7C15
        return s

    def sink(self, data, cap, valid=None, ready=None, ready_inv=0, pat=None, last=None, monitor=0):
        s = Snk()
        s.valid_port = self.d.outputs[valid][0] if valid else -1
        s.ready_port = self.d.inputs[ready][0] if ready else -1
        s.ready_inv = ready_inv
        s.last_port = self.d.outputs[last][0] if last else -1
        s.monitor = monitor
        self._ports(self.d.outputs, data, s)
        s._ws = [s.dwords[i] for i in range(len(data))]
        s._k1 = (u64 * max(1, cap * s.stride))()
        s.cap = ctypes.cast(s._k1, U64P)
        s._k2 = (u64 * max(1, cap))()
        s.capcyc = ctypes.cast(s._k2, U64P)
        s.capn = cap
        s._k3 = arr8(pat or [])
        s.pat = ctypes.cast(s._k3, U8P)
        s.npat = len(pat or [])
        return s

    def memory(self, mem, base, cap_r, cap_w, pats, rlat=0, blat=0, limit=15, end=None):
        """an AXI memory behind the ports named in AXI_PORTS; mem: numpy array of words at address base"""
        import numpy
        a = Axi()
        for n in AXI_PORTS:
            i = n in ("arready", "rvalid", "rdata", "rlast", "rresp", "awready", "wready", "bvalid", "bresp")
            setattr(a, n, (self.d.inputs["i_" + n] if i else self.d.outputs["o_" + n])[0])
        for n, k in zip(("ev", "ee", "eb"), end or (None,) * 3):
            setattr(a, n, self.d.outputs[k][0] if k else -1)
        a._mem = numpy.ascontiguousarray(mem, dtype=numpy.uint64)
        a.mem, a.base, a.words = ctypes.cast(a._mem.ctypes.data, U64P), base, len(mem)
        a._pats = [arr8(p or []) for p in pats]
        for k, p in enumerate(pats):
            a.pat[k] = ctypes.cast(a._pats[k], U8P)
            a.npat[k] = len(p or [])
        a.rlat, a.blat, a.limit = rlat, blat, limit
        a._caps = [(u64 * n)() for n in (cap_r, cap_w, 16 * cap_w)]
        a.ar, a.aw, a.w = [ctypes.cast(c, U64P) for c in a._caps]
        a.ncap_ar, a.ncap_aw, a.ncap_w = cap_r, cap_w, 16 * cap_w
        return a

    def run(self, srcs, snks, max_cycles, events=(), stop_lasts=0, stop_idle=0, extra=0, axi=None):
        """returns (cycles, [captured records per sink]); state is kept in the structures"""
        A = (Src * max(1, len(srcs)))(*srcs)
        B = (Snk * max(1, len(snks)))(*snks)
        ev = []
        for c, n, v in sorted(events, key=lambda x: x[0]):
            p, w = self.d.inputs[n]
            for k in range((w + 63) // 64):
                ev.append(Evt(c, p, k, (v >> (64 * k)) & 0xFFFFFFFFFFFFFFFF))
        E = (Evt * max(1, len(ev)))(*ev)
        args = (self.s, A, len(srcs), B, len(snks), E, len(ev), max_cycles, stop_lasts, stop_idle, extra)
        n = self.lib.sim_run(*args) if axi is None else self.lib.sim_run_axi(*args, ctypes.byref(axi))
        self.cycles += n
        for i, s in enumerate(srcs):
            for f in ("pos", "ppos", "offering", "rnd"):
                setattr(s, f, getattr(A[i], f))
        for i, s in enumerate(snks):
            for f in ("n", "ppos", "lasts", "have_prev", "bad_cycle", "bad_kind", "bad_count", "prev_valid"):
                setattr(s, f, getattr(B[i], f))
            for k in range(2 * MAXP):
                s.prev[k] = B[i].prev[k]
        return n

    @staticmethod
    def records(snk):
        raw = snk._k1[:snk.n * snk.stride]
        ws = snk._ws
        st = snk.stride
        if all(w == 1 for w in ws):
            if st == 1:
                return [(x,) for x in raw]
            return [tuple(raw[i:i + st]) for i in range(0, len(raw), st)]
        out = []
        for i in range(0, len(raw), st):
            k = i
            r = []
            for w in ws:
                v = 0
                for j in range(w):
                    v |= raw[k + j] << (64 * j)
                k += w
                r.append(v)
            out.append(tuple(r))
        return out

    def trace(self, names_in, rows, names_out):
        n = len(rows)
        ip = (ctypes.c_int * max(1, len(names_in)))(*[self.d.inputs[x][0] for x in names_in])
        op = (ctypes.c_int * max(1, len(names_out)))(*[self.d.outputs[x][0] for x in names_out])
        flat = [v for r in rows for v in r]
        I = arr64(flat)
        O = (u64 * max(1, n * len(names_out)))()
        self.lib.sim_trace(self.s, n, len(names_in), ip, ctypes.cast(I, U64P), len(names_out), op, ctypes.cast(O, U64P))
        self.cycles += n
        k = len(names_out)
        raw = O[:n * k]
        return [tuple(raw[i * k:(i + 1) * k]) for i in range(n)]

    def trace_np(self, names_in, rows, names_out):
        """as trace, with numpy uint64 arrays (n, ports)"""
        import numpy
        rows = numpy.ascontiguousarray(rows, dtype=numpy.uint64)
        n = len(rows)
        out = numpy.zeros((n, len(names_out)), numpy.uint64)
        ip = (ctypes.c_int * max(1, len(names_in)))(*[self.d.inputs[x][0] for x in names_in])
        op = (ctypes.c_int * max(1, len(names_out)))(*[self.d.outputs[x][0] for x in names_out])
        self.lib.sim_trace(self.s, n, len(names_in), ip, ctypes.cast(rows.ctypes.data, U64P), len(names_out), op,
                           ctypes.cast(out.ctypes.data, U64P))
        self.cycles += n
        return out


_libc = ctypes.CDLL(None)
