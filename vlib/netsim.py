"""Turn a flattened yosys netlist (write_json) into C, i.e. a cycle simulator of one clock.

Every flip-flop of the designs here is clocked by the positive edge of one and the same root clock
(the "sync" and "full" domains share the wire); this is asserted, not assumed.
Undriven bits and x constants read as 0.
"""
import json
import subprocess


class NetError(Exception):
    pass


def ctype(w):
    return "u64" if w <= 64 else "unsigned _BitInt(%d)" % w


def mtype(w):
    """type of a variable in memory: clang 18 lays out arrays of other wide _BitInts inconsistently"""
    return "u64" if w <= 64 else "unsigned _BitInt(%d)" % ((w + 127) // 128 * 128)


def stype(w):
    return "i64" if w <= 64 else "signed _BitInt(%d)" % w


def mask(w):
    if w >= 64:
        return None
    return "0x%xull" % ((1 << w) - 1)


def const(v, w):
    v &= (1 << w) - 1
    if w <= 64:
        return "0x%xull" % v
    parts = []
    T = ctype(w)
    i = 0
    while v:
        lo = v & 0xFFFFFFFFFFFFFFFF
        if lo:
            parts.append("((%s)0x%xull << %d)" % (T, lo, 64 * i))
        v >>= 64
        i += 1
    return "(" + " | ".join(parts or ["(%s)0" % T]) + ")"


def trunc(e, w):
    m = mask(w)
    if w <= 64:
        return "((%s) & %s)" % (e, m) if m else "((u64)(%s))" % e
    return "((%s)(%s))" % (ctype(w), e)


SEQ = ("$dff", "$dffe", "$sdff", "$sdffe", "$sdffce")


class Net:
    def __init__(self, path, top="top"):
        d = json.load(open(path))
        m = d["modules"][top]
        self.m = m
        self.ports = m["ports"]
        self.cells = m["cells"]
        self.bitsrc = {}      # bit -> (var, off, width)
        self.inputs = {}
        self.outputs = {}
        self.clkbits = set()
        self.vars = {}        # var -> width
        self.comb = []        # (outvar, cellname)
        self.seq = []
        self.mems = []
        self.lines = []
        self._build()

    # --- expressions
    def runs(self, bits):
        out = []
        i = 0
        n = len(bits)
        while i < n:
            b = bits[i]
            if isinstance(b, str) or b not in self.bitsrc:
                v = 0
                j = i
                while j < n and (isinstance(bits[j], str) or bits[j] not in self.bitsrc):
                    if bits[j] == "1":
                        v |= 1 << (j - i)
                    j += 1
                out.append((i, j - i, None, v))
                i = j
                continue
            var, off = self.bitsrc[b]
            j = i + 1
            while j < n and not isinstance(bits[j], str) and self.bitsrc.get(bits[j]) == (var, off + j - i):
                j += 1
            out.append((i, j - i, var, off))
            i = j
        return out

    def ref(self, var):
        return var

    def expr(self, bits, w=None, signed=False):
        """C expression of the sigspec, extended (or cut) to w bits."""
        n = len(bits)
        if w is None:
            w = n
        if w < n:
            bits = bits[:w]
            n = w
        T = ctype(w)
        parts = []
        for pos, ln, var, off in self.runs(bits):
            if var is None:
                if off:
                    parts.append("((%s)%s)" % (T, const(off << pos, w)) if w > 64 else const(off << pos, w))
                continue
            vw = self.vars[var]
            e = self.ref(var)
            if off:
                e = "(%s >> %d)" % (e, off)
            if off + ln < vw:
                if ln < 64:
                    e = "(u64)(%s & %s)" % (e, "0x%xull" % ((1 << ln) - 1))
                elif ln == 64:
                    e = "(u64)(%s)" % e
                else:
                    e = "(unsigned _BitInt(%d))(%s)" % (ln, e)
            if w > 64:
                e = "(%s)(%s)" % (T, e)
            elif vw > 64:
                e = "(u64)(%s)" % e
            if pos:
                e = "(%s << %d)" % (e, pos)
            parts.append("(" + e + ")")
        if not parts:
            e = const(0, w)
        else:
            e = "(" + " | ".join(parts) + ")"
        if signed and n < w:
            sb = 1 << (n - 1)
            e = trunc("((%s ^ %s) - %s)" % (e, const(sb, w), const(sb, w)), w)
        return e

    def deps(self, bits):
        s = set()
        for b in bits:
            if not isinstance(b, str) and b in self.bitsrc:
                s.add(self.bitsrc[b][0])
        return s

    # --- cells
    def cellexpr(self, c):
        t = c["type"]
        P = c["parameters"]
        C = c["connections"]

        def pi(k):
            v = P.get(k, 0)
            return int(v, 2) if isinstance(v, str) else v
        Y = C["Y"]
        yw = len(Y)
        A = C.get("A")
        B = C.get("B")
        sa = bool(pi("A_SIGNED"))
        sb = bool(pi("B_SIGNED"))
        b1 = lambda e: ("((u64)(%s))" % e)
        if t in ("$and", "$or", "$xor", "$xnor"):
            a = self.expr(A, yw, sa)
            b = self.expr(B, yw, sb)
            op = {"$and": "&", "$or": "|", "$xor": "^", "$xnor": "^"}[t]
            e = "(%s %s %s)" % (a, op, b)
            if t == "$xnor":
                e = trunc("~" + e, yw)
            return e
        if t == "$not":
            return trunc("~" + self.expr(A, yw, sa), yw)
        if t == "$pos":
            return self.expr(A, yw, sa)
        if t == "$neg":
            return trunc("-" + self.expr(A, yw, sa), yw)
        if t in ("$add", "$sub", "$mul"):
            a = self.expr(A, yw, sa and sb)
            b = self.expr(B, yw, sa and sb)
            return trunc("%s %s %s" % (a, {"$add": "+", "$sub": "-", "$mul": "*"}[t], b), yw)
        if t in ("$logic_not",):
            return b1("%s == 0" % self.expr(A))
        if t == "$logic_and":
            return b1("(%s != 0) & (%s != 0)" % (self.expr(A), self.expr(B)))
        if t == "$logic_or":
            return b1("(%s != 0) | (%s != 0)" % (self.expr(A), self.expr(B)))
        if t in ("$reduce_or", "$reduce_bool"):
            return b1("%s != 0" % self.expr(A))
        if t == "$reduce_and":
            return b1("%s == %s" % (self.expr(A), const((1 << len(A)) - 1, len(A))))
        if t in ("$reduce_xor", "$reduce_xnor"):
            if len(A) > 64:
                raise NetError("wide reduce_xor")
            e = "__builtin_parityll(%s)" % self.expr(A)
            return b1(("!" if t == "$reduce_xnor" else "") + e)
        if t in ("$eq", "$ne", "$eqx", "$nex", "$lt", "$le", "$gt", "$ge"):
            w = max(len(A), len(B))
            s = sa and sb
            a = self.expr(A, w, s)
            b = self.expr(B, w, s)
            op = {"$eq": "==", "$eqx": "==", "$ne": "!=", "$nex": "!=", "$lt": "<", "$le": "<=", "$gt": ">", "$ge": ">="}[t]
            if s and op not in ("==", "!="):
                f = const(1 << (w - 1), w)
                a = "(%s ^ %s)" % (a, f)
                b = "(%s ^ %s)" % (b, f)
            return b1("%s %s %s" % (a, op, b))
        if t in ("$shl", "$sshl", "$shr", "$sshr"):
            if len(B) > 64:
                raise NetError("wide shift")
            if t in ("$shl", "$sshl"):
                w = yw
                a = self.expr(A, w, sa)
                sh = self.expr(B)
                return "(%s >= %d ? %s : %s)" % (sh, w, const(0, w), trunc("%s << %s" % (a, sh), w))
            w = max(yw, len(A))
            a = self.expr(A, w, sa)
            sh = self.expr(B)
            if t == "$sshr" and sa:
                if w <= 64:
                    e = "((u64)(((i64)(%s << %d)) >> (%s >= %d ? %d : %s + %d)))" % (
                        a, 64 - w, sh, w, 63, sh, 64 - w)
                else:
                    e = "((%s)(((%s)%s) >> (%s >= %d ? %d : %s)))" % (ctype(w), stype(w), a, sh, w, w - 1, sh)
                return self.cut(e, w, yw)
            e = "(%s >= %d ? %s : (%s >> %s))" % (sh, w, const(0, w), a, sh)
            return self.cut(e, w, yw)
        if t in ("$shift", "$shiftx"):
            if sb and not self.is_zero(B[-1]):
                if len(B) > 63:
                    raise NetError("wide shift")
                w = max(yw, len(A))
                a = self.expr(A, w, sa if t == "$shift" else False)
                sh = self.expr(B, 64, True)
                e = "(((i64)%s) >= 0 ? (%s >= %d ? %s : (%s >> %s)) : ((0-%s) >= %d ? %s : %s))" % (
                    sh, sh, w, const(0, w), a, sh, sh, w, const(0, w), trunc("%s << (0-%s)" % (a, sh), w))
                return self.cut(e, w, yw)
            w = max(yw, len(A))
            a = self.expr(A, w, sa if t == "$shift" else False)
            sh = self.expr(B)
            return self.cut("(%s >= %d ? %s : (%s >> %s))" % (sh, w, const(0, w), a, sh), w, yw)
        if t == "$mux":
            return "(%s ? %s : %s)" % (self.expr(C["S"]), self.expr(B), self.expr(A))
        if t == "$pmux":
            e = self.expr(A)
            n = len(C["S"])
            for i in reversed(range(n)):
                e = "(%s ? %s : %s)" % (self.expr([C["S"][i]]), self.expr(B[i * yw:(i + 1) * yw]), e)
            return e
        if t == "$bmux":
            sel = self.expr(C["S"])
            n = 1 << len(C["S"])
            e = self.expr(A[:yw])
            for i in range(1, n):
                e = "(%s == %d ? %s : %s)" % (sel, i, self.expr(A[i * yw:(i + 1) * yw]), e)
            return e
        if t in ("$divfloor", "$modfloor", "$div", "$mod") and not (sa and sb):
            w = max(len(A), len(B), yw)
            op = "/" if "div" in t else "%"
            return self.cut("(%s == 0 ? %s : %s %s %s)" % (self.expr(B, w), const(0, w), self.expr(A, w), op, self.expr(B, w)), w, yw)
        raise NetError("cell type %s" % t)

    def is_zero(self, b):
        return b == "0" or b == "x"

    def cut(self, e, w, yw):
        if w == yw:
            return e
        if yw <= 64 and w > 64:
            e = "(u64)(%s)" % e
        return trunc(e, yw)

    def _build(self):
        m = self.m
        nv = 0
        for name, p in self.ports.items():
            if p["direction"] == "input":
                v = "I_%d" % nv
                nv += 1
                self.inputs[name] = (v, len(p["bits"]))
                self.vars[v] = len(p["bits"])
                for i, b in enumerate(p["bits"]):
                    self.bitsrc[b] = (v, i)
        init = {}
        for name, nn in m["netnames"].items():
            iv = nn.get("attributes", {}).get("init")
            if iv is None:
                continue
            if not isinstance(iv, str):
                iv = bin(iv)[2:]
            iv = iv[::-1]
            for i, b in enumerate(nn["bits"]):
                if i < len(iv) and iv[i] in "01" and not isinstance(b, str):
                    init[b] = int(iv[i])
        self.init = {}
        clks = set()
        for cn, c in self.cells.items():
            t = c["type"]
            if t in SEQ:
                v = "R_%d" % nv
                nv += 1
                Q = c["connections"]["Q"]
                self.vars[v] = len(Q)
                iv = 0
                for i, b in enumerate(Q):
                    self.bitsrc[b] = (v, i)
                    iv |= init.get(b, 0) << i
                self.init[v] = iv
                self.seq.append((v, c))
                clks.add((c["connections"]["CLK"][0], c["parameters"]["CLK_POLARITY"]))
            elif t == "$mem_v2":
                self.mems.append((cn, c))
            elif t in ("$check", "$print", "$assert", "$assume", "$cover"):
                continue
            else:
                v = "c_%d" % nv
                nv += 1
                Y = c["connections"]["Y"]
                self.vars[v] = len(Y)
                for i, b in enumerate(Y):
                    self.bitsrc[b] = (v, i)
                self.comb.append((v, c, {k: x for k, x in c["connections"].items() if k != "Y"}))

        def pi(P, k):
            v = P[k]
            return int(v, 2) if isinstance(v, str) else v

        def bl(P, k, n):
            v = P[k]
            s = v[::-1] if isinstance(v, str) else bin(v)[2:][::-1]
            return [int(s[i]) if i < len(s) and s[i] in "01" else 0 for i in range(n)]
        self.memdecl = []
        self.memseq = []
        for mi, (cn, c) in enumerate(self.mems):
            P = c["parameters"]
            C = c["connections"]
            W = pi(P, "WIDTH")
            S = pi(P, "SIZE")
            AB = pi(P, "ABITS")
            off0 = pi(P, "OFFSET")
            nr = pi(P, "RD_PORTS")
            nw = pi(P, "WR_PORTS")
            ini = P["INIT"]
            ini = ini[::-1] if isinstance(ini, str) else bin(ini)[2:][::-1]
            words = []
            for i in range(S):
                s = ini[i * W:(i + 1) * W]
                words.append(sum(1 << k for k, ch in enumerate(s) if ch == "1"))
            self.memdecl.append((mi, W, S, words))
            rce = bl(P, "RD_CLK_ENABLE", nr)
            rcp = bl(P, "RD_CLK_POLARITY", nr)
            trm = bl(P, "RD_TRANSPARENCY_MASK", nr * nw)
            wce = bl(P, "WR_CLK_ENABLE", nw)
            wide = any(bl(P, "RD_WIDE_CONTINUATION", nr)) or any(bl(P, "WR_WIDE_CONTINUATION", nw))
            if wide:
                raise NetError("wide memory port")
            for k in range(nw):
                if not wce[k]:
                    raise NetError("async write")
                clks.add((C["WR_CLK"][k], P["WR_CLK_POLARITY"][::-1][k] if isinstance(P["WR_CLK_POLARITY"], str) else "1"))
            for k in range(nr):
                data = C["RD_DATA"][k * W:(k + 1) * W]
                addr = C["RD_ADDR"][k * AB:(k + 1) * AB]
                if rce[k]:
                    clks.add((C["RD_CLK"][k], "1"))
                    v = "R_%d" % nv
                    nv += 1
                    self.vars[v] = W
                    for i, b in enumerate(data):
                        self.bitsrc[b] = (v, i)
                    riv = bl(P, "RD_INIT_VALUE", nr * W)[k * W:(k + 1) * W]
                    self.init[v] = sum(x << i for i, x in enumerate(riv))
                    self.memseq.append(("rd", mi, W, S, off0, v, addr, C["RD_EN"][k],
                                        [(w2, trm[k * nw + w2]) for w2 in range(nw)], c, AB))
                    if any(not self.is_zero(x) for x in (C["RD_SRST"][k], C["RD_ARST"][k])):
                        raise NetError("memory read port reset")
                else:
                    v = "c_%d" % nv
                    nv += 1
                    self.vars[v] = W
                    for i, b in enumerate(data):
                        self.bitsrc[b] = (v, i)
                    self.comb.append((v, ("memrd", mi, W, S, off0), {"ADDR": addr}))
            for k in range(nw):
                self.memseq.append(("wr", mi, W, S, off0, None, C["WR_ADDR"][k * AB:(k + 1) * AB],
                                    C["WR_EN"][k * W:(k + 1) * W], C["WR_DATA"][k * W:(k + 1) * W], c, AB))
        # clocks
        roots = set()
        for b, pol in clks:
            if str(pol)[-1] != "1":
                raise NetError("negative edge clock")
            if isinstance(b, str):
                raise NetError("a flip-flop has a constant clock")
            roots.add(b)
        self.clk_names = set()
        inbits = {}
        for name, p in self.ports.items():
            if p["direction"] == "input":
                for b in p["bits"]:
                    inbits[b] = name
        for b in roots:
            if b not in inbits:
                raise NetError("a flip-flop's clock is not a top level input")
            self.clk_names.add(inbits[b])
        # topological order
        order = []
        state = {}
        byvar = {v: i for i, (v, _, _) in enumerate(self.comb)}
        depl = [sorted(byvar[d] for d in set().union(*[self.deps(b) for b in con.values()] or [set()]) if d in byvar)
                for v, c, con in self.comb]
        for root in range(len(self.comb)):
            if root in state:
                continue
            st = [(root, iter(depl[root]))]
            state[root] = 1
            while st:
                n, it = st[-1]
                for d in it:
                    s = state.get(d)
                    if s is None:
                        state[d] = 1
                        st.append((d, iter(depl[d])))
                        break
                    if s == 1:
                        raise NetError("combinational loop through %r" % (self.comb[d][1],))
                else:
                    state[n] = 2
                    order.append(n)
                    st.pop()
        self.order = order

    def emit(self, oob_last=False):
        """oob_last: addresses past the end of a memory mean its last word, as in nmigen's simulator (else: 0, no write)"""
        def lim(a, S):
            return "((u64)(%s) < %d ? (u64)(%s) : %dull)" % (a, S, a, S - 1) if oob_last else a
        L = []
        A = L.append
        A("typedef unsigned long long u64; typedef long long i64;")
        A("#include <stdlib.h>\n#include <string.h>")
        A("typedef struct S {")
        for name, (v, w) in self.inputs.items():
            A("  %s %s;" % (mtype(w), v))
        for v in self.init:
            A("  %s %s;" % (mtype(self.vars[v]), v))
            A("  %s n_%s;" % (mtype(self.vars[v]), v))
        outs = [(n, p) for n, p in self.ports.items() if p["direction"] == "output"]
        for i, (n, p) in enumerate(outs):
            A("  %s O_%d;" % (mtype(len(p["bits"])), i))
        wi = 0
        for mi, W, S, words in self.memdecl:
            A("  %s M_%d[%d];" % (mtype(W), mi, S))
        nwr = 0
        for ms in self.memseq:
            if ms[0] == "wr":
                A("  u64 wa_%d; %s wd_%d; %s we_%d;" % (nwr, mtype(ms[2]), nwr, mtype(ms[2]), nwr))
                nwr += 1
        A("} S;")
        # reset
        A("void sim_init(S*s) { memset(s, 0, sizeof *s);")
        for v, iv in self.init.items():
            if iv:
                A("  s->%s = %s;" % (v, const(iv, self.vars[v])))
        for mi, W, S, words in self.memdecl:
            for i, x in enumerate(words):
                if x:
                    A("  s->M_%d[%d] = %s;" % (mi, i, const(x, W)))
        A("}")
        A("u64 sim_size(void) { return sizeof(S); }")
        A("S* sim_new(void) { S*s = aligned_alloc(64, (sizeof(S) + 63) / 64 * 64); sim_init(s); return s; }")
        A("void sim_eval(S*s) {")
        used = set(self.inputs[n][0] for n in self.inputs) | set(self.init)
        for v in used:
            A("  %s %s = (%s)s->%s; (void)%s;" % (ctype(self.vars[v]), v, ctype(self.vars[v]), v, v))
        for i in self.order:
            v, c, con = self.comb[i]
            w = self.vars[v]
            if isinstance(c, tuple):
                _, mi, W, S, off0 = c
                a = self.expr(con["ADDR"])
                if off0:
                    a = "(%s - %d)" % (a, off0)
                a = lim(a, S)
                e = "(%s)(%s < %d ? s->M_%d[%s] : (%s)0)" % (ctype(W), a, S, mi, a, mtype(W))
            else:
                e = self.cellexpr(c)
            A("  %s %s = %s;" % (ctype(w), v, e))
        for i, (n, p) in enumerate(outs):
            A("  s->O_%d = %s;" % (i, self.expr(p["bits"])))
        for v, c in self.seq:
            C = c["connections"]
            P = c["parameters"]
            e = self.expr(C["D"])

            def pol(k):
                x = P[k]
                return int(x, 2) if isinstance(x, str) else x
            t = c["type"]
            if t in ("$dffe", "$sdffe", "$sdffce"):
                en = self.expr(C["EN"])
                if not pol("EN_POLARITY"):
                    en = "!" + en
            if t in ("$sdff", "$sdffe", "$sdffce"):
                rs = self.expr(C["SRST"])
                if not pol("SRST_POLARITY"):
                    rs = "!" + rs
                rv = P["SRST_VALUE"]
                rv = int(rv.replace("x", "0"), 2) if isinstance(rv, str) else rv
                rv = const(rv, self.vars[v])
            if t == "$dffe":
                e = "(%s ? %s : %s)" % (en, e, v)
            elif t == "$sdff":
                e = "(%s ? %s : %s)" % (rs, rv, e)
            elif t == "$sdffe":
                e = "(%s ? %s : (%s ? %s : %s))" % (rs, rv, en, e, v)
            elif t == "$sdffce":
                e = "(%s ? (%s ? %s : %s) : %s)" % (en, rs, rv, e, v)
            A("  s->n_%s = %s;" % (v, e))
        # memories: writes recorded, registered reads see the old contents, or the new if transparent
        k = 0
        wrs = {}
        for ms in self.memseq:
            if ms[0] == "wr":
                _, mi, W, S, off0, _, addr, en, data, c, AB = ms
                a = self.expr(addr, 64)
                if off0:
                    a = "(%s - %d)" % (a, off0)
                a = lim(a, S)
                A("  s->wa_%d = %s; s->wd_%d = %s; s->we_%d = %s;" % (k, a, k, self.expr(data), k, self.expr(en)))
                wrs.setdefault(mi, []).append((k, W, S))
                k += 1
        for ms in self.memseq:
            if ms[0] == "rd":
                _, mi, W, S, off0, v, addr, en, tr, c, AB = ms
                a = self.expr(addr, 64)
                if off0:
                    a = "(%s - %d)" % (a, off0)
                a = lim(a, S)
                A("  { u64 a = %s; %s d = a < %d ? s->M_%d[a] : (%s)0;" % (a, mtype(W), S, mi, mtype(W)))
                for w2, on in tr:
                    if on:
                        kk = wrs[mi][w2][0]
                        A("    if (s->wa_%d == a && a < %d) d = (d & ~s->we_%d) | (s->wd_%d & s->we_%d);" % (kk, S, kk, kk, kk))
                A("    s->n_%s = %s ? d : (%s)%s; }" % (v, self.expr([en]), mtype(W), v))
        A("}")
        A("void sim_tick(S*s) {")
        for v in self.init:
            A("  s->%s = s->n_%s;" % (v, v))
        for mi, lst in wrs.items():
            for kk, W, S in lst:
                A("  if (s->we_%d && s->wa_%d < %d) s->M_%d[s->wa_%d] = (s->M_%d[s->wa_%d] & ~s->we_%d) | (s->wd_%d & s->we_%d);"
                  % (kk, kk, S, mi, kk, mi, kk, kk, kk, kk))
        A("}")
        # port access, 64 bit words
        A("void sim_set(S*s, int p, int word, u64 x) { switch (p) {")
        self.in_index = {}
        for i, (name, (v, w)) in enumerate(self.inputs.items()):
            self.in_index[name] = (i, w)
            if w <= 64:
                A("  case %d: s->%s = x%s; break;" % (i, v, " & " + mask(w) if mask(w) else ""))
            else:
                T = mtype(w)
                A("  case %d: s->%s = (s->%s & ~(((%s)~0ull) << (64*word))) | (((%s)x) << (64*word)); break;" % (i, v, v, T, T))
        A("} }")
        A("u64 sim_get(S*s, int p, int word) { switch (p) {")
        self.out_index = {}
        for i, (n, p) in enumerate(outs):
            w = len(p["bits"])
            self.out_index[n] = (i, w)
            A("  case %d: return (u64)(s->O_%d%s);" % (i, i, " >> (64*word)" if w > 64 else ""))
        A("} return 0; }")
        return "\n".join(L) + "\n"
