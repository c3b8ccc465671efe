#!/usr/bin/env python3
"""Mutation testing of the checks: small edits of one source file, each run against the checks that judge it.
   tools/mutate.py [--workers N] [--max N] [--seed N] [--scale X] [--out FILE] PATH:P14,P02 ...
A mutant is thrown away if the repository's tests notice it; a survivor is printed with its diff line."""
import argparse, concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, timeout=900, **kw):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL, **kw)
        return p.returncode, p.stdout.decode("latin-1")
    except subprocess.TimeoutExpired as e:
        return 99, "timeout"


def code_region(path, lines):
    """indices of lines to edit"""
    ok = []
    if path.endswith(".py"):
        doc = False
        paren = 0
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("'''") or s.startswith('"""'):
                doc = not doc if s.count(s[:3]) == 1 else doc
                continue
            if doc or not s or s.startswith("#"):
                continue
            if s.startswith("if __name__"):
                break
            if s.startswith(("import", "from", "class", "def ", "assert", "return m", "super", "clk_domains.load_clk")):
                continue
            if re.match(r"self\.(axi_)?ios\b", s):
                paren = 1
            if paren:
                if not s.endswith("\\"):
                    paren = 0
                continue
            if re.match(r"\[.*self.*\](\s*\+\s*\\)?$", s):
                continue
            ok.append(i)
    else:
        dbg = 0
        com = False
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("/*"):
                com = "*/" not in s
                continue
            if com:
                com = "*/" not in s
                continue
            if s.startswith("#ifdef DEBUG") or s.startswith("#ifdef SLOW_HUFF"):
                dbg = 1
            if s.startswith("#else") and dbg:
                dbg = 0
            if s.startswith("#endif"):
                dbg = 0
            if dbg or not s or s.startswith(("//", "#", "*")) or "log(" in s or "printf" in s or "mem_dump" in s or "get_time" in s:
                continue
            ok.append(i)
    return ok


SWAP = [(" == ", " != "), (" != ", " == "), ("==", "!="), (" >= ", " > "), (" <= ", " < "), (" > ", " >= "), (" < ", " <= "), (">=", ">"), ("<=", "<"),
        (" & ", " | "), (" | ", " & "), ("&&", "||"), ("||", "&&"), (" + ", " - "), (" - ", " + "), ("<<", ">>"), (">>", "<<"), ("++", "--"),
        ("m.d.full", "m.d.sync"), ("m.Elif", "m.If"), ("True", "False"), ("False", "True"), ("+=", "-=") ]


def mutants(path, lines):
    out = []
    py = path.endswith(".py")
    for i in code_region(path, lines):
        l = lines[i]
        body = l.split("#")[0] if py else l.split("//")[0]
        strings = [(m.start(), m.end()) for m in re.finditer(r'"[^"]*"|\'[^\']*\'', body)]
        ins = lambda k: any(a <= k < b for a, b in strings)
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|0b[01]+|\d+)(?![\w.])", body):
            if ins(m.start()):
                continue
            v = int(m.group(1), 0)
            if v < 2 and body[:m.start()].rstrip().endswith(("==", "!=")):
                continue
            if v == 1 and py and body[:m.start()].endswith(".eq("):
                out.append((i, body[:m.start()] + "0" + body[m.end():]))
                continue
            for nv in {v + 1, v - 1} if v else {1}:
                if nv >= 0:
                    out.append((i, body[:m.start()] + str(nv) + body[m.end():]))
        for a, b in SWAP:
            for m in re.finditer(re.escape(a), body):
                k = m.start()
                if ins(k) or (a == "+=" and py) or (a in ("<=", ">=", "==") and body[k - 1:k] == " ") or (a == " < " and "#include" in body):
                    continue
                if a in (">=", "<=") and body[k - 1:k] in "<>":
                    continue
                out.append((i, body[:k] + b + body[k + len(a):]))
        s = body.strip()
        ind = body[:len(body) - len(body.lstrip())]
        if py and (re.match(r"m\.d\.\w+ \+= .*[^\[(,]$", s) or re.match(r"m\.next = ", s) or (s.endswith(("()", ")")) and not s.startswith(("with", "if", "for", "m.d")) and "=" not in s and not s.startswith("self."))):
            out.append((i, ind + "pass"))
        elif py and re.match(r"[\w.\[\]:+\-* ]+\.eq\(.*\),?$", s):
            out.append((i, ind.rstrip("\n") + "# removed"))
        elif not py and re.match(r"[^{}]*;$", s) and not s.startswith(("for", "return", "int ", "u8", "u16*", "uint", "break", "static", "void", "vector", "volatile", "else", "}")):
            out.append((i, ind + ";"))
    seen = set()
    res = []
    for i, t in out:
        t = t.rstrip() if not t.endswith("\n") else t
        t = t + ("" if t.endswith("\n") else "\n")
        if t != lines[i] and (i, t) not in seen:
            seen.add((i, t))
            res.append((i, t))
    return res


def conjuncts(e):
    """splits an expression at its top-level & and |: list of (start, end, operator before)"""
    d = 0
    out = []
    st = 0
    op = ""
    i = 0
    while i < len(e):
        ch = e[i]
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        elif d == 0 and ch in "&|" and e[i - 1:i] != "0":
            n = 2 if e[i:i + 2] in ("&&", "||") else 1
            out.append((st, i, op))
            op = e[i:i + n]
            st = i + n
            i += n
            continue
        i += 1
    out.append((st, len(e), op))
    return out


def mutants2(path, lines):
    """dropped conditions, registers without a reset, registered instead of combinational"""
    out = []
    py = path.endswith(".py")
    text = "".join(lines)
    for i in code_region(path, lines):
        l = lines[i]
        body = (l.split("#")[0] if py else l.split("//")[0]).rstrip()
        m = re.match(r"(\s*(?:with m\.(?:If|Elif)|\}?\s*(?:else )?if|while)\s*\()(.*)(\)\s*[:{]?)$", body)
        if m and len(conjuncts(m.group(2))) > 1:
            parts = conjuncts(m.group(2))
            for k in range(len(parts)):
                rest = [p for j, p in enumerate(parts) if j != k]
                e = ""
                for j, (a, b, op) in enumerate(rest):
                    e += ((" " + op + " ") if j else "") + m.group(2)[a:b].strip()
                out.append((i, m.group(1) + e + m.group(3)))
        m = re.match(r"(.*\.eq\()(.*)(\),?)$", body)
        if py and m and len(conjuncts(m.group(2))) > 1:
            parts = conjuncts(m.group(2))
            for k in range(len(parts)):
                rest = [p for j, p in enumerate(parts) if j != k]
                e = ""
                for j, (a, b, op) in enumerate(rest):
                    e += ((" " + op + " ") if j else "") + m.group(2)[a:b].strip()
                out.append((i, m.group(1) + e + m.group(3)))
        m = re.match(r"\s*((?:self\.)?\w+) = (Array\()?(Signal\([^()]*|Record\([^()]*)\)", body)
        if py and m and "for _ in" in body:
            out.append((i, body.replace("Signal(", "Signal(reset_less=True, shape=", 1)))
        elif py and m and "reset_less" not in body and re.search(r"(m\.d\.(sync|full)[^=]*\+=|\.eq\()", text) and \
                re.search(re.escape(m.group(1)) + r"[\w.\[\]:]*\.eq\(", text):
            out.append((i, body.replace("Signal(", "Signal(reset_less=True, shape=", 1)))
        if py and "m.d.comb" in body:
            out.append((i, body.replace("m.d.comb", "m.d.sync")))
    return [(i, t + "\n") for i, t in out if t + "\n" != lines[i] and "shape=)" not in t]


TEST = """export HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
mkdir "$W/repo"
cp -r %s/migen_src %s/test_files %s/simulations "$W/repo/"
/usr/bin/python3 /opt/vp/run_scripts.py "$W/repo" /opt/pypyvenv/bin/python > "$W/lines.txt" 2> /dev/null
/usr/bin/python3 /opt/vp/results.py "$W/o.json" "lines:$W/lines.txt" > /dev/null && cat "$W/o.json"
"""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--workers", type=int, default=3)
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--out")
    ap.add_argument("--second", action="store_true", help="the second set of operators")
    ap.add_argument("--match", help="only mutants whose new line contains this")
    ap.add_argument("--no-match", help="only mutants whose new line does not match this expression")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("what", nargs="+")
    a = ap.parse_args()
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    work = []
    for w in a.what:
        path, checks = w.split(":")
        lines = open("/repo/" + path, newline="").read().replace("\r\n", "\n").splitlines(True)
        ms = (mutants2 if a.second else mutants)(path, lines)
        if a.match:
            ms = [x for x in ms if a.match in x[1]]
        if a.no_match:
            ms = [x for x in ms if not re.search(a.no_match, x[1])]
        random.Random(a.seed).shuffle(ms)
        ms = sorted(ms[:a.max])
        for i, t in ms:
            work.append((path, checks.split(","), i, lines[i], t))
    if a.list:
        for w in work:
            print("%s:%d %s -> %s" % (w[0], w[2] + 1, w[3].strip(), w[4].strip()))
        print(len(work))
        return
    top = tempfile.mkdtemp(prefix="mut_")
    copies = []
    for k in range(a.workers):
        c = "%s/%d" % (top, k)
        os.mkdir(c)
        subprocess.run(["cp", "-a", "/repo", c + "/repo"], check=True)
        copies.append(c)
    lock = threading.Lock()
    stat = {}
    done = set()
    if a.out and os.path.exists(a.out):
        for l in open(a.out):
            r = json.loads(l)
            done.add((r["path"], r["line"], r["new"]))

    def one(w):
        path, checks, i, old, new = w
        if (path, i + 1, new.strip()) in done:
            return
        with lock:
            c = copies.pop()
        try:
            R = c + "/repo"
            f = R + "/" + path
            src = open(f, newline="").read()
            nl = "\r\n" if "\r\n" in src else "\n"
            lines = src.replace("\r\n", "\n").splitlines(True)
            assert lines[i] == old
            lines[i] = new
            open(f, "w", newline="").write("".join(lines).replace("\n", nl))
            t = time.time()
            res = None
            try:
                if path.startswith("migen_src"):
                    rc, out = sh(TEST % (R, R, R), timeout=120)
                    try:
                        ok = stable <= set(json.loads(out).get("passed", []))
                    except ValueError:
                        ok = False
                    if not ok:
                        res = "tests"
                elif path.endswith((".c", ".cpp")):
                    rc, out = sh("gcc -fsyntax-only -w -I%s %s" % (os.path.dirname(f), f))
                    if rc:
                        res = "tests"
                if res is None:
                    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=R, VERIF_EVIDENCE=c + "/ev", VERIF_BUDGET="200")
                    res = "SURVIVED"
                    for p in checks:
                        rc, out = sh("python3-vt checks/run.py %s --scale %g" % (p, a.scale), cwd=V, env=env)
                        if rc == 1 and "VIOLATION property=" in out:
                            res = p + (" build" if "part build:" in out else "")
                            break
                        if rc != 0:
                            res = "ERROR %s rc=%d %s" % (p, rc, out[-400:])
                            break
            finally:
                open(f, "w", newline="").write(src)
            with lock:
                k = res.split()[0]
                stat[k] = stat.get(k, 0) + 1
                if a.out:
                    open(a.out, "a").write(json.dumps({"path": path, "line": i + 1, "old": old.strip(), "new": new.strip(), "res": res}) + "\n")
                if res.startswith(("SURV", "ERR")):
                    print("%s %s:%d  %s  ->  %s  (%.0f s)" % (res, path, i + 1, old.strip(), new.strip(), time.time() - t), flush=True)
        finally:
            with lock:
                copies.append(c)

    with concurrent.futures.ThreadPoolExecutor(a.workers) as ex:
        for f in [ex.submit(one, w) for w in work]:
            f.result()
    shutil.rmtree(top, ignore_errors=True)
    print("mutants %d" % len(work), stat)


main()
