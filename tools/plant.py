"""plant(id, property, needs, breaks, edits, files, sh): writes seeded/<id>; edits = [(file, old, new)] with old unique"""
import json, os, shutil, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '#!/bin/bash\nexec /opt/pypyvenv/bin/python "$(dirname "$0")/demo.py"\n'
HEAD = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
'''
GCC = HEAD + '''gcc -O1 -g -fsanitize=address,undefined %s -Iliblj92 "$d/demo.c" liblj92/lj92.c -o "$t/demo" -lm || exit 1
cd "$t" && ./demo
'''
GPP = HEAD + '''cp -r software/src "$t/src" && cp "$d/demo.cpp" "$t/src/" || exit 1
cd "$t/src" || exit 1
g++ -O1 -g %s demo.cpp %s -o ../demo || exit 1
cd "$t" && timeout 60 ./demo
'''


def plant(id, prop, needs, breaks, edits, files, sh=PY):
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = "/tmp/plant_copy"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    for f, a, b in edits:
        p = os.path.join(w, f)
        s = open(p, newline="").read()
        if s.count(a) != 1:
            raise SystemExit("%s: %d matches of %r in %s" % (id, s.count(a), a, f))
        open(p, "w", newline="").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, check=True).stdout
    # the replaced lines must be lines of the original repository
    for f, a, b in edits:
        out = subprocess.run(["git", "-C", w, "diff", "-U0", "--", f], stdout=subprocess.PIPE, check=True).stdout.decode("latin-1")
        bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f], stdout=subprocess.PIPE, check=True).stdout.decode("latin-1").split("\n")
        for l in out.split("\n"):
            if l.startswith("@@"):
                r = l.split()[1][1:].split(",")
                for i in range(int(r[0]), int(r[0]) + (int(r[1]) if len(r) > 1 else 1)):
                    if not bl[i - 1].lstrip("^").startswith("363083f"):
                        print("NOTE %s: line %d of %s is not original: %s" % (id, i, f, bl[i - 1]))
    shutil.rmtree(w)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
    for n, t in files.items():
        open(os.path.join(d, n), "w").write(t)
    if sh == PY:
        shutil.copy(os.path.join(HERE, "seeded", "b10_sticky_decode_error", "h.py"), d)
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
