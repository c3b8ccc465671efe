"""The control software under test (P22 to P24): builds it with access instrumentation and runs it against models."""
import os
import resource
import subprocess
import tempfile

import rtl
from fw import Violation

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/software/src"
FLAGS = ["-std=c++11", "-O1", "-g", "-w", "-funsigned-char"]
TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile=1"]
WRAP = ["-Wl," + ",".join("--wrap=" + x for x in
                          ("open", "open64", "close", "mmap", "mmap64", "munmap", "usleep", "nanosleep"))]


def _cc(cmd, what):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Violation("%s does not compile: %s" % (what, r.stderr[-800:]))


def build(tmp, tool=None, name="sw"):
    """tool: None = the two drivers; otherwise {macro: value} for config.h of xilinx_test"""
    out = os.path.join(tmp, name)
    srcs = sorted(f[:-4] for f in os.listdir(SRC) if f.endswith(".cpp"))     # (a file split off from these counts too)
    srcs = [s for s in srcs if s != "xilinx_test" or tool is not None]
    defs = []
    if tool is not None:
        defs = ["-DTOOL", "-DSRC_CONFIG_H__"] + ["-D%s=%s" % kv for kv in tool.items()]
    objs = []
    for s in srcs:
        o = "%s_%s.o" % (out, s)
        _cc(["clang++"] + FLAGS + TSAN + defs +
            ["-c", "%s/%s.cpp" % (SRC, s), "-o", o], s + ".cpp")
        if s == "xilinx_test":
            # (a renamed main in the source would lose its implicit return)
            _cc(["objcopy", "--redefine-sym", "main=xilinx_main", o], s)
        objs.append(o)
    h = out + "_h.o"
    _cc(["clang++"] + FLAGS + defs + ["-I", SRC, "-c", rtl.HERE + "/swharness.cpp", "-o", h], "the harness")
    _cc(["clang++"] + objs + [h, "-o", out] + WRAP, "the software")
    for o in objs + [h]:
        os.unlink(o)
    return out


class Ended(Exception):
    """the process ended; text = what it printed"""

    def __init__(self, rc, text):
        super().__init__("ended with %s" % rc)
        self.rc, self.text = rc, text


class Proc:
    """a harness process; handler: object with read(addr, size) -> int, write(addr, size, value), sleep(usec),
    mapped(base, len)"""

    def __init__(self, exe, handler, args=(), mem=(), seconds=120):
        ci, co = os.pipe()                                      # commands to the child
        ri, ro = os.pipe()                                      # reports from the child
        self.handler = handler
        self.text = tempfile.TemporaryFile()
        env = dict(os.environ)
        env["SW_MEM"] = ",".join("%x:%x:%d" % m for m in mem)
        env["MALLOC_PERTURB_"] = "165"                          # fresh memory holds rubbish
        keep = [m[2] for m in mem]

        # the child wants the pipes at fds 3 and 4
        def pre():
            a, b = os.dup(ci), os.dup(ro)
            a2, b2 = os.dup(a), os.dup(b)
            import fcntl
            x = fcntl.fcntl(a2, fcntl.F_DUPFD, 500)
            y = fcntl.fcntl(b2, fcntl.F_DUPFD, 500)
            os.dup2(x, 3)
            os.dup2(y, 4)
            os.set_inheritable(3, True)
            os.set_inheritable(4, True)
            for f in (x, y):
                os.close(f)
            resource.setrlimit(resource.RLIMIT_CPU, (seconds, seconds))
        self.p = subprocess.Popen([exe] + list(args), stdin=subprocess.DEVNULL,
                                  stdout=self.text, stderr=self.text, env=env, close_fds=True, preexec_fn=pre,
                                  pass_fds=[3, 4] + keep)
        os.close(ci)
        os.close(ro)
        self.w = os.fdopen(co, "wb", buffering=0)
        self.r = os.fdopen(ri, "rb")

    def printed(self):
        self.text.seek(0)
        return self.text.read().decode("latin-1")

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        self.w.close()
        self.r.close()

    def call(self, cmd=None):
        """-> the answer"""
        if cmd is not None:
            try:
                self.w.write(cmd.encode() + b"\n")
            except OSError:
                pass
        h = self.handler
        for l in self.r:
            l = l.decode("latin-1").rstrip("\n")
            k = l[:1]
            if k == "R":
                a, n = l[2:].split()
                v = h.read(int(a, 16), int(n))
                try:
                    self.w.write(b"%x\n" % v)
                except OSError:
                    pass
            elif k == "W":
                a, n, v = l[2:].split()
                h.write(int(a, 16), int(n), int(v, 16))
            elif k == "U":
                h.sleep(int(l[2:], 16))
            elif k == "M":
                a, n = l[2:].split()
                h.mapped(int(a, 16), int(n, 16))
            elif k == "O":
                if l[2:] != "/dev/mem":
                    raise Violation("the software opens %s" % l[2:])
            elif k == "D":
                return l[2:]
        rc = self.p.wait()
        raise Ended(rc, self.printed())
