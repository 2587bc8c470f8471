#!/usr/bin/env python3
"""Builds build/simrun: the library from the current tree of /repo (instrumented, system calls redirected to the
simulator), the scenarios, and the simulator.  Objects are cached by the contents they are made from."""
import hashlib, os, re, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OBJ = os.path.join(BUILD, "obj")
DEFS = ("-DTESTS_ENABLED -DNO_SAFE_CAST -DUSING_SFW -DDEBUG_ENABLED -DNDEBUG -DX11_ENABLED -DUNIX_ENABLED "
        "-D_FILE_OFFSET_BITS=64").split()
INC = [f"-I{REPO}/platform/x11", f"-I{REPO}/platform", f"-I{REPO}"]
INST = "-w -fsanitize=thread -fno-pie -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-stack-protector -fno-builtin-printf -pipe".split()
LIBF = "-fno-rtti -std=gnu++14 -O1 -g1 -fno-exceptions".split() + DEFS + INST
SCNF = "-fno-rtti -std=gnu++17 -O1 -g1 -fno-exceptions".split() + DEFS + INST
RTF = "-std=gnu++17 -O2 -g1 -w -fno-pie".split()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:32]


def tree(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if not x.startswith(".") and x not in ("_build", "bin", "__pycache__"))
        out += [os.path.join(d, f) for f in sorted(fs) if os.path.splitext(f)[1] in exts]
    return out


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout[-4000:] + r.stderr[-6000:])
        raise SystemExit(2)


INCRE = re.compile(rb'^\s*#\s*include\s*"([^"]+)"', re.M)
_seen = {}


def deps(path):
    """Transitive quoted includes that exist under the repository (over-approximates conditionals)."""
    if path in _seen:
        return _seen[path]
    done, todo = {}, [path]
    while todo:
        p = os.path.normpath(todo.pop())
        if p in done:
            continue
        data = read(p)
        done[p] = data
        for inc in INCRE.findall(data):
            inc = inc.decode("utf-8", "replace")
            for base in [os.path.dirname(p)] + [i[2:] for i in INC] + [os.path.join(VERIF, "sim"), os.path.join(VERIF, "scen")]:
                q = os.path.join(base, inc)
                if os.path.isfile(q):
                    todo.append(q)
                    break
    _seen[path] = h(*[x for k in sorted(done) for x in (k, done[k])])
    return _seen[path]


def redefinitions():
    """objcopy wants every target name once: repeated targets get an alias that the link resolves."""
    seen, lines, alias = {}, [], []
    for l in read(os.path.join(VERIF, "sim", "redefine.map")).decode().splitlines():
        if not l.strip() or l.startswith("#"):
            continue
        a, b = l.split()[:2]
        k = seen[b] = seen.get(b, -1) + 1
        if k:
            alias.append(f"-Wl,--defsym={b}__{k}={b}")
            b = f"{b}__{k}"
        lines.append(f"{a} {b}")
    out = os.path.join(BUILD, "redefine.map")
    text = "\n".join(lines) + "\n"
    if not os.path.exists(out) or read(out).decode() != text:
        with open(out, "w") as f:
            f.write(text)
    return alias


def compile_one(src, flags, extra, redefine):
    mp = os.path.join(BUILD, "redefine.map")
    key = h(src, deps(src), " ".join(flags), " ".join(extra), read(mp) if redefine else b"", "v3")
    out = os.path.join(OBJ, key + ".o")
    if os.path.exists(out):
        os.utime(out)
        return out
    tmp = out + f".tmp{os.getpid()}"
    run(["g++", *flags, *extra, "-c", src, "-o", tmp])
    if redefine:
        run(["objcopy", "--redefine-syms=" + mp, tmp])
    else:
        # inline and template functions of the simulator must not be merged with the instrumented ones of the library
        nm = subprocess.run(["nm", "--defined-only", tmp], capture_output=True, text=True, check=True).stdout
        weak = sorted({l.split()[2] for l in nm.splitlines() if len(l.split()) == 3 and l.split()[1] in "WVu"}
                      | set(re.findall(r"\[([^\]\s]+)\] contains", subprocess.run(["readelf", "-gW", tmp], capture_output=True, text=True).stdout)))
        with open(tmp + ".map", "w") as f:
            f.write("".join(f"{w} simrt.{w}\n" for w in weak))
        run(["objcopy", "--redefine-syms=" + tmp + ".map", tmp])
        os.unlink(tmp + ".map")
    os.rename(tmp, out)
    return out


def lib_sources():
    s = [f"{REPO}/platform/{f}" for f in sorted(os.listdir(f"{REPO}/platform")) if f.endswith(".cpp")]
    s += [f"{REPO}/core/{f}" for f in sorted(os.listdir(f"{REPO}/core")) if f.endswith(".cpp")]
    for m in sorted(os.listdir(f"{REPO}/modules")):
        d = f"{REPO}/modules/{m}"
        if os.path.isdir(d):
            s += [f"{d}/{f}" for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
    return s


def build(scen=None):
    os.makedirs(OBJ, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    alias = redefinitions()
    jobs = []
    for s in lib_sources():
        jobs.append((s, LIBF, INC, True))
    jobs.sort(key=lambda j: 0 if j[0].endswith("sfw.cpp") else 1 if j[0].endswith("image.cpp") else 2)
    sc = []
    for f in sorted(os.listdir(f"{VERIF}/scen")):
        if f.endswith(".cpp") and (scen is None or f in scen):
            sc.append((f"{VERIF}/scen/{f}", SCNF, INC + [f"-I{VERIF}/sim"], True))
    rt = [(f"{VERIF}/sim/{f}", RTF, [], False) for f in ("core.cpp", "fs.cpp", "proc.cpp", "net.cpp", "main.cpp")]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs[:1] + sc + rt + jobs[1:]))
    key = h(*sorted(objs), *alias)
    exe = os.path.join(BUILD, "simrun-" + key)
    if not os.path.exists(exe):
        olds = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("simrun-")]
        for old in sorted(olds, key=os.path.getmtime)[:-9]:
            os.unlink(old)
        run(["g++", "-no-pie", "-rdynamic", "-o", exe + ".tmp", *objs, *alias, "-lpthread", "-ldl"])
        os.rename(exe + ".tmp", exe)
    # forget objects nobody used for long
    allo = sorted((os.path.getmtime(os.path.join(OBJ, f)), f) for f in os.listdir(OBJ))
    for _, f in allo[:-600]:
        os.unlink(os.path.join(OBJ, f))
    lock.close()
    return exe


if __name__ == "__main__":
    print(build(set(sys.argv[1:]) or None))
