#!/usr/bin/env python3
"""Builds the simulator together with hogl's sources taken from the current working tree.

Objects are cached under /verif/build by the hash of everything that went into them (source, every header that may be
included, flags, compiler), so a changed tree always rebuilds what changed.  Usage: build.py [--repo DIR]; prints the
path of the executable."""
import hashlib, os, subprocess, sys, concurrent.futures as cf, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CC = "clang++"
STD = "-std=gnu++17"
TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile", "-mllvm", "-tsan-instrument-func-entry-exit=0",
        "-fsanitize-ignorelist=" + VERIF + "/sim/ignorelist.txt"]
COMMON = [STD, "-g1", "-fno-pie", "-pthread", "-Wno-everything", "-fno-omit-frame-pointer"]
# Programs' main() functions; everything else in src/ and the decoding parts of tools/ is linked in.
TOOL_SRC = ["raw-parser.cc", "rdbuf.cc", "coredump.cc", "recovery-engine.cc"]
TOOL_MAIN = ["cook.cc", "recover.cc"]

def sh(path):
    with open(path, "rb") as f: return hashlib.sha256(f.read()).hexdigest()

def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for root, dn, fn in os.walk(d):
            dn.sort()
            for n in sorted(fn):
                if n.endswith(exts):
                    p = os.path.join(root, n)
                    h.update(os.path.relpath(p, d).encode()); h.update(sh(p).encode())
    return h.hexdigest()

def makefile_sources(repo):
    """the library's source list as the project's own build has it"""
    out, on = [], False
    for line in open(os.path.join(repo, "Makefile.am")):
        if line.startswith("src_libhogl_la_SOURCES"): on = True; line = line.split("=", 1)[1]
        if on:
            out += [w for w in line.replace("\\", " ").split() if w.endswith((".cc", ".cpp", ".c"))]
            if not line.rstrip().endswith("\\"): break
    return out

def build(repo="/repo", out=None, verbose=False, extra=()):
    bdir = out or os.path.join(VERIF, "build")
    odir = os.path.join(bdir, "obj"); os.makedirs(odir, exist_ok=True)
    hogl_h = tree_hash([os.path.join(repo, "include"), os.path.join(repo, "src"), os.path.join(repo, "tools")], (".hpp", ".h", ".hh", ".ipp", ".inl"))
    sim_h = tree_hash([os.path.join(VERIF, "sim")], (".h", ".txt"))
    ver = subprocess.run([CC, "--version"], capture_output=True, text=True).stdout
    jobs = []
    def add(src, flags, deps):
        key = hashlib.sha256(repr((sh(src), flags, deps, ver, os.path.basename(src))).encode()).hexdigest()[:32]
        jobs.append((src, flags, os.path.join(odir, os.path.basename(src) + "." + key + ".o")))
    inc = ["-I", os.path.join(repo, "include"), "-I", os.path.join(repo, "src"), "-I", repo]
    sut = COMMON + ["-O1"] + TSAN + inc
    for s in makefile_sources(repo):
        p = os.path.join(repo, s)
        if os.path.exists(p): add(p, sut, hogl_h + sim_h)
    for s in TOOL_SRC:
        p = os.path.join(repo, "tools", s)
        if os.path.exists(p): add(p, sut + ["-I", os.path.join(repo, "tools")], hogl_h + sim_h)
    for s in TOOL_MAIN:                       # a tool with its main() under another name
        p = os.path.join(repo, "tools", s)
        if os.path.exists(p): add(p, sut + ["-I", os.path.join(repo, "tools"), "-Dmain=hogl_main_" + s.split(".")[0]], hogl_h + sim_h)
    sd = os.path.join(VERIF, "sim")
    for n in sorted(os.listdir(sd)):
        if not n.endswith((".cc", ".c")): continue
        p = os.path.join(sd, n)
        if n in ("kernel.cc", "vfs.cc", "main.cc"): add(p, COMMON + ["-O2"], sim_h)
        elif n.endswith(".c"): add(p, ["-x", "c", "-std=gnu11"] + [f for f in sut if f != STD], hogl_h + sim_h)
        else: add(p, sut + ["-I", os.path.join(repo, "tools"), "-I", sd, *extra], hogl_h + sim_h)
    def one(j):
        src, flags, obj = j
        if os.path.exists(obj): os.utime(obj); return 0, ""
        t = time.time()
        r = subprocess.run([CC] + list(flags) + ["-c", src, "-o", obj + ".tmp%d" % os.getpid()], capture_output=True, text=True)
        if r.returncode == 0: os.rename(obj + ".tmp%d" % os.getpid(), obj)
        if verbose: print("%6.1fs %s" % (time.time() - t, src), file=sys.stderr)
        return r.returncode, r.stderr
    # biggest first
    order = sorted(jobs, key=lambda j: -(os.path.getsize(j[0]) + (200000 if "fmt-format" in j[0] or "scen" in j[0] else 0)))
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex: res = list(ex.map(one, order))
    bad = [e for c, e in res if c]
    if bad: raise RuntimeError("compile failed:\n" + "\n".join(bad)[:8000])
    exe = os.path.join(bdir, "hsim-" + hashlib.sha256(repr(sorted(j[2] for j in jobs)).encode()).hexdigest()[:20])
    if not os.path.exists(exe):
        r = subprocess.run([CC, "-no-pie", "-rdynamic", "-static-libstdc++", "-static-libgcc", "-g", "-o", exe + ".tmp%d" % os.getpid()] + [j[2] for j in jobs] + ["-lbfd", "-ldl", "-lpthread"], capture_output=True, text=True)
        if r.returncode: raise RuntimeError("link failed:\n" + r.stderr[:8000])
        os.rename(exe + ".tmp%d" % os.getpid(), exe)
    prune(bdir)
    return exe

def prune(bdir, keep_s=6 * 3600):
    now = time.time()
    for d in (bdir, os.path.join(bdir, "obj")):
        for n in os.listdir(d):
            p = os.path.join(d, n)
            if os.path.isfile(p) and (n.startswith("hsim-") or n.endswith(".o") or ".tmp" in n) and now - os.path.getmtime(p) > keep_s: os.unlink(p)

if __name__ == "__main__":
    repo = "/repo"
    if "--repo" in sys.argv: repo = sys.argv[sys.argv.index("--repo") + 1]
    try: print(build(repo, verbose="-v" in sys.argv))
    except RuntimeError as e: print(e, file=sys.stderr); sys.exit(1)
