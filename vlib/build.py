"""Builds the c3c of /repo's working tree into WORK/build, offline, with content-addressed objects.

Same flags as the repository's own build (Debug, -O1, assertions on) except that the link uses lld and no
debug info is emitted; nothing is written under /repo."""

import fcntl
import hashlib
import json
import os
import shlex
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
B = os.path.join(WORK, "build")
JOBS = os.cpu_count() or 4


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise BuildError(f"{cmd}: exit {p.returncode}\n{p.stdout.decode('utf-8', 'replace')[-6000:]}")
    return p.stdout


def _hash_headers():
    h = hashlib.sha256()
    for root in ("src", "wrapper", "dependencies"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, root))):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inc", ".def")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h


def build():
    """Returns the path of a c3c built from the working tree (its lib/ lies beside it)."""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build()


def _build():
    env = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "MAKEFLAGS", "CPATH", "C_INCLUDE_PATH"):
        env.pop(k, None)
    cm = os.path.join(B, "cmake")
    sh(["cmake", "-S", REPO, "-B", cm, "-G", "Ninja", "-DCMAKE_C_COMPILER=clang-18",
        "-DCMAKE_CXX_COMPILER=clang++-18", "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_C_FLAGS_DEBUG=-O1",
        "-DC3_LLVM_VERSION=18.1", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
        "-DCMAKE_EXE_LINKER_FLAGS=-fuse-ld=lld"], env=env)
    # git_hash.h: only a version string; a fixed text keeps the build independent of the git state
    with open(os.path.join(cm, "git_hash.h"), "w") as f:
        f.write('#pragma once\n#define GIT_HASH "verif"\n')
    cmds = sh(["ninja", "-C", cm, "-t", "commands", "c3c"], env=env).decode().splitlines()
    hdr = _hash_headers()
    with open(os.path.join(cm, "git_hash.h"), "rb") as f:
        hdr.update(f.read())
    hdrd = hdr.digest()
    compiles, link = [], None
    for c in cmds:
        if " -c " in c and (".c.o" in c or ".cpp.o" in c):
            a = [x for x in shlex.split(c) if x not in ("-g", "-gdwarf-3")]
            # drop dependency output
            for fl in ("-MD", "-MT", "-MF"):
                while fl in a:
                    i = a.index(fl)
                    del a[i:i + (1 if fl == "-MD" else 2)]
            compiles.append(a)
        elif " -o c3c" in c:
            link = c
    if not compiles or not link:
        raise BuildError("cannot read the compile commands")
    objdir = os.path.join(B, "obj")
    os.makedirs(objdir, exist_ok=True)
    objs = {}
    todo = []
    for a in compiles:
        src = a[a.index("-c") + 1]
        oi = a.index("-o") + 1
        name = a[oi]
        h = hashlib.sha256(hdrd + " ".join(a).encode())
        with open(src if os.path.isabs(src) else os.path.join(cm, src), "rb") as f:
            h.update(f.read())
        o = os.path.join(objdir, h.hexdigest()[:32] + ".o")
        objs[name] = o
        if not os.path.exists(o):
            b = list(a)
            b[oi] = o + ".tmp"
            weight = 10**9 if src.endswith(".cpp") else os.path.getsize(src)
            todo.append((weight, b, o))
    todo.sort(key=lambda t: -t[0])

    def one(t):
        sh(t[1], cwd=cm, env=env)
        os.rename(t[2] + ".tmp", t[2])

    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, todo))
    with open(os.path.join(B, "objs.json"), "w") as f:
        json.dump({"objs": objs, "compiles": compiles, "link": link, "cm": cm, "headers": hdrd.hex()}, f)
    lh = hashlib.sha256((link + "".join(sorted(objs.values()))).encode()).hexdigest()[:32]
    out = os.path.join(B, "bin")
    exe = os.path.join(out, "c3c")
    os.makedirs(out, exist_ok=True)
    stamp = os.path.join(B, "bin.stamp")
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == lh):
        do_link(link, objs, exe, [], cm)
        with open(stamp, "w") as f:
            f.write(lh)
    # the standard library, as it is now
    lib = os.path.join(out, "lib")
    shutil.rmtree(lib, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "lib"), lib)
    # keep the object cache small
    keep = set(objs.values())
    fs = [os.path.join(objdir, f) for f in os.listdir(objdir)]
    if len(fs) > 600:
        for f in fs:
            if f not in keep:
                os.unlink(f)
    return exe


def do_link(link, objs, exe, extra, cm):
    toks = shlex.split(link)
    toks = [t for t in toks if t not in (":", "&&", "-g", "-gdwarf-3")]
    res = []
    for t in toks:
        if t in objs:
            res.append(objs[t])
        elif t.endswith("libc3c_wrappers.a"):
            res += [o for n, o in objs.items() if "c3c_wrappers.dir" in n]
        elif t.endswith("libminiz.a"):
            res += [o for n, o in objs.items() if "miniz.dir" in n]
        else:
            res.append(t)
    i = res.index("-o") + 1
    res[i] = exe + ".tmp"
    sh(res + extra, cwd=cm)
    os.rename(exe + ".tmp", exe)


def variant(name, flags, extra):
    """The same compiler with its own C sources (not miniz, not the C++ wrappers) compiled with further flags, linked with
    further objects; returns its path. build() must have run."""
    with open(os.path.join(B, "objs.json")) as f:
        j = json.load(f)
    cm, objs = j["cm"], dict(j["objs"])
    objdir = os.path.join(B, "obj-" + name)
    os.makedirs(objdir, exist_ok=True)
    todo = []
    for a in j["compiles"]:
        src = a[a.index("-c") + 1]
        if "miniz" in src or src.endswith(".cpp"):
            continue
        oi = a.index("-o") + 1
        n = a[oi]
        h = hashlib.sha256((j["headers"] + " ".join(a + flags)).encode())
        with open(src if os.path.isabs(src) else os.path.join(cm, src), "rb") as f:
            h.update(f.read())
        o = os.path.join(objdir, h.hexdigest()[:32] + ".o")
        objs[n] = o
        if not os.path.exists(o):
            b = list(a)
            b[oi] = o + ".tmp"
            todo.append((os.path.getsize(src), b + flags, o))
    todo.sort(key=lambda t: -t[0])

    def one(t):
        sh(t[1], cwd=cm)
        os.rename(t[2] + ".tmp", t[2])

    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, todo))
    fs = [os.path.join(objdir, f) for f in os.listdir(objdir)]
    if len(fs) > 400:
        for f in fs:
            if f not in objs.values():
                os.unlink(f)
    out = os.path.join(B, "bin")
    exe = os.path.join(out, name)
    do_link(j["link"], objs, exe, extra, cm)
    return exe


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print("BUILD ERROR:", e, file=sys.stderr)
        sys.exit(2)
