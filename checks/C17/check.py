"""The task queue under every schedule (controlled scheduler, race detection), the real compiler under every schedule of its workers,
and the same compilation under changed environments (thread count, addresses, memory contents, directory order)."""

import hashlib
import itertools
import os
import shutil
import subprocess
import threading
from concurrent.futures import ThreadPoolExecutor

from vlib import build as B

LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking of the real code: every schedule up to a preemption bound of taskqueue.c under a controlled scheduler (scheduling points at every memory access and "
             "pthread call, happens-before race detection, thread creation failures) and of the workers of the whole compiler (scheduling points at pthread and file calls, race detection in all C sources), "
             "outputs compared byte for byte; every combination of thread count, address layout, memory contents and directory order")
NOTE = ("taskqueue.c and the C sources of the compiler are compiled with -fsanitize=thread against a runtime of the check's own, which serializes the threads, takes every scheduling decision and "
        "keeps vector clocks; LLVM itself is not instrumented. Schedules are exhaustive up to the stated number of preemptions; every schedule must end, run each task once and leave the same files.")

WRAP = ["-fsanitize=thread", *(f"-Dpthread_{x}=vs_pthread_{x}" for x in (
    "create exit join detach self mutex_init mutex_destroy mutex_lock mutex_trylock mutex_unlock "
    "cond_init cond_destroy cond_wait cond_signal cond_broadcast").split()),
    *(f"-D{x}=vs_{x}" for x in "malloc calloc realloc free sem_init sem_destroy sem_wait sem_post".split())]

P2 = """module ma;
import mb;
fn int main() { return mb::fb(2) + ga; }
int ga = 4;
module mb;
fn int fb(int x) { return x * 5; }
"""
P3 = P2 + """module mc2;
import ma;
struct St { int a; char[4] b; }
fn St fc(int x) @export { return { x * 7, "abc\\0" }; }
"""
P4 = P3 + """module md;
faultdef OOPS;
fn int? fd(int x) @export { if (x) return OOPS?; int y = x; return y - 7; }
fn String sd(int x) @export { switch (x) { case 1: return "one"; case 2: return "two"; default: return "many"; } }
"""
P5 = P4 + """module me;
tlocal int th = 3;
fn int fe(int x) @export { for (int i = 0; i < x; i++) th += i; return th; }
"""
# errors and warnings in several modules, generics, macros, interfaces
PBAD = """module ma;
import mb;
fn int main() { return mb::fb(2) + xx; }
int ga = 4.5;
module mb;
fn int fb(int x) { return y * 5; }
fn int fb(int x) { return 1; }
struct Aa { int a; int a; }
module mc2;
fn void a1() { nope(); }
fn void a2() { int x = "a"; }
fn void a3() { nope2(); a1(1); }
module md;
fn void a1() { return 1; }
fn int a2() { }
enum Ee { Q, R }
fn void a3(Ee e) { switch (e) { case Q: } e.x; }
"""
PGEN = """module ma;
import mg, mi;
fn int main() { Lst{int} l; Lst{char} m; Pt p; mi::Ix q = &p; @mac(l.get(0)); return l.get(1) + m.get(2) + q.area() + p.@mm(3) + p.m2(); }
macro @mac(#x) { int y = #x; return y + #x; }
module mg{Type};
struct Lst { Type[8] v; usz n; }
fn Type Lst.get(&self, usz i) => self.v[i];
module mi;
interface Ix { fn int area(); }
struct Pt (Ix) { int x, y; }
fn int Pt.area(&self) @dynamic => self.x * self.y;
macro Pt.@mm(&self, int k) => self.x + k;
fn int Pt.m2(&self) { defer self.x++; int[<4>] v = { 1, 2, 3, 4 }; int[*] a = { 1, 2 }; return v[1] + a[0]; }
bitstruct Bs : int { int a : 0..3; bool b : 4; }
enum En : char (int v, String s) { AA = { 1, "x" }, BB = { 2, "yy" } }
fn int fx(En e, Bs b) @export { return e.v + b.a + (int)e.s.len; }
fn void init1() @init { Bs b; }
fn void fini1() @finalizer { }
"""


def outputs(d, txt):
    h = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, "rb") as fh:
                h[os.path.relpath(q, d)] = hashlib.sha256(fh.read()).hexdigest()
    h["<text>"] = hashlib.sha256(txt).hexdigest()
    return h


def taskqueue(c):
    d = os.path.join(c.dir, "tq")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(B.REPO, "src/utils/taskqueue.c")
    inc = ["-std=gnu11", "-I", os.path.join(B.REPO, "src"), "-I", os.path.join(B.REPO, "src/utils"), "-I", os.path.join(B.B, "cmake")]
    import json
    objs = json.load(open(os.path.join(B.B, "objs.json")))["objs"]
    util = [o for n, o in objs.items() if "/utils/" in n and "taskqueue" not in n]
    B.sh(["clang-18", "-O1", "-w", "-fsanitize=thread", "-DUSE_PTHREAD=1", *inc, "-c", src, "-o", d + "/q.o"])
    B.sh(["clang-18", "-O2", "-w", *inc, "-c", c.here + "/tq.c", "-o", d + "/tq.o"])
    if os.path.exists(d + "/u.a"):
        os.unlink(d + "/u.a")
    B.sh(["ar", "rc", d + "/u.a", *util])
    B.sh(["clang-18", "-Wl,--allow-multiple-definition", d + "/tq.o", d + "/q.o", d + "/u.a", "-lm", "-o", d + "/tq"])
    th = c.thorough
    cfg = []
    for t, n, f in itertools.product(range(1, 6 if th else 5), range(0, 7 if th else 6), (0, 1, 2) if th else (0, 1)):
        if th:
            b = 4 if t * n <= 2 and t <= 2 else 3 if t <= 2 or (t == 3 and n <= 3) else 2 if t <= 4 else 1
        else:
            b = 3 if t <= 2 and t * n <= 4 else 2 if t <= 2 or (t == 3 and n <= 3) else 1
        if f and b > 2:
            b = 2
        cfg.append((t, n, b, f))

    def one(k):
        code, out = c.run([d + "/tq", *map(str, k), "40000000"], 800)
        return k, code, out.decode("utf-8", "replace")

    for k, code, txt in c.pmap(one, sorted(cfg, key=lambda k: -(k[0] * 10 + k[1]) * (k[2] + 1))):
        f = txt.split()
        if code == 0 and f[:1] == ["OK"]:
            c.add(schedules=int(f[1]))
            c.add(schedule_points=int(f[2]), states=int(f[2]), transitions=int(f[2]), traces_validated_against_impl=int(f[1]))
            c.add(configurations=1)
            if f[4] != "1":
                c.add(schedule_sets_cut_off=1)
        else:
            c.violation("taskqueue:" + txt.split("\n")[0][5:60].replace(" ", "-"), f"threads={k[0]} tasks={k[1]} creation failures={k[3]}: {txt[:400] or code}",
                        {"threads": k[0], "tasks": k[1], "bound": k[2], "faults": k[3], "output": txt})


def compiler_schedules(c):
    d = os.path.join(c.dir, "cs")
    os.makedirs(d, exist_ok=True)
    B.sh(["clang-18", "-O2", "-w", "-c", c.here + "/rt.c", "-o", d + "/rt.o"])
    vs = B.variant("c3c-vs", WRAP, [d + "/rt.o"])
    syms = None
    plan = [("two", P2, 2, 2 if c.thorough else 1, []), ("three", P3, 2, 2 if c.thorough else 1, []), ("three-g", P3, 3, 1, ["-g"]), ("gen", PGEN, 3, 2 if c.thorough else 1, []),
            ("four", P4, 3, 1, []), ("five", P5, 4, 1 if c.thorough else 0, []), ("five2", P5, 2, 1, ["-O2", "--single-module=no"]), ("four-asm", P4, 2, 1, ["--emit-asm"])]
    for name, text, threads, bound, flags in plan:
        if c.thorough and name == "three":
            bound = 2
        src = os.path.join(d, name + ".c3")
        open(src, "w").write(text)
        base = [src, "--use-stdlib=no", "--emit-llvm", "--llvm-out", "ll", "--obj-out", "obj", "--asm-out", "asm", *([] if "-g" in flags else ["-g0"]), *flags]

        def compile_(wd, exe, thr, choices):
            shutil.rmtree(wd, ignore_errors=True)
            os.makedirs(wd)
            tr = wd + ".trace"
            env = dict(os.environ, VS_TRACE=tr, VS_BOUND=str(bound), VS_CHOICES=",".join(map(str, choices)))
            try:
                p = subprocess.run([exe, "compile-only", "--threads", str(thr), *base], cwd=wd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
                code, txt = p.returncode, p.stdout
            except subprocess.TimeoutExpired as e:
                code, txt = 124, e.stdout or b""
            o = outputs(wd, txt)
            o["<exit>"] = code
            t = open(tr).read().splitlines() if os.path.exists(tr) else []
            shutil.rmtree(wd, ignore_errors=True)
            if os.path.exists(tr):
                os.unlink(tr)
            return o, t

        ref, _ = compile_(os.path.join(d, name + ".ref"), c.c3c, 1, [])
        if ref["<exit>"] != 0:
            c.violation(f"schedules:{name}", "the program does not compile", {"program": text})
            continue
        lock = threading.Lock()
        todo = [[]]
        done = [0]
        cv = threading.Condition(lock)
        busy = [0]
        bad = []
        limit = 60000

        def worker(w):
            nonlocal syms
            while True:
                with cv:
                    while not todo and busy[0]:
                        cv.wait()
                    if not todo or done[0] >= limit or len(bad) > 3:
                        cv.notify_all()
                        return
                    pre = todo.pop()
                    busy[0] += 1
                    done[0] += 1
                o, t = compile_(os.path.join(d, f"{name}.w{w}"), vs, threads, pre)
                trace, msg = [], ""
                for line in t:
                    f = line.split()
                    if f[0] == "C":
                        trace.append((int(f[1]), int(f[2])))
                    else:
                        msg = msg or line
                new = []
                for i in range(len(pre), len(trace)):
                    for a in range(1, trace[i][1]):
                        new.append([x for x, _ in trace[:i]] + [a])
                diff = sorted(k for k in set(o) | set(ref) if o.get(k) != ref.get(k))
                with cv:
                    c.add(compiler_schedules=1)
                    c.add(schedule_points=len(trace), states=len(trace), transitions=len(trace), traces_validated_against_impl=1)
                    if msg or diff:
                        bad.append((msg, diff, [x for x, _ in trace]))
                    else:
                        todo.extend(new)
                    busy[0] -= 1
                    cv.notify_all()

        ths = [threading.Thread(target=worker, args=(i,)) for i in range(B.JOBS)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if done[0] >= limit:
            c.add(schedule_sets_cut_off=1)
        for msg, diff, tr in bad:
            if msg.startswith("RACE") and len(msg.split()) > 2:
                if syms is None:
                    syms = symbols(vs)
                f = msg.split()
                msg = f"data race: {lookup(syms, f[1])} {f[3]}s what {lookup(syms, f[2])} touched"
            c.violation(f"schedules:{name}:{(msg or 'differs').split(' ')[0]}", f"threads={threads}: {msg or 'the output differs from that of one thread: ' + ' '.join(diff[:6])}",
                        {"program": text, "threads": threads, "choices": tr, "message": msg, "differs": diff})
        c.add(configurations=1)


def symbols(exe):
    out = subprocess.run(["nm", "-n", exe], stdout=subprocess.PIPE).stdout.decode("utf-8", "replace")
    s, base = [], 0
    for line in out.splitlines():
        f = line.split()
        if len(f) == 3 and f[1] in "tT":
            s.append((int(f[0], 16), f[2]))
        if len(f) == 3 and f[2] == "__executable_start":
            base = int(f[0], 16)
    return base, s


def lookup(syms, off):
    import bisect
    base, s = syms
    a = base + int(off, 16)
    i = bisect.bisect_right(s, (a, "~")) - 1
    return s[i][1] if i >= 0 else off


PERT = [("t1", {}, []), *((f"t{i}", {}, ["--threads", str(i)]) for i in (2, 3, 4, 8)),
        ("mem-5a", {"MALLOC_PERTURB_": "90"}, []), ("mem-ff", {"MALLOC_PERTURB_": "255"}, []), ("mem-0", {"MALLOC_PERTURB_": "0"}, []),
        ("falling", {"PB_MALLOC": "1"}, []), ("reversed", {"PB_MALLOC": "2"}, []), ("dir-reversed", {"PB_DIR": "1"}, []), ("dir-rotated", {"PB_DIR": "2"}, []),
        ("all", {"PB_DIR": "1", "PB_MALLOC": "2"}, ["--threads", "3"]), ("norand", {"NORAND": "1"}, []), ("env", {"ZZZZ": "x" * 5000}, [])]


def environments(c):
    d = os.path.join(c.dir, "env")
    os.makedirs(d, exist_ok=True)
    pb = d + "/pb.so"
    B.sh(["clang-18", "-O2", "-w", "-fPIC", "-shared", c.here + "/perturb.c", "-o", pb])
    ex = os.path.join(B.REPO, "resources/examples")
    # a directory of sources
    md = os.path.join(d, "many")
    os.makedirs(md + "/sub", exist_ok=True)
    for i in range(12):
        open(os.path.join(md, *(["sub"] if i % 3 == 0 else []), f"f{i * 7 % 12}.c3"), "w").write(
            f"module m{i % 4};\nfn int f{i}(int x) @export {{ return x + {i}; }}\n" + (f"fn void i{i}() @init {{ f{i}(1); }}\nString s{i} = \"s{i}\";\n" if i % 2 else "") + ("fn int q() { return w; }" if i < 0 else ""))
    mb = os.path.join(d, "manybad")
    shutil.rmtree(mb, ignore_errors=True)
    shutil.copytree(md, mb)
    for i in (1, 4, 6):
        open(os.path.join(mb, f"g{i}.c3"), "w").write(f"module m{i};\nfn int g() {{ return w{i}; }}\nfn int g2() {{ return w{i}; }}\n")
    progs = []
    for n, t in (("five", P5), ("gen", PGEN), ("bad", PBAD)):
        p = os.path.join(d, n + ".c3")
        open(p, "w").write(t)
        progs += [(n, [p, "--use-stdlib=no", "-g0"]), (n + "-g", [p, "--use-stdlib=no", "-g"]), (n + "-O3", [p, "--use-stdlib=no", "-O3"]), (n + "-std", [p, "-g0"])]
    progs += [("dir", [md + "/**", "--use-stdlib=no", "-g0"]), ("dirbad", [mb + "/**", "--use-stdlib=no", "-g0"])]
    for f in ["map", "process", "base64", "ls"] if not c.thorough else [x[:-3] for x in sorted(os.listdir(ex)) if x.endswith(".c3")]:
        progs += [(f, [os.path.join(ex, f + ".c3"), "-g0", "--no-entry"])]
        if c.thorough:
            progs += [(f + "-g", [os.path.join(ex, f + ".c3"), "-g", "--no-entry"]), (f + "-O2", [os.path.join(ex, f + ".c3"), "-O2", "--no-entry"])]

    def go(j):
        (name, args), (pn, env, fl) = j
        wd = os.path.join(d, "w-" + name, pn, "wd")
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        e = dict(os.environ, **env)
        pre = []
        if "PB_DIR" in env or "PB_MALLOC" in env:
            e["LD_PRELOAD"] = pb
        if "NORAND" in env:
            pre = ["setarch", "-R"]
        try:
            p = subprocess.run([*pre, c.c3c, "compile-only", *args, "--emit-llvm", "--llvm-out", "ll", "--obj-out", "obj", *(fl or ["--threads", "1"])],
                               cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            code, txt = p.returncode, p.stdout.replace(wd.encode(), b"WD")
        except subprocess.TimeoutExpired as x:
            code, txt = 124, b""
        # -g writes the working directory into the files
        if "-g" in args or "-O3" in args or "-O2" in args:
            for q in [os.path.join(a, f) for a, _, fs in os.walk(wd) for f in fs]:
                b = open(q, "rb").read()
                open(q, "wb").write(b.replace(("w-" + name + "/" + pn + "/wd").encode(), b"X"))
        o = outputs(wd, txt)
        o["<exit>"] = code
        shutil.rmtree(wd, ignore_errors=True)
        return o, txt

    jobs = [(p, q) for p in progs for q in PERT]
    res = dict(zip([(p[0], q[0]) for p, q in jobs], c.pmap(go, jobs)))
    for p in progs:
        ref = res[(p[0], "t1")][0]
        for q in PERT:
            o, txt = res[(p[0], q[0])]
            c.add(environments=1)
            diff = sorted(k for k in set(o) | set(ref) if o.get(k) != ref.get(k))
            if diff:
                c.violation(f"environment:{q[0]}:{p[0]}", f"the outputs of {' '.join(map(os.path.basename, p[1]))} differ from those of the plain run: {' '.join(diff[:8])}",
                            {"args": p[1], "environment": q, "differs": diff, "text": txt.decode("utf-8", "replace")[:2000]})
    # the programs of the test suite, plain and with everything changed
    ts = os.path.join(B.REPO, "test/test_suite")
    files = sorted(os.path.join(a, f) for a, _, fs in os.walk(ts) for f in fs if f.endswith((".c3", ".c3t")))
    if not c.thorough:
        files = [f for f in files if "/errors/" in f or "/generic/" in f or "/import/" in f or "/methods/" in f]

    def suite(f):
        r = []
        for pn, env, thr in (("plain", {}, "1"), ("all", {"PB_DIR": "1", "PB_MALLOC": "2", "LD_PRELOAD": pb}, "4")):
            wd = os.path.join(d, "s", hashlib.md5(f.encode()).hexdigest()[:10])
            shutil.rmtree(wd, ignore_errors=True)
            os.makedirs(wd)
            try:
                p = subprocess.run([c.c3c, "compile-only", f, "-g0", "--no-entry", "--threads", thr, "--use-stdlib=no", "--emit-llvm", "--llvm-out", "ll", "--obj-out", "obj"],
                                   cwd=wd, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
                code, txt = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                code, txt = 124, b""
            o = outputs(wd, txt)
            o["<exit>"] = code
            shutil.rmtree(wd, ignore_errors=True)
            r.append((o, txt, code))
        return r

    for f, ((a, ta, ca), (b, tb, cb)) in zip(files, c.pmap(suite, files)):
        c.add(environments=2)
        if ca not in (0, 1) or cb not in (0, 1):
            if ca == cb:
                continue
        diff = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
        if diff:
            c.violation(f"suite:{os.path.relpath(f, ts)}", f"the outputs differ in another environment: {' '.join(diff[:8])}",
                        {"file": f, "differs": diff, "plain": ta.decode("utf-8", "replace")[:1500], "changed": tb.decode("utf-8", "replace")[:1500]})


def run(c):
    taskqueue(c)
    compiler_schedules(c)
    environments(c)
    c.sample({"what": "the workers of the compiler on five modules", "program": P5})
    c.set(rule="taskqueue.c: threads x tasks x creation failures, every schedule up to the preemption bound; the compiler: programs x threads, every schedule of its pthread and file calls "
               "up to the preemption bound; programs x environments (threads, memory contents, addresses, directory order)", exhaustive=True)
