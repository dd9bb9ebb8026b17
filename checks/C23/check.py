"""Build options: programs without undefined behaviour behave the same under every combination of two build options, in every order and grouping of their source files,
and the generated cases of the other checks give their expected events at every optimization level."""

import importlib.util
import itertools
import os
import re
import shutil

from vlib import build as B
from vlib.check import VERIF

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive exploration of build configurations: all pairs of values of two build options, all orders and all groupings of the source files, on programs that use every kind of "
             "declaration and statement over several modules; generated cases with known results at every optimization level")
NOTE = ("The real compiler builds and the real programs run; the expected output is fixed text that was computed independently of the options. Thorough: triples of options, "
        "ten times as many generated cases; quick: every 25th generated case (every 150th of C20) at three option sets.")

OPTS = [
    ("-O0", "-O1", "-O2", "-O3", "-O4", "-O5", "-Os", "-Oz"),
    ("", "--safe=yes", "--safe=no"),
    ("", "-g", "-g0"),
    ("", "--single-module=yes", "--single-module=no"),
    ("", "--optlevel=none", "--optlevel=less", "--optlevel=more", "--optlevel=max"),
    ("", "--optsize=none", "--optsize=small", "--optsize=tiny"),
    ("", "--panic-msg=yes", "--panic-msg=no"),
    ("", "--strip-unused=no", "--strip-unused=yes"),
    ("", "--threads 1", "--threads 3"),
    ("", "--reloc=none", "--reloc=pic", "--reloc=PIC", "--reloc=pie", "--reloc=PIE"),
    ("", "--x86cpu=baseline", "--x86cpu=ssse3", "--x86vec=none", "--x86vec=sse"),
    ("", "--fp-math=strict", "--fp-math=relaxed", "--fp-math=fast"),
    ("", "--show-backtrace=yes", "--show-backtrace=no"),
    ("", "--validation=lenient", "--validation=strict"),
    ("", "--symtab 65536", "-D UNRELATED", "--emit-llvm --llvm-out OUT", "--emit-asm --asm-out OUT"),
    ("", "--memory-env=small", "--memory-env=tiny"),
]


def configs(k):
    """all k-tuples of options x values, the others at their first value, each configuration once"""
    seen = set()
    for idx in itertools.combinations(range(len(OPTS)), k):
        for vals in itertools.product(*(OPTS[i] for i in idx)):
            cur = [o[0] for o in OPTS]
            for i, v in zip(idx, vals):
                cur[i] = v
            t = tuple(x for x in cur if x)
            if t not in seen:
                seen.add(t)
                yield t


def partitions(items):
    if not items:
        yield []
        return
    for p in partitions(items[1:]):
        yield [[items[0]], *p]
        for i in range(len(p)):
            yield p[:i] + [[items[0], *p[i]]] + p[i + 1:]


def build_run(c, tag, srcs, flags, want, status, args=(), desc=None, key=None):
    d = os.path.join(c.dir, tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    fl = [x.replace("OUT", d + "/out") for f in flags for x in f.split()]
    code, out = c.run([c.c3c, "compile", *fl, *srcs, "-o", d + "/x", "--build-dir", d + "/b"], timeout=300)
    bad = None
    what = {"flags": fl, "sources": [os.path.relpath(s, VERIF) for s in srcs]}
    if code != 0:
        bad = f"does not compile: {out[-500:]!r}"
    else:
        code, out = c.run([d + "/x", *args], timeout=60)
        if code != status or out.decode("latin-1") != want:
            got = out.decode("latin-1").splitlines()
            diff = [(a, b) for a, b in itertools.zip_longest(got, want.splitlines()) if a != b][:3]
            bad = f"status {code} (want {status}), differing lines (got, want): {diff}"
            what["output"] = out[-3000:].decode("latin-1")
    shutil.rmtree(d, ignore_errors=True)
    if bad:
        c.violation(key, f"{desc or ' '.join(flags)}: {bad}", what)


def options(c):
    p = [c.here + f"/p/{x}.c3" for x in "abcde"]
    want = open(c.here + "/p/want.txt").read()
    cf = list(configs(3 if c.thorough else 2))

    def one(j):
        i, f = j
        build_run(c, f"o{i}", p, ("--use-stdlib=no", *f), want, 7, key="options:" + "/".join(sorted({x.split("=")[0].split()[0] for x in f})))
    c.pmap(one, list(enumerate(cf)))
    s = [c.here + f"/s/{x}.c3" for x in "ab"]
    sw = open(c.here + "/s/want.txt").read()
    cs = [f for f in configs(1)] if not c.thorough else [f for f in configs(2) if f[0] in ("-O0", "-O1", "-O3") or len(f) == 2]
    cs = [f for f in cs if "--x86vec=none" not in f]  # the library needs SSE to return doubles

    def two(j):
        i, f = j
        build_run(c, f"s{i}", s, f, sw, 7, args=["a", "b"], key="stdlib:" + "/".join(sorted({x.split("=")[0].split()[0] for x in f})))
    c.pmap(two, list(enumerate(cs)))
    c.add(evaluations=len(cf) + len(cs), configurations=len(cf), stdlib_configurations=len(cs), distinct_nontrivial=len(cf) + len(cs))


def files(c):
    p = {x: c.here + f"/p/{x}.c3" for x in "abcde"}
    want = open(c.here + "/p/want.txt").read()
    jobs = []
    flagsets = [("-O0",), ("-O0", "--single-module=yes"), ("-O1", "--threads 1"), ("-O1",)] if c.thorough else [("-O0",)]
    for fl in flagsets:
        for perm in itertools.permutations("abcde"):
            jobs.append((fl, [[x] for x in perm]))
    for fl in flagsets + [("-O1", "--single-module=yes")]:
        for part in partitions(list("abcde")):
            jobs.append((fl, part))
            jobs.append((fl, [g[::-1] for g in part][::-1]))
    files = {}
    d = os.path.join(c.dir, "groups")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for _, part in jobs:
        for g in part:
            n = "".join(g)
            if n not in files:
                files[n] = p[n] if len(n) == 1 else f"{d}/g_{n}.c3"
                if len(n) > 1:
                    open(files[n], "w").write("\n".join(open(p[x]).read() for x in g))

    def one(j):
        i, (fl, part) = j
        build_run(c, f"f{i}", [files["".join(g)] for g in part], ("--use-stdlib=no", *fl), want, 7, desc=f"files {'|'.join(''.join(g) for g in part)} {fl}", key="files:" + "/".join(fl))
    c.pmap(one, list(enumerate(jobs)))
    c.add(evaluations=len(jobs), file_orders=len(jobs), distinct_nontrivial=len(jobs))


STRIDE = {"C20": 150}
KNOWN = ("lost update",)  # findings listed for their own property


class Stop(Exception):
    pass


class Gather:
    """stands for the context of another check: keeps its generated cases"""

    def __init__(self, c, pid):
        self.c, self.calls = c, []
        self.tier, self.thorough = "quick", False
        self.here = os.path.join(VERIF, "checks", pid)
        self.dir, self.c3c = c.dir, c.c3c

    def run_cases(self, name, prelude, cases, opts=("-O1",), flags=(), shards=4, stdlib=False, objs=()):
        if not objs:
            self.calls.append((name, prelude, [x for x in cases if (isinstance(x[1], str) or (isinstance(x[1], set) and all(isinstance(y, str) for y in x[1]))) and not x[2].startswith(KNOWN)], tuple(flags), stdlib))

    def pmap(self, fn, items, jobs=8):
        return [fn(x) for x in items]

    procmap = pmap

    def verdicts(self, name, prelude, decls, flags=(), shards=4, stdlib=False):
        return [[] for _ in decls]

    def violation(self, *a):
        pass

    add = set = sample = violation

    def __getattr__(self, n):
        raise Stop(n)

    def add(self, **kw):
        pass

    def set(self, **kw):
        pass


def generated(c):
    sets = [["-O2"], ["-Oz"], ["-O0", "--safe=no", "-g0"]] + ([["-O3"], ["-O5", "--fp-math=strict"], ["-Os"], ["-O4"], ["-O1", "--single-module=yes"], ["-O2", "--optsize=small"]] if c.thorough else [])
    total = 0
    for pid in ("C06", "C07", "C08", "C10", "C11", "C12", "C20", "C21", "C22"):
        f = os.path.join(VERIF, "checks", pid, "check.py")
        if not os.path.exists(f):
            continue
        spec = importlib.util.spec_from_file_location("gen_" + pid, f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        g = Gather(c, pid)
        try:
            m.run(g)
        except Stop:
            pass
        jobs = []
        for name, prelude, cases, flags, stdlib in g.calls:
            sub = cases[::max(1, STRIDE.get(pid, 25) // (10 if c.thorough else 1))]
            if not sub or stdlib:
                continue
            for i, s in enumerate(sets):
                if any(x.startswith(("-O", "--safe")) for x in flags):
                    continue
                jobs.append((f"x{pid.lower()}{name}{i}", prelude, [(b, w, f"{pid}:{d.split(';')[0]};{d} [{' '.join(s)}]") for b, w, d in sub], s, flags))
            total += len(sub)

        def one(j):
            name, prelude, cases, s, flags = j
            c.run_cases(name, prelude, cases, opts=[s[0]], flags=(*flags, *s[1:]), shards=8 if c.thorough else 1)
        c.pmap(one, jobs)
    c.add(generated_cases=total)


def run(c):
    options(c)
    files(c)
    generated(c)
    c.sample({"configuration": "-O3 --safe=yes --strip-unused=no", "files": "a|cb|ed"})
    c.set(rule="all pairs (thorough: triples) of values of 16 build options; all orders and groupings of five source files; generated cases of nine checks at the optimization levels", exhaustive=True)
