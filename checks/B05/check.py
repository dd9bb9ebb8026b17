"""The exit status and the outputs tell whether the build succeeded: every call of the compiler to the system failing, at every place, in every kind of build."""
import itertools
import json
import os
import shutil
import struct
import subprocess
import zlib

LEVEL = "exploration"
TECHNIQUE = ("exhaustive exploration of fault points: every kind of build command is run by the real compiler once for each call to the system that it makes (found by a counting run), with that call failing, "
             "for every limit of file size up to the largest output, and for every kind of failing tool, in fresh directories and in ones with older outputs")
NOTE = ("Oracle: the same command without faults in a fresh directory. Success is only reported with outputs equal to the reference byte for byte (and the same text of the program run); "
        "with a failure no executable or library appears except an older one with its old bytes. The compiler itself never ends by a signal.")

NOSTD = ["-g0", "--use-stdlib=no"]
MAIN = """module m;
import a;
extern fn int printf(char*, ...);
fn int main()
{
	printf("sum %d\\n", a::sum({VALUE}));
	return 0;
}
"""
A = """module a;
import b;
fn int sum(int n)
{
	int s = 0;
	for (int i = 0; i < n; i++) s += b::sq(i);
	return s;
}
"""


def src(v, cc=False):
    b = "module b;\nextern fn int cfun(int x);\nfn int sq(int x) => cfun(x) * x;\n" if cc else "module b;\nfn int sq(int x) => x * x;\n"
    return {"m.c3": MAIN.replace("{VALUE}", str(v)), "a.c3": A, "b.c3": b}


def zipped(entries):
    """A packed library with stored and deflated entries."""
    out, cd = b"", b""
    for i, (name, data) in enumerate(entries):
        n = name.encode()
        crc = zlib.crc32(data)
        co = zlib.compressobj(6, zlib.DEFLATED, -15)
        body = data if i % 2 else co.compress(data) + co.flush()
        m = 0 if i % 2 else 8
        h = struct.pack("<HHHHHIIIHH", 20, 0, m, 0, 0, crc, len(body), len(data), len(n), 0)
        cd += b"PK\1\2" + struct.pack("<H", 20) + h + struct.pack("<HHHII", 0, 0, 0, 0, len(out)) + n
        out += b"PK\3\4" + h + n + body
    return out + cd + b"PK\5\6" + struct.pack("<HHHHIIH", 0, 0, len(entries), len(entries), len(cd), len(out), 0)


class Sc:
    def __init__(self, name, files, cmd, outs, run=False, kind="file"):
        self.__dict__.update(name=name, files=files, cmd=list(cmd), outs=list(outs), run=run, kind=kind)


def project(**kw):
    return json.dumps({"langrev": "1", "version": "0.1.0", "authors": [], "sources": ["m.c3", "a.c3", "b.c3"], "output": "out", "use-stdlib": False, "debug-info": "none", "targets": {"prog": {"type": "executable", **kw}}})


def builds():
    """Each kind of build, as a function of the version of the sources."""
    s3 = ["m.c3", "a.c3", "b.c3"]

    def lib(v):
        return {k: t for k, t in src(v).items() if k != "m.c3"} | {"c.c3": f"module c;\nimport a;\nfn int total() @export => a::sum({v});\n"}
    l3 = ["a.c3", "b.c3", "c.c3"]
    yield Sc("compile", src, ["compile", *s3, "-o", "prog", *NOSTD], ["prog"])
    yield Sc("compile threads=1", src, ["compile", *s3, "-o", "prog", "--threads", "1", *NOSTD], ["prog"])
    yield Sc("compile -O3 single module", src, ["compile", *s3, "-o", "prog", "-O3", "--single-module=yes", *NOSTD], ["prog"])
    yield Sc("compile in folders", lambda v: {**src(v), "bin/x": ""}, ["compile", *s3, "-o", "bin/prog", "--build-dir", "bld", *NOSTD], ["bin/prog"])
    yield Sc("compile builtin linker", src, ["compile", *s3, "-o", "prog", "--linker=builtin", *NOSTD], ["prog"])
    yield Sc("compile cc linker", src, ["compile", *s3, "-o", "prog", "--linker=cc", *NOSTD], ["prog"])
    yield Sc("compile with included file", lambda v: {**src(v), "b.c3": 'module b;\n$include("sq.txt");\n', "sq.txt": "fn int sq(int x) => x * x + %d;\n" % v}, ["compile", *s3, "-o", "prog", "--trust=full", *NOSTD], ["prog"])
    yield Sc("compile with embedded file", lambda v: {**src(v), "b.c3": 'module b;\nchar[*] data = $embed("data.bin");\nfn int sq(int x) => data[x];\n', "data.bin": "".join(chr(48 + (i * v) % 70) for i in range(3000))}, ["compile", *s3, "-o", "prog", "--trust=full", *NOSTD], ["prog"])
    yield Sc("compile with $exec", lambda v: {**src(v), "b.c3": 'module b;\n$exec("./g.sh");\n', "g.sh": "#!/bin/sh\nprintf 'fn int sq(int x) => x * %d;\n'\n" % v}, ["compile", *s3, "-o", "prog", "--trust=full", *NOSTD], ["prog"])
    yield Sc("compile with a response of a folder", lambda v: {"s/" + k: t for k, t in src(v).items()}, ["compile", "s/**", "-o", "prog", *NOSTD], ["prog"])
    yield Sc("objects", src, ["compile-only", *s3, "--obj-out", "o", *NOSTD], ["o/*.o"])
    yield Sc("one object", src, ["compile-only", *s3, "-o", "all", "--single-module=yes", "--obj-out", "o", *NOSTD], ["o/*.o", "*.o"])
    yield Sc("assembler", src, ["compile-only", *s3, "--no-obj", "--emit-asm", "--asm-out", "o", *NOSTD], ["o/*"])
    yield Sc("llvm", src, ["compile-only", *s3, "--no-obj", "--emit-llvm", "--llvm-out", "o", *NOSTD], ["o/*"])
    yield Sc("static library", lib, ["static-lib", *l3, "-o", "lb", "--no-entry", *NOSTD], ["lb.a", "liblb.a", "*.h"])
    yield Sc("dynamic library", lib, ["dynamic-lib", *l3, "-o", "lb", "--no-entry", *NOSTD], ["lb.so", "liblb.so", "*.h"])
    yield Sc("compile and run", src, ["compile-run", *s3, *NOSTD], ["m"], run=True)
    yield Sc("compile and run away", src, ["compile-run", "--run-once", *s3, *NOSTD], [], run=True)

    def cproj(v):
        return {**src(v, True), "c1.c": f"int two(int x);\nint cfun(int x) {{ return two(x) + {v}; }}\n", "c2.c": "int two(int x) { return x * 2; }\n", "project.json": project(**{"c-sources": ["c1.c", "c2.c"], "opt": "O1"})}
    yield Sc("project with C sources", cproj, ["build", "prog"], ["out/prog"])
    yield Sc("project", lambda v: {**src(v), "project.json": project()}, ["build", "prog"], ["out/prog"])
    yield Sc("project run", lambda v: {**src(v), "project.json": project()}, ["run", "prog"], ["out/prog"], run=True)
    yield Sc("project exec", lambda v: {**src(v), "b.c3": "module b;\n", "project.json": project(exec=["./gen.sh"], **{"script-dir": "."}),
                                       "gen.sh": "#!/bin/sh\nprintf 'module b;\\nfn int sq(int x) => x * %d;\\n' > b.c3\n" % v}, ["build", "prog", "--trust=full"], ["out/prog"])
    yield Sc("project clean-run", lambda v: {**src(v), "project.json": project()}, ["clean-run", "prog"], ["out/prog"], run=True)
    yield Sc("project static library", lambda v: {**lib(v), "project.json": project(type="static-lib", **{"sources-override": l3})}, ["build", "prog"], ["out/*.a"])
    yield Sc("project dynamic library", lambda v: {**lib(v), "project.json": project(type="dynamic-lib", **{"sources-override": l3})}, ["build", "prog"], ["out/*.so"])

    def dirlib(v):
        f = src(v)
        return {"m.c3": f["m.c3"], "l/lib.c3l/a.c3": f["a.c3"], "l/lib.c3l/b.c3": "module b;\nextern fn int cfun(int x);\nfn int sq(int x) => cfun(x);\n", "l/lib.c3l/x.c": f"int cfun(int x) {{ return x + {v}; }}\n",
                "l/lib.c3l/manifest.json": json.dumps({"provides": "lib", "sources": ["a.c3", "b.c3"], "c-sources": ["x.c"], "targets": {"linux-x64": {}}})}
    yield Sc("library with C source", dirlib, ["compile", "m.c3", "--libdir", "l", "--lib", "lib", "-o", "prog", *NOSTD], ["prog"])

    def packed(v):
        f = dirlib(v)
        return {"m.c3": f["m.c3"], "l/lib.c3l": zipped([(k[len("l/lib.c3l/"):], t.encode()) for k, t in f.items() if k.startswith("l/")])}
    yield Sc("init", lambda v: {"x": str(v)}, ["init", "pro"], ["pro/**"], kind="init")
    yield Sc("init from a file", lambda v: {"t.json": json.dumps({"version": str(v), "authors": ["x" * 9000]})}, ["init", "pro", "--template", "t.json"], ["pro/**"], kind="init")
    yield Sc("init library", lambda v: {"x": str(v)}, ["init-lib", "lib"], ["lib.c3l/**"], kind="init")
    big = {f"t{i}": {"type": "executable", "sources": ["a" * 3000]} for i in range(3)}
    for k, b in (("", {}), (" (long)", big)):
        yield Sc("project add-target" + k, lambda v: {"project.json": json.dumps({"version": str(v), "targets": b})}, ["project", "add-target", "new", "executable", "a.c3"], ["project.json"], kind="edit")
    yield Sc("packed library", packed, ["compile", "m.c3", "--libdir", "l", "--lib", "lib", "-o", "prog", *NOSTD], ["prog"])


CC = {
    "fails": "#!/bin/sh\necho no >&2\nexit 1\n",
    "fails silently": "#!/bin/sh\nexit 1\n",
    "fails with 255": "#!/bin/sh\nexit 255\n",
    "leaves a part": '#!/bin/sh\nwhile [ $# -gt 0 ]; do [ "$1" = -o ] && printf part > "$2"; shift; done\nexit 1\n',
    "is killed": "#!/bin/sh\nkill -9 $$\n",
    "is killed with a part": '#!/bin/sh\nwhile [ $# -gt 0 ]; do [ "$1" = -o ] && printf part > "$2"; shift; done\nkill -9 $$\n',
    "aborts": "#!/bin/sh\nkill -6 $$\n",
    "is not executable": None,
    "is no program": "\x7fELFxxxxxxxxxxxxxxxxxxxxxxxx",
}
BROKEN = {
    "lexing": 'fn int sq(int x) => "abc;\n', "parsing": "fn int sq(int x) => x *;\n", "names": "fn int sq(int x) => y;\n", "types": "fn int sq(int x) => \"a\";\n", "missing": "fn int sqr(int x) => x;\n",
    "linking": "extern fn int not_there(int x);\nfn int sq(int x) => not_there(x);\n", "twice": "fn int sq(int x) @export(\"main\") => x;\n", "$error": "$error \"no\";\nfn int sq(int x) => x;\n",
    "$assert": "$assert false : \"no\";\nfn int sq(int x) => x;\n", "$include": '$include("nothing.txt");\n', "$embed": 'char[*] z = $embed("nothing.txt"); fn int sq(int x) => z[x];\n', "$exec": '$exec("./nothing.sh");\n',
    "unused function": "fn int sq(int x) => x;\nfn int other() => 1 + \"a\";\n", "other module name": "fn int sq(int x) => x;\nimport nothing;\n",
    "$include folder": '$include("folder");\n', "$embed folder": 'char[*] z = $embed("folder"); fn int sq(int x) => z[x];\n', "asm": 'fn int sq(int x) { asm("this is no instruction"); return x; }\n',
}


def failures():
    """(name, files, command, environment): something of it does not work, so the command must fail."""
    s3 = ["m.c3", "a.c3", "b.c3"]
    comp = ["compile", *s3, "-o", "prog", *NOSTD]
    kinds = {"compile": comp, "compile-only": ["compile-only", *s3, "--obj-out", "o", *NOSTD], "run": ["compile-run", *s3, *NOSTD], "single": comp + ["--single-module=yes"], "one thread": comp + ["--threads", "1"],
             "O3": comp + ["-O3"], "builtin": comp + ["--linker=builtin"], "cc": comp + ["--linker=cc"], "static": ["static-lib", *s3, "-o", "lb", *NOSTD], "dynamic": ["dynamic-lib", *s3, "-o", "lb", *NOSTD],
             "build": ["build", "prog"], "project run": ["run", "prog"], "check": ["compile-only", *s3, "-C", *NOSTD], "no output": ["compile-only", *s3, "--no-obj", *NOSTD],
             "emit": ["compile-only", *s3, "--no-obj", "--emit-llvm", "--emit-asm", "--llvm-out", "o", "--asm-out", "o", *NOSTD]}
    links = ("compile", "run", "single", "one thread", "O3", "builtin", "cc", "build", "project run")
    for k, cmd in kinds.items():
        for b, text in BROKEN.items():
            if b in ("linking", "twice") and k not in links or b == "asm" and k == "check":
                continue
            if b == "asm" and k == "no output":
                continue
            yield f"{k}, error in {b}", {**src(9), "b.c3": b"module b;\n" + text.encode("latin1"), "project.json": project(), "folder/x": ""}, cmd + (["--trust=full"]), {}
        for nm, f in (("missing", {"b.c3": None}), ("a folder", {"b.c3": None, "b.c3/x": ""})):
            yield f"{k}, source {nm}", {**src(9), "project.json": project(), **f}, cmd, {}
        for n in (1, 2, 77, 128, 255):
            if k in ("run", "project run"):
                yield f"{k}, program returns {n}", {**src(9), "m.c3": f"module m; import a; extern fn int puts(char*); fn int main() {{ if (a::sum(2) == 99) puts(\"\"); return {n}; }}", "project.json": project()}, cmd, {}
        if k in ("run", "project run"):
            for n in (6, 9, 11, 15):
                yield f"{k}, program killed by {n}", {**src(9), "m.c3": f"module m; import a; extern fn int raise(int x); fn int main() {{ raise({n}); return a::sum(1); }}", "project.json": project()}, cmd, {}
    files = {**src(9), "project.json": project()}
    for nm, text in CC.items():
        f = {"t/tool": text if text else "x", **({"t/tool.sh": text} if text else {})}
        tool = "./t/tool.sh" if text else "./t/tool"
        yield f"linker {nm}", {**files, **f}, comp + ["--linker=custom", tool], {}
        yield f"cc {nm} by environment", {**files, **f}, comp + ["--linker=cc"], {"C3C_CC": tool}
        yield f"cc {nm} by option", {**files, **f}, comp + ["--linker=cc", "--cc", tool], {}
        cp = {**src(9, True), "c1.c": "int cfun(int x) { return x; }\n", "project.json": project(**{"c-sources": ["c1.c"], "cc": tool}), **f}
        yield f"C compiler {nm} in the project", cp, ["build", "prog"], {}
        yield f"C compiler {nm} in the project, threads 1", cp, ["build", "prog", "--threads", "1"], {}
        yield f"C compiler {nm} in the project, run", cp, ["run", "prog"], {}
    for nm, text in (("wrong", "int cfun(int x) { return y; }\n"), ("incomplete", "int other(int x) { return x; }\n"), ("missing", None)):
        cp = {**src(9, True), "c1.c": text, "project.json": project(**{"c-sources": ["c1.c"]})}
        for cmd in (["build", "prog"], ["run", "prog"]):
            yield f"C source {nm} {cmd[0]}", cp, cmd, {}
    for nm, f, cmd in (
            ("output is a folder", {"prog/x": ""}, comp), ("output is a folder, builtin", {"prog/x": ""}, comp + ["--linker=builtin"]), ("output folder missing", {}, ["compile", *s3, "-o", "nothing/prog", *NOSTD]),
            ("output folder is a file", {"file": ""}, ["compile", *s3, "-o", "file/prog", *NOSTD]), ("build folder is a file", {"file": ""}, comp + ["--build-dir", "file"]),
            ("object folder is a file", {"file": ""}, kinds["compile-only"] + ["--obj-out", "file"]), ("llvm folder is a file", {"file": ""}, kinds["emit"] + ["--llvm-out", "file"]),
            ("asm folder is a file", {"file": ""}, kinds["emit"] + ["--asm-out", "file"]), ("static library is a folder", {"lb.a/x": ""}, kinds["static"]), ("dynamic library is a folder", {"lb.so/x": ""}, kinds["dynamic"]),
            ("header is a folder", {"lb.h/x": ""}, kinds["dynamic"]), ("no sources", {}, ["compile", "-o", "prog", *NOSTD]), ("missing library", {}, comp + ["--lib", "nothing"]), ("missing linked library", {}, comp + ["-l", "nothing_there"]),
            ("missing project file", {"project.json": None}, ["build", "prog"]), ("unknown target", {}, ["build", "other"]), ("project file is empty", {"project.json": ""}, ["build", "prog"]),
            ("project file is a folder", {"project.json": None, "project.json/x": ""}, ["build", "prog"]), ("unknown command", {}, ["bulid", "prog"]), ("unknown option", {}, comp + ["--not-an-option"]),
            ("project output is a file", {"project.json": project(output="file"), "file": ""}, ["build", "prog"]), ("project output in a file", {"project.json": project(output="file/x"), "file": ""}, ["build", "prog"]),
            ("project build folder is a file", {"file": ""}, ["build", "prog", "--build-dir", "file"]), ("project source folder missing", {"project.json": project(sources=["nothing/**"])}, ["build", "prog"]),
            ("library folder missing", {}, comp + ["--libdir", "nothing", "--lib", "x"]), ("library without manifest", {"l/x.c3l/a": ""}, comp + ["--libdir", "l", "--lib", "x"]),
            ("library manifest is empty", {"l/x.c3l/manifest.json": ""}, comp + ["--libdir", "l", "--lib", "x"]), ("library manifest is a folder", {"l/x.c3l/manifest.json/x": ""}, comp + ["--libdir", "l", "--lib", "x"]),
            ("library source missing", {"l/x.c3l/manifest.json": json.dumps({"provides": "x", "sources": ["y.c3"], "targets": {"linux-x64": {}}})}, comp + ["--libdir", "l", "--lib", "x"]),
            ("library source folder missing", {"l/x.c3l/manifest.json": json.dumps({"provides": "x", "sources": ["y/**"], "targets": {"linux-x64": {}}})}, comp + ["--libdir", "l", "--lib", "x"]),
            ("library needs a missing one", {"l/x.c3l/manifest.json": json.dumps({"provides": "x", "dependencies": ["y"], "sources": [], "targets": {"linux-x64": {}}})}, comp + ["--libdir", "l", "--lib", "x"]),
            ("library for another platform", {"l/x.c3l/manifest.json": json.dumps({"provides": "x", "targets": {"windows-x64": {}}}), "l/x.c3l/a.c3": "module x;"}, comp + ["--libdir", "l", "--lib", "x"]),
            ("packed library is empty", {"l/x.c3l": ""}, comp + ["--libdir", "l", "--lib", "x"]), ("standard library folder missing", {}, ["compile", *s3, "-o", "prog", "--stdlib", "nothing"]),
            ("init exists", {"pro/x": ""}, ["init", "pro"]), ("init with a bad name", {}, ["init", "p r"]), ("init library exists", {"pro.c3l/x": ""}, ["init-lib", "pro"]), ("init in a missing folder", {}, ["init", "pro", "--path", "nothing"])):
        yield nm, {**files, **f}, cmd, {}


def put(base, files):
    for n, t in files.items():
        if t is None:
            continue
        p = os.path.join(base, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(t if isinstance(t, bytes) else t.encode())
        if n.endswith(".sh"):
            os.chmod(p, 0o755)


def outputs(base, globs):
    import glob
    r = {}
    for g in globs:
        for p in glob.glob(os.path.join(base, g), recursive=True):
            if os.path.isfile(p):
                r[os.path.relpath(p, base)] = open(p, "rb").read()
    return r


def artifacts(base):
    """Every executable or library in the folder that a user may take for the result."""
    r = {}
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                continue
            with open(p, "rb") as h:
                head = h.read(20)
            if head.startswith(b"!<arch>") or head[:4] == b"\x7fELF" and len(head) > 17 and head[16] in (2, 3) or f in ("prog", "m", "lb.a", "lb.so", "liblb.a", "liblb.so"):
                r[os.path.relpath(p, base)] = open(p, "rb").read()
    return r


SUCCESS = b"sum "


def run(c):
    so = os.path.join(c.dir, "fault.so")
    code, out = c.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(c.here, "fault.c"), "-ldl"])
    if code:
        raise SystemExit("fault.c: " + out.decode())
    fake = os.path.join(c.dir, "fake")
    os.makedirs(fake, exist_ok=True)
    scs = list(builds())
    import tempfile
    base = os.path.join(c.dir, "s")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)

    def go(wd, cmd, env=None, timeout=60):
        e = {k: v for k, v in os.environ.items() if k not in ("C3C_CC", "C3C_LIB")}
        e.update(env or {})

        try:
            p = subprocess.run([c.c3c] + cmd, cwd=wd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as t:
            return -99, t.stdout or b""
        return p.returncode, p.stdout

    # the references, and directories with the outputs of an older version
    class Ref:
        pass

    def prepare(i):
        s = scs[i]
        r = Ref()
        r.bad = None
        r.fresh = os.path.join(base, f"f{i}")
        put(r.fresh, s.files(9))
        r.stale = os.path.join(base, f"o{i}")
        put(r.stale, s.files(4))
        code, txt = go(r.stale, s.cmd)
        if code:
            r.bad = f"{s.name}: the older version does not build: {code} {txt[-300:]!r}"
            return r
        r.oldtext = next((ln for ln in txt.split(b"\n") if ln.startswith(SUCCESS)), b"")
        if s.kind in ("init", "edit"):
            shutil.rmtree(r.stale)
        put(r.stale, s.files(9))
        cnt = {}
        for which, src_dir in (("fresh", r.fresh), ("stale", r.stale)):
            wd = os.path.join(base, f"r{i}{which}")
            shutil.copytree(src_dir, wd, symlinks=True)
            log = os.path.join(base, f"r{i}{which}.cnt")
            code, txt = go(wd, s.cmd, {"LD_PRELOAD": so, "VF_COUNT": log})
            if code:
                r.bad = f"{s.name} ({which}): does not build: {code} {txt[-300:]!r}"
                return r
            o = outputs(wd, s.outs)
            if which == "fresh":
                r.out, r.art = o, artifacts(wd)
                if s.outs and not o:
                    r.bad = f"{s.name}: success but no output {s.outs} in {os.listdir(wd)}"
                if s.run and SUCCESS not in txt:
                    r.bad = f"{s.name}: the program was not run: {txt!r}"
                ex = [k for k in r.art if open(os.path.join(wd, k), "rb").read(17)[16:] in (b"\2", b"\3") and not k.endswith(".so")]
                if not s.run and ex:
                    txt = subprocess.run([os.path.join(wd, ex[0])], stdout=subprocess.PIPE, timeout=20).stdout
                    if SUCCESS not in txt:
                        r.bad = f"{s.name}: the program does not run: {txt!r}"
                r.text = next((ln for ln in txt.split(b"\n") if ln.startswith(SUCCESS)), b"")
            elif o != r.out or s.run and r.text not in txt:
                r.bad = f"{s.name}: built over an older version, the outputs are not those of the sources: {sorted(k for k in set(o) | set(r.out) if o.get(k) != r.out.get(k))}"
            cnt[which] = dict((a, int(b)) for a, b in (ln.split() for ln in open(log).read().splitlines()))
            shutil.rmtree(wd)
        r.cnt = cnt
        return r
    refs = list(c.pmap(prepare, range(len(scs))))
    for s, r in zip(scs, refs):
        if r.bad:
            c.violation(f"reference {s.name}", r.bad, {"command": s.cmd})
    EIO, ENOSPC, EACCES, ENOMEM, ENOENT, EMFILE = 5, 28, 13, 12, 2, 24
    ERR = {"open": [EACCES, EMFILE, ENOENT], "open64": [EACCES, EMFILE, ENOENT], "openat": [EACCES], "openat64": [EACCES], "fopen": [EACCES, EMFILE, ENOENT], "fopen64": [EACCES, ENOENT], "write": [ENOSPC, EIO], "fwrite": [ENOSPC, EIO],
           "fclose": [ENOSPC], "close": [EIO], "mkdir": [ENOSPC, EACCES], "system": [ENOMEM], "popen": [EMFILE], "fork": [ENOMEM], "stat": [EACCES, ENOENT], "unlink": [EACCES]}
    PROBES = ("access", "stat", "stat64", "lstat", "opendir", "readdir", "scandir", "realpath", "fstat", "fstat64")
    PERSISTENT = ("write", "fwrite", "read", "fread", "fclose", "system")
    jobs = []
    for i, (s, r) in enumerate(zip(scs, refs)):
        if r.bad:
            continue
        for which in ("fresh", "stale"):
            k = 0
            for fn, n in sorted(r.cnt[which].items()):
                errs = ERR.get(fn, [EIO])
                if fn in ("system", "write"):
                    for nth in range(1, n + 1):
                        jobs += [(i, which, "call", f, nth, EIO) for f in (("system_status", "system_signal") if fn == "system" else ("write_short",))]
                for nth in range(1, n + 1):
                    for e in (errs if c.thorough else errs[:1]):
                        k += 1
                        if not c.thorough and which == "stale" and fn in ("read", "fread", "fstat", "fstat64", "stat", "stat64", "lstat", "access", "readdir", "opendir", "ftell", "fseek") and nth % 2:
                            continue
                        jobs.append((i, which, "call", fn, nth, e))
                        if fn in PERSISTENT and (c.thorough or which == "fresh") and nth < n:
                            jobs.append((i, which, "calls", fn, nth, e))
        big = max([len(b) for b in r.out.values()] + [4096])
        step = 512 if c.thorough else 2048
        for lim in range(0, big + step, step):
            jobs.append((i, "stale" if (lim // step) % 2 and not c.thorough else "fresh", "limit", lim, 0, 0))
            if c.thorough:
                jobs.append((i, "stale", "limit", lim, 0, 0))

    def works(wd, k, r):
        """Does the artifact do what the sources say?"""
        p = os.path.join(wd, k)
        if k.endswith(".so"):
            x = subprocess.run(["python3", "-c", f"import ctypes; print('sum', ctypes.CDLL({p!r}).c__total())"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20)
            return x.stdout.strip() == b"sum 204"
        if k.endswith(".a") or k.endswith(".o"):
            return False
        try:
            os.chmod(p, 0o755)
            return subprocess.run([p], stdout=subprocess.PIPE, timeout=20).stdout.strip() == r.text
        except OSError:
            return False

    def one(job):
        i, which, how, a, b, e = job
        s, r = scs[i], refs[i]
        wd = tempfile.mkdtemp(prefix="w", dir=base)
        shutil.rmtree(wd)
        shutil.copytree(r.fresh if which == "fresh" else r.stale, wd, symlinks=True)
        before = artifacts(wd)
        env, lim = {}, None
        if how == "call":
            env = {"LD_PRELOAD": so, "VF_FN": a, "VF_N": str(b), "VF_MODE": str(e)}
        elif how == "calls":
            env = {"LD_PRELOAD": so, "VF_FN": a, "VF_N": str(b), "VF_MODE": str(e), "VF_ALL": "1"}
        elif how == "limit":
            env = {"LD_PRELOAD": so, "VF_LIMIT": str(a)}
        code, txt = go(wd, s.cmd, env)
        bad = None
        o = outputs(wd, s.outs)
        if s.run and r.oldtext in txt:
            bad = "runs the program of the older sources"
        if code == -99:
            bad = "hangs"
        elif (code < 0 or code >= 128) and b"std::system_error" not in txt:
            bad = f"crashes ({code})"
        elif b"unrecoverable error" in txt or b"Internal compiler error" in txt:
            bad = "reports an internal error"
        elif bad:
            pass
        elif code == 0:
            diff = sorted(k for k in set(o) | set(r.out) if o.get(k) != r.out.get(k))
            # a search that fails may find another linker or startup file
            if how == "call" and a in PROBES:
                diff = [k for k in diff if k not in o or k not in r.out or o[k] == before.get(k) or not works(wd, k, r)]
            if diff:
                bad = "reports success, but " + ", ".join(f"'{k}' is " + ("missing" if k not in o else "not what the sources give" + (" but the older one" if o[k] == before.get(k) else "") if k in r.out else "left") for k in diff[:3])
            elif s.run and r.text not in txt:
                bad = "reports success, but the program was not run"
        else:
            new = {k: v for k, v in artifacts(wd).items() if before.get(k) != v}
            new = {k: v for k, v in new.items() if v != r.art.get(k)}
            if s.kind == "edit":
                was = open(os.path.join(r.fresh, "project.json"), "rb").read()
                if o.get("project.json") not in (was, r.out["project.json"]):
                    new["project.json"] = b""
            if new:
                bad = f"fails, but leaves '{sorted(new)[0]}' incomplete"
            elif not txt.strip():
                bad = f"fails ({code}) without saying why"
        if not bad or not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)
        return bad, code, txt
    # what cannot work must fail, also where it worked before
    fl = list(failures())

    def fail(j):
        (name, files, cmd, env), which = j
        wd = tempfile.mkdtemp(prefix="x", dir=base)
        if which == "stale":
            put(wd, {**src(4), "project.json": project()})
            if not name.startswith("output"):
                for first in (["compile", "m.c3", "a.c3", "b.c3", "-o", "prog", *NOSTD], ["build", "prog"], ["compile", "m.c3", "a.c3", "b.c3", *NOSTD]):
                    go(wd, first)
        for n in files:
            if os.path.isfile(os.path.join(wd, n.split("/")[0])) and (files[n] is None or "/" in n):
                os.unlink(os.path.join(wd, n.split("/")[0]))
        put(wd, files)
        before = artifacts(wd)
        code, txt = go(wd, cmd, env)
        new = sorted(k for k, v in artifacts(wd).items() if before.get(k) != v)
        runs = b"program returns" in name.encode() or "program killed" in name
        bad = None
        if code == -99:
            bad = "hangs"
        elif code < 0 or (code >= 128 and not runs):
            bad = f"crashes ({code})"
        elif b"unrecoverable error" in txt or b"nternal compiler error" in txt or b"unexpected error" in txt:
            bad = "reports an internal error"
        elif code == 0:
            bad = "reports success"
        elif runs and "returns" in name and code != int(name.split()[-1]):
            bad = f"reports {code}"
        elif new and not runs and "a part" not in name:
            bad = f"fails, but leaves '{new[0]}'"
        elif SUCCESS in txt and "C compiler" not in name:
            bad = "runs an older program"
        elif not txt.strip():
            bad = "fails without saying why"
        shutil.rmtree(wd, ignore_errors=True)
        return bad, code, txt
    fjobs = [(f, w) for f in fl for w in ("fresh", "stale")]
    for (f, w), (bad, code, txt) in zip(fjobs, c.pmap(fail, fjobs)):
        if bad:
            c.violation(f"{f[0]}|{bad[:40]}", f"{f[0]} ({w}): {bad}: {txt[-200:]!r}", {"command": f[2], "directory": w, "output": txt.decode("latin1")[-2000:]})
    c.add(failing_commands=len(fjobs))
    nfail = 0
    for job, (bad, code, txt) in zip(jobs, c.pmap(one, jobs)):
        i, which, how, a, b, e = job
        nfail += code != 0
        if bad:
            s = scs[i]
            what = f"{a}() call {b}{' and later ones' if how == 'calls' else ''} fails with {os.strerror(e)}" if how.startswith("call") else f"files are limited to {a} bytes"
            c.violation(f"{s.name}|{how}|{a if how.startswith('call') else ''}|{bad.split(' (')[0][:60]}", f"{s.name} ({which}), {what}: {bad}: {txt[-200:]!r}",
                        {"scenario": s.name, "command": s.cmd, "directory": which, "fault": what, "output": txt.decode("latin1")[-2000:]})
    c.add(builds=len(scs), fault_points=len(jobs), runs=len(jobs) + 4 * len(scs), runs_failed=nfail)
    shutil.rmtree(base, ignore_errors=True)
    c.set(rule="for each build command, every call to the system it makes fails once (per error), every limit of file size in steps, in a fresh directory and over older outputs", exhaustive=True)
    c.sample({"build": scs[0].name, "calls": refs[0].cnt["fresh"] if not refs[0].bad else {}})
