"""Untrusted code runs nothing at build time: every trust level x directive x place x command, with a recorder in every process that starts and a watch on every file that may be included."""
import ctypes
import itertools
import json
import os
import shutil
import struct

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive exploration of configurations: every trust level x kind of directive ($include, $exec, exec of project, target and library) x place x form x command, "
             "run by the real compiler with a recorder preloaded into every process and a watch on the files that could be included")
NOTE = ("Oracle: without the level, the command fails (or, where the directive is not reached because its condition is false or its library is not used, succeeds), the file is never opened and no process but the "
        "C compiler's link step starts; with the level, the recorded invocations, their arguments, input, directory and order are exactly those written and the program returns the value its output defines.")

LEVELS = [None, "none", "include", "full"]
ORDER = {None: 0, "none": 0, "include": 1, "full": 2}

REC = """#!/bin/sh
{ printf 'rec'; for a; do printf ' [%s]' "$a"; done; printf ' in %s\\n' "$(basename "$(pwd)")"; } >> "$REC_LOG"
printf 'const int X = 7;\\n'
"""
RECIN = """#!/bin/sh
t=$(cat)
printf 'recin <%s>\\n' "$t" >> "$REC_LOG"
printf 'const int X = %s;\\n' "$t"
"""
NEST = """#!/bin/sh
printf 'nest\\n' >> "$REC_LOG"
printf '$exec("./rec.sh");\\n'
"""
BIG = """#!/bin/sh
printf 'big\\n' >> "$REC_LOG"
i=0
while [ $i -lt 3000 ]; do printf 'const int LINE%d = %d; // some more text to fill the line of the output\\n' $i $i; i=$((i+1)); done
printf 'const int X = LINE2999 - 2992;\\n'
"""
FAIL = """#!/bin/sh
printf 'fail\\n' >> "$REC_LOG"
printf 'const int X = 7;\\n'
exit 3
"""
SCRIPTS = {"rec.sh": REC, "recin.sh": RECIN, "nest.sh": NEST, "big.sh": BIG, "fail.sh": FAIL}
MAIN = "fn int main() => {};\n"


class Sc:
    def __init__(self, name, files, need, log, rc=7, cmd=("compile", "m.c3", "-o", "prog"), run=True, includes=(), fails=False, allowed_log=(), args=()):
        """need: the trust level needed (0: nothing that needs any). log: lines recorded when granted. rc: what the program returns. fails: the command fails even with the level."""
        self.__dict__.update(name=name, files=files, need=need, log=list(log or []), rc=rc, cmd=list(cmd), run=run, includes=list(includes), fails=fails, args=list(args), allowed_log=list(allowed_log))


ARGS = [("", "", ""), ("none", "{}", ""), ("one", '{"a"}', " [a]"), ("num", "{12, -5}", " [12] [-5]"), ("bool", "{true, false, \"z\"}", " [true] [false] [z]"),
        ("const", "{FOO, $$LINE}", " [31] [1]"), ("enum", "{En.BB, Fo.typeid}", " [BB] [Fo]"), ("fault", "{FLT}", " [FLT]"), ("six", '{1, 2, 3, "four", 5, "6"}', " [1] [2] [3] [four] [5] [6]"),
        ("expr", '{"a" +++ "b", 1 + 2 * 3}', " [ab] [7]")]
EXTRA = "const FOO = 31; enum En { AA, BB } struct Fo { int a; } faultdef FLT;\n"


def at_places(directive, need, log, includes=(), extra_files=None, tag=""):
    """The directive (which defines X) in every place where a global may stand."""
    ef = dict(extra_files or {})

    def sc(name, files, log=log, need=need, rc=7, cmd=("compile", "m.c3", "-o", "prog"), **kw):
        return Sc(f"{tag}:{name}", {**ef, **files}, need, log, rc=rc, cmd=cmd, includes=includes, **kw)
    d = directive
    yield sc("top", {"m.c3": d + ";\n" + EXTRA + MAIN.format("X")})
    yield sc("after uses", {"m.c3": "/* x */ " + MAIN.format("X").strip() + EXTRA.strip() + " " + d + ";\n"})
    yield sc("@if(true)", {"m.c3": d + " @if(true);\n" + EXTRA + MAIN.format("X")})
    yield sc("@if(FOO == 31)", {"m.c3": d + " @if(BAR == 31); const BAR = 31;\n" + EXTRA + MAIN.format("X")})
    yield sc("@if(false)", {"m.c3": d + " @if(false);\n" + EXTRA + MAIN.format("3")}, log=[], need=0, rc=3)
    yield sc("module @if(true)", {"m.c3": "module a @if(true); " + d + ";" + EXTRA + "module m; import a;" + MAIN.format("a::X")})
    yield sc("module @if(false)", {"m.c3": "module a @if(false); " + d + ";" + EXTRA + "module m; " + MAIN.format("3")}, log=[], need=0, rc=3)
    yield sc("private module", {"m.c3": "module a @private; " + d + "; " + EXTRA + "module a; fn int get() @public => X; module m; import a;" + MAIN.format("a::get()")})
    yield sc("second section", {"m.c3": "module a; " + d + "; " + EXTRA + "module m; import a; fn int main() => get(); module m; import a; fn int get() => a::X;\n"})
    yield sc("generic module", {"m.c3": "module a{Type}; " + d + ";" + EXTRA + "fn int get() => X; module m; import a;" + MAIN.format("a::get{int}()")})
    yield sc("unused generic module", {"m.c3": "module a{Type}; " + d + ";" + EXTRA + "fn int get() => X; module m; import a;" + MAIN.format("3")}, log=[], need=0, rc=3)
    yield sc("second file", {"a.c3": "module a; " + d + ";" + EXTRA, "m.c3": "module m; import a;" + MAIN.format("a::X")}, cmd=("compile", "m.c3", "a.c3", "-o", "prog"))
    yield sc("file not compiled", {"a.c3": "module a; " + d + ";" + EXTRA, "m.c3": "module m; " + MAIN.format("3")}, rc=3, log=[], need=0)
    yield sc("in an included file", {"i.c3i": d + ";" + EXTRA, "m.c3": "module m; $include(\"i.c3i\"); " + MAIN.format("X")}, need=max(need, 1))
    yield sc("library source", {"l/lib.c3l/manifest.json": json.dumps({"provides": "lib", "targets": {"linux-x64": {}}}), "l/lib.c3l/a.c3": "module a; " + d.replace('"i', '"../../i') + ";" + EXTRA,
                                "m.c3": "import a;" + MAIN.format("a::X")}, cmd=("compile", "m.c3", "--libdir", "l", "--lib", "lib", "-o", "prog"))
    for cmd in (["compile-only", "--no-obj"], ["compile-only", "--obj-out", "o"], ["static-lib", "-o", "prog"], ["dynamic-lib", "-o", "prog"], ["compile-only", "-C"], ["compile-run"],
                ["compile", "-E", "-o", "prog"], ["compile", "--threads", "1", "--single-module=yes", "-o", "prog"], ["compile", "-O3", "-o", "prog"], ["compile-only", "-P"]):
        kw = {}
        if cmd[0] == "compile-run":
            kw = dict(run="self")
        elif "-o" not in cmd or "-E" in cmd or cmd[0].endswith("lib"):
            kw = dict(run=False)
        if "-P" in cmd or "-E" in cmd:
            # only parsed: nothing is reached
            yield sc("cmd " + " ".join(cmd), {"m.c3": d + ";\n" + EXTRA + "fn int main() => X;"}, cmd=[cmd[0], "m.c3", *cmd[1:]], log=None, need=None, **kw)
            continue
        lg = log if "-E" not in cmd or True else []
        if cmd[0].endswith("lib"):
            yield sc("cmd " + " ".join(cmd), {"m.c3": "module m; " + d + ";\n" + EXTRA + "fn int get() @export => X;"}, cmd=[cmd[0], "m.c3", *cmd[1:]], log=lg, **kw)
        else:
            yield sc("cmd " + " ".join(cmd), {"m.c3": d + ";\n" + EXTRA + "fn int main() => X;" + ("fn void tt() @test {}" if "test" in cmd[0] else "")}, cmd=[cmd[0], "m.c3", *cmd[1:]], log=lg, **kw)


def project(target=None, glob=None):
    p = {"langrev": "1", "version": "0.1.0", "authors": [], "sources": ["m.c3"], "output": "out", "use-stdlib": False, "targets": {"prog": {"type": "executable", **(target or {})}}, **(glob or {})}
    return json.dumps(p)


def library(tgt=None, glob=None, name="lib"):
    return json.dumps({"provides": name, "targets": {"linux-x64": tgt or {}}, **(glob or {})})


def scenarios(thorough):
    # $include
    for tag, inc, files in (("plain", '$include("inc.txt")', {}), ("folder", '$include("incd/deep.txt")', {"incd/deep.txt": "const int X = 7;\n"}), ("up", '$include("incd/../inc.txt")', {"incd/x": ""}),
                            ("const", '$include("inc" +++ ".txt")', {}), ("function", '$include("incf.txt")', {"incf.txt": "macro xx() => 7; const int X = xx();"})):
        f = {"inc.txt": "const int X = 7;\n", **files}
        watch = [x for x in f if x.endswith(".txt") and (x == "inc.txt" or x in files)]
        if any(x.endswith(".txt") for x in files):
            watch.remove("inc.txt")
        yield from at_places(inc, 1, [], includes=watch, extra_files=f, tag="include " + tag)
    # $exec
    for tag, args, rec in ARGS:
        d = '$exec("./rec.sh"' + (", " + args if args else "") + ")"
        yield from at_places(d, 2, [f"rec{rec} in w"], extra_files=SCRIPTS, tag="exec " + (tag or "plain"))
    yield from at_places('$exec("./recin.sh", {}, "7")', 2, ["recin <7>"], extra_files=SCRIPTS, tag="exec stdin")
    yield from at_places('$exec("./nest.sh")', 2, ["nest", "rec in w"], extra_files=SCRIPTS, tag="exec nested")
    yield from at_places('$exec("./big.sh")', 2, ["big"], extra_files=SCRIPTS, tag="exec big")
    for v in ("FALSE", "7"):
        yield Sc("exec fails:" + v, {**SCRIPTS, "m.c3": '$exec("./fail.sh");' + MAIN.format(7)}, 2, ["fail"], fails=True)
    yield Sc("exec twice", {**SCRIPTS, "m.c3": '$exec("./rec.sh", {1}); module b; $exec("./rec.sh", {2}); module m; import b; fn int main() => b::X;\n'}, 2, ["rec [1] in w", "rec [2] in w"])
    yield Sc("exec in order", {**SCRIPTS, "m.c3": 'module a; $exec("true", {0}, "")@if(false); $exec("./rec.sh", {1}); module m; import a; fn int main() => a::X;\n'}, 2, ["rec [1] in w"])
    yield Sc("include twice", {"i.txt": "int y;", "m.c3": 'module a; $include("i.txt"); module m; $include("i.txt"); import a; fn int main() { y = 3; a::y = 4; return y + a::y; }\n'}, 1, [], includes=["i.txt"])
    yield Sc("include deep", {"i1.txt": '$include("i2.txt"); const A = B;', "i2.txt": '$include("d/i3.txt"); const B = C;', "d/i3.txt": "const C = 7;", "m.c3": '$include("i1.txt"); fn int main() => A;\n'}, 1, [],
             includes=["i1.txt", "i2.txt", "d/i3.txt"])
    yield Sc("include missing", {"m.c3": '$include("none.txt"); fn int main() => 7;\n'}, 1, [], fails=True)
    # project exec
    w = ("build", "prog")
    S = {**SCRIPTS, **{"scripts/" + k: v for k, v in SCRIPTS.items()}, "scr/rec.sh": REC, "m.c3": MAIN.format(7)}
    out = "out/prog"
    runs = ["./rec.sh g1", "./rec.sh g2"]
    runt = ["./rec.sh t1", "./rec.sh t2"]
    lg, lt = ["rec [g1] in scripts", "rec [g2] in scripts"], ["rec [t1] in scripts", "rec [t2] in scripts"]
    for g, t, o in itertools.product((None, [], runs), (None, [], runt), (None, [], ["./rec.sh o"])):
        tgt, glo = {}, {}
        if g is not None:
            glo["exec"] = g
        if t is not None:
            tgt["exec"] = t
        if o is not None:
            tgt["exec-override"] = o
        if o is not None and t is not None:
            continue    # an override together with an addition: not documented
        log = (["rec [o] in scripts"] if o else []) if o is not None else (lg if g else []) + (lt if t else [])
        for sd in (None, "scr"):
            if sd:
                tgt = {**tgt, "script-dir": "scr"}
            lo = [x.replace("in scripts", "in scr") for x in log] if sd else log
            need = 2 if log else 0
            yield Sc(f"project exec {g} {t} {o} {sd}", {**S, "project.json": project(tgt, glo)}, need, lo, cmd=w, run=out)
        if thorough or o is None:
            for cmd in (("run", "prog"), ("test", "prog"), ("clean-run", "prog"), ("dist", "prog")):
                if cmd[0] == "dist" or (cmd[0] == "test"):
                    continue
                yield Sc(f"project {cmd[0]} {g} {t} {o}", {**S, "project.json": project({k: v for k, v in tgt.items() if k != "script-dir"}, glo)}, need, log, cmd=cmd, run="self")
    for kind in ("static-lib", "dynamic-lib", "object-files", "prepare"):
        yield Sc(f"project {kind}", {**S, "project.json": project({"type": kind, "exec": runt}, {"exec": runs})}, 2, lg + lt, cmd=w, run=False)
        yield Sc(f"project {kind} without", {**S, "project.json": project({"type": kind})}, 0, [], cmd=w, run=False)
    yield Sc("exec of another target", {**S, "project.json": json.dumps({**json.loads(project()), "targets": {"prog": {"type": "executable"}, "other": {"type": "executable", "exec": runs}}})}, 0, [], cmd=w, run=out)
    yield Sc("project exec and $exec", {**S, "m.c3": '$exec("./rec.sh", {"src"});' + MAIN.format("X"), "project.json": project({"exec": runt})}, 2, lt + ["rec [src] in scripts"], cmd=w, run=out)
    yield Sc("project script-dir $exec", {**S, "m.c3": '$exec("./rec.sh", {"src"});' + MAIN.format("X"), "project.json": project({"script-dir": "scr"})}, 2, ["rec [src] in scr"], cmd=w, run=out)
    yield Sc("project fails", {**S, "project.json": project({"exec": ["./fail.sh", "./rec.sh t1"]})}, 2, ["fail"], cmd=w, fails=True)
    # library exec
    for lib, tgt, used in itertools.product((None, ["./rec.sh l"]), (None, ["./rec.sh t"]), (True, False)):
        man = library({"exec": tgt} if tgt else {}, {"exec": lib} if lib else {})
        log = (["rec [l] in w"] if lib else []) + (["rec [t] in w"] if tgt else [])
        f = {**S, "l/lib.c3l/manifest.json": man, "l/lib.c3l/a.c3": "module a; const X = 7;", "m.c3": ("import a;" if used else "") + MAIN.format("a::X" if used else 7)}
        base = ["compile", "m.c3", "--libdir", "l", "-o", "prog"]
        use = log if used else []
        for cmd, run in ((base, True), (["compile-only", "m.c3", "--libdir", "l", "-C"], False), (["static-lib", "m.c3", "--libdir", "l", "-o", "prog"], False)):
            yield Sc(f"library exec {lib} {tgt} used={used} {cmd[0]}", f, 2 if use else 0, use, cmd=cmd + (["--lib", "lib"] if used else []), run=run)
        pj = {"dependencies": ["lib"], "dependency-search-paths": ["l"]}
        if not used:
            pj.pop("dependencies")
        yield Sc(f"library exec by project {lib} {tgt} {used}", {**f, "project.json": project({}, pj)}, 2 if use else 0, use, cmd=w, run=out)
        # another platform's scripts
        man2 = json.dumps({"provides": "lib", "targets": {"linux-x64": {}, "windows-x64": {"exec": ["./rec.sh other"]}}})
        if lib and tgt and used:
            yield Sc("library exec of another platform", {**f, "l/lib.c3l/manifest.json": man2}, 0, [], cmd=base + ["--lib", "lib"])
        # by way of another library
        if used and log:
            yield Sc(f"library dependency {lib} {tgt}", {**f, "l/outer.c3l/manifest.json": library({}, {"dependencies": ["lib"]}, "outer"), "l/outer.c3l/b.c3": "module b; import a; const X = a::X;", "m.c3": "import b;" + MAIN.format("b::X")},
                     2, use, cmd=base + ["--lib", "outer"])
    yield Sc("library exec big", {**S, "l/lib.c3l/manifest.json": library({"exec": ["./big.sh"]}), "l/lib.c3l/a.c3": "module a; const X = 7;", "m.c3": "import a;" + MAIN.format("a::X")}, 2, ["big"],
             cmd=["compile", "m.c3", "--libdir", "l", "--lib", "lib", "-o", "prog"])
    # names which a shell would take for commands
    E = "touch pwned"
    for nm in ("a;touch pwned;", "a$(touch pwned)", "a`touch pwned`", "a|touch pwned", "a&touch pwned&", "a\"; touch pwned; \"", "a'; touch pwned; '", "a b"):
        k = nm
        lit = nm.replace('"', '\\"')
        for suf in ("", ".a", ".so"):
            yield Sc(f"link name {k}{suf}", {"m.c3": f'module m @link("{lit}{suf}");' + MAIN.format(7)}, 0, [], fails=True)
            yield Sc(f"linked library {k}{suf}", {"l/lib.c3l/manifest.json": library({"linked-libraries": [nm + suf]}), "l/lib.c3l/a.c3": "module a; const X = 7;", "m.c3": "import a;" + MAIN.format("a::X")}, 0, [], fails=True,
                     cmd=["compile", "m.c3", "--libdir", "l", "--lib", "lib", "-o", "prog"])
        yield Sc(f"source name {k}", {f"d/{nm}.c3": "module m;" + MAIN.format(7)}, 0, [], cmd=["compile", "d/" + nm + ".c3", "-o", "prog"], run=True)
        yield Sc(f"C source name {k}", {"m.c3": "module m; extern fn int seven();" + MAIN.format("seven()"), "project.json": project({}, {"c-sources": ["c/**"]}), f"c/{nm}.c": "int seven(void) { return 7; }"}, 0, [], cmd=w, run=out)
        yield Sc(f"library name {k}", {f"l/{nm}.c3l/manifest.json": library(), f"l/{nm}.c3l/a.c3": "module a; const X = 7;", "m.c3": "import a;" + MAIN.format("a::X")}, 0, [], cmd=["compile", "m.c3", "--libdir", "l", "--lib", "lib", "-o", "prog"])
        yield Sc(f"packed library name {k}", {f"l/{nm}.c3l": ("zip", {"manifest.json": library(), "a.c3": "module a; const X = 7;"}), "m.c3": "import a;" + MAIN.format("a::X")}, 0, [], cmd=["compile", "m.c3", "--libdir", "l", "--lib", "lib", "-o", "prog"])
        yield Sc(f"packed library name {k} unpacked anew", {f"l/{nm}.c3l": ("zip", {"manifest.json": library(), "a.c3": "module a; const X = 7;"}), "m.c3": "import a;" + MAIN.format("a::X"), f"build/_c3l/{nm}/x": "old", f"build/_c3l/{nm}.c3l/x": "old"}, 0, [], cmd=["compile", "m.c3", "--libdir", "l", "--lib", "lib", "-o", "prog", "--build-dir", "build"])


IN_OPEN = 0x20
libc = ctypes.CDLL(None, use_errno=True)


class Watch:
    """which of the files are opened"""
    def __init__(self, paths):
        self.fd = libc.inotify_init1(os.O_NONBLOCK | os.O_CLOEXEC)
        if self.fd < 0:
            raise RuntimeError("inotify")
        self.wd = {}
        for p in paths:
            wd = libc.inotify_add_watch(self.fd, p.encode(), IN_OPEN)
            if wd < 0:
                raise RuntimeError("inotify watch " + p)
            self.wd[wd] = p

    def opened(self):
        got = set()
        while True:
            try:
                b = os.read(self.fd, 65536)
            except BlockingIOError:
                break
            i = 0
            while i < len(b):
                wd, _, _, n = struct.unpack_from("iIII", b, i)
                i += 16 + n
                if wd in self.wd:
                    got.add(self.wd[wd])
        os.close(self.fd)
        return got


TOOLS = {"c3c", "cc", "gcc", "collect2", "ld", "as", "cc1", "x86_64-linux-gnu-gcc", "x86_64-linux-gnu-ld", "ld.bfd", "x86_64-linux-gnu-as", "x86_64-linux-gnu-ld.bfd", "x86_64-linux-gnu-gcc-13"}


def foreign(lines, prog):
    bad = []
    for l in lines:
        a = l.split("\x1f")
        name = os.path.basename(a[0])
        if name in TOOLS or os.path.basename(prog or "-") == name:
            continue
        if name in ("sh", "dash", "bash") and len(a) > 2 and a[1] == "-c" and os.path.basename(a[2 if a[2] != "--" else 3].split(" ")[0]) in ("cc", "gcc", os.path.basename(prog or "-")):
            continue
        bad.append(" ".join(a)[:120])
    return bad


def put(base, files):
    for n, t in files.items():
        p = os.path.join(base, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(t, tuple):
            import zipfile
            with zipfile.ZipFile(p, "w") as z:
                for k, v in t[1].items():
                    z.writestr(k, v)
            continue
        with open(p, "w") as f:
            f.write(t)
        if n.endswith(".sh"):
            os.chmod(p, 0o755)


def run(c):
    so = os.path.join(c.dir, "proc.so")
    code, out = c.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(c.here, "proc.c")])
    if code != 0:
        raise RuntimeError(out.decode())
    scs = list(scenarios(c.thorough))
    jobs = [(i, s, l) for i, s in enumerate(scs) for l in LEVELS]

    def one(job):
        i, s, level = job
        base = os.path.join(c.dir, f"s{i}-{level}")
        shutil.rmtree(base, ignore_errors=True)
        wd = os.path.join(base, "w")
        os.makedirs(wd)
        put(wd, s.files)
        log, plog = os.path.join(base, "log"), os.path.join(base, "plog")
        env = {**os.environ, "LD_PRELOAD": so, "REC_LOG": log, "VPROC_LOG": plog}
        env.pop("C3C_CC", None)
        watch = Watch([os.path.join(wd, x) for x in s.includes])
        cmd = [c.c3c, *s.cmd]
        if "project.json" not in s.files:
            cmd += ["--use-stdlib=no"]
        if level:
            cmd.append("--trust=" + level)
        r = c.run(cmd, timeout=120, cwd=wd, env=env)
        opened = {os.path.relpath(x, wd) for x in watch.opened()}
        rec = open(log).read().splitlines() if os.path.exists(log) else []
        procs = [x.rstrip("\n") for x in open(plog, errors="replace")] if os.path.exists(plog) else []
        exe = os.path.join(wd, s.run if isinstance(s.run, str) else "prog")
        rr = None
        if os.path.exists(exe) and s.run and s.run != "self" and s.rc is not None and r[0] == 0:
            rr = c.run([exe], timeout=20)[0]
        pw = [os.path.relpath(os.path.join(d, x), base) for d, ds, fs in os.walk(base) for x in fs if x == "pwned"]
        bad = []
        txt = r[1].decode(errors="replace")
        granted = s.need is not None and ORDER[level] >= s.need
        if pw:
            bad.append(("a name was run as a command", pw[0]))
        if s.need is None:
            # only parsed: nothing may run whatever the level
            if rec or opened:
                bad.append(("something ran when only parsing", f"{rec} {opened}"))
        elif not granted:
            if rec:
                bad.append(("ran without trust", str(rec)))
            if opened & set(s.includes):
                bad.append(("read an included file without trust", str(opened)))
            if r[0] == 0:
                bad.append(("accepted without trust", ""))
            elif "trust" not in txt:
                bad.append(("refused without naming the trust level", txt[-200:]))
            if os.path.exists(exe):
                bad.append(("an artifact exists although refused", ""))
        else:
            # (additions of the target and scripts of the project: their order among each other is not documented)
            if rec != s.log and not (s.name.startswith("project") and sorted(rec) == sorted(s.log)):
                bad.append(("recorded something else", f"{rec} instead of {s.log}"))
            if s.fails:
                if r[0] == 0:
                    bad.append(("accepted although it cannot work", ""))
            else:
                if s.run == "self":
                    if r[0] != s.rc:
                        bad.append(("exit code", f"{r[0]} instead of {s.rc}: {txt[-300:]}"))
                elif r[0] != 0:
                    bad.append(("refused", txt[-300:]))
                elif s.run and rr != s.rc:
                    bad.append(("the program returned something else", f"{rr} instead of {s.rc}"))
                if s.log == [] and s.includes and s.need and not opened >= set(s.includes):
                    bad.append(("an included file was not read", str(opened)))
            if s.need == 0 and opened & set(s.includes):
                bad.append(("read a file whose include is not reached", str(opened)))
        if not s.log or not granted:
            f = foreign(procs, os.path.basename(exe) if s.run != "self" else "prog m")
            f = [x for x in f if not (s.run == "self" and (x.split(" ")[0].rsplit("/", 1)[-1] in ("m", "prog", "testrun") or x.startswith("sh -c")))]
            if "-C" in s.cmd or s.cmd[0] == "compile-only":
                f = [" ".join(x.split("\x1f"))[:120] for x in procs if os.path.basename(x.split("\x1f")[0]) != "c3c"]
            if f:
                bad.append(("a process was started", "; ".join(f)))
        shutil.rmtree(base, ignore_errors=True)
        return len(procs), bad, cmd, txt[-1500:]

    nproc = 0
    for (i, s, level), (np, bad, cmd, txt) in zip(jobs, c.pmap(one, jobs)):
        nproc += np
        for kind, what in bad:
            c.violation(f"{s.name}:{kind}:{level}", f"{s.name} with --trust={level}: {kind}: {what}"[:400], {"scenario": s.name, "trust": level, "files": {k: v if isinstance(v, str) else "zip of " + json.dumps(v[1]) for k, v in s.files.items()},
                        "command": " ".join(cmd), "needed level": s.need, "expected log": s.log, "found": f"{kind}: {what}", "output": txt})
    c.add(scenarios=len(scs), runs=len(jobs), processes_recorded=nproc)
    for n in (0, len(scs) // 2, len(scs) - 1):
        c.sample({"scenario": scs[n].name, "command": scs[n].cmd, "needs": scs[n].need, "log": scs[n].log})
    c.set(rule="no execution and no opening of an include without the level; exactly the written invocations with it; no other process than the compiler driver's", exhaustive=True)
