"""What every check shares: building c3c, running explorers, known findings, evidence, verdict."""

import atexit
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

from . import build as B

VERIF, REPO, WORK, JOBS = B.VERIF, B.REPO, B.WORK, B.JOBS
RT = os.path.join(VERIF, "vlib", "rt")


PRE = """extern fn void out(void*, ulong);
extern fn void evt(int c);
extern fn long evi(long v, int c);
extern fn void ev_num(int v) @extern("ev_int");
extern fn void ev_long(long v) @extern("ev_num");
extern fn void ev_u(ulong v) @extern("ev_u");
extern fn void run_table(void* f, long n);
macro int ev_i(int v, int c) => (int)evi(v, c);"""


class HarnessError(Exception):
    """The check itself cannot give an answer (exit 2)."""


def load_known():
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) \| (.*)", line.strip())
            if m:
                known.setdefault(m[1], {})[m[2]] = m[3]
    return known


def norm_key(k):
    return re.sub(r"\s+", "_", k)


class Check:
    def __init__(self, pid, level="model_checking", need_c3c=True):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.dir = os.path.join(WORK, "checks", pid)
        self.here = os.path.join(VERIF, "checks", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replay_dir = os.path.join(VERIF, "replay")
        os.makedirs(self.replay_dir, exist_ok=True)
        for f in os.listdir(self.replay_dir):
            if f.startswith(pid + "-"):
                os.unlink(os.path.join(self.replay_dir, f))
        self.known = load_known().get(pid, {})
        self.hit_known = {}
        self.violations = []
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.lock = threading.Lock()
        self.c3c = None
        if need_c3c:
            try:
                self.c3c = B.build()
            except B.BuildError as e:
                print("BUILD ERROR:", e)
                sys.exit(2)
        self.t_built = time.time()

    # --- results ---
    def add(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.cov[k] = self.cov.get(k, 0) + v

    def set(self, **kw):
        with self.lock:
            self.cov.update(kw)

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(s)

    def violation(self, key, desc, replay):
        key = norm_key(key)
        with self.lock:
            if key in self.known:
                self.hit_known[key] = desc
                return
            if any(v[0] == key for v in self.violations):
                return
            n = len(self.violations) + 1
            path = os.path.join(self.replay_dir, f"{self.pid}-{n}.json")
            if n <= 40:
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "key": key, "what": desc, "replay": replay}, f, indent=1)
            self.violations.append((key, desc, path))

    def finish(self):
        for k, d in self.hit_known.items():
            print(f"KNOWN-FINDING: property={self.pid} key={k} {self.known[k]}")
        for k in self.known:
            if k not in self.hit_known:
                print(f"note: the known finding {k} did not show in this run")
        cov = dict(self.cov)
        cov["samples"] = self.samples or ["(none)"]
        if self.level == "model_checking":
            for k in ("states", "transitions", "traces_validated_against_impl"):
                cov.setdefault(k, 0)
        if self.level in ("exploration", "fault_enumeration"):
            for k in ("evaluations", "distinct_nontrivial"):
                cov.setdefault(k, 0)
            cov.setdefault("rule", "")
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f"{self.pid}.json")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)
        small = {k: v for k, v in cov.items() if isinstance(v, (int, float, bool))}
        print(f"{self.pid} {self.tier}: {json.dumps(small)} build {self.t_built - self.t0:.1f}s total {time.time() - self.t0:.1f}s")
        if self.violations:
            for key, desc, path in self.violations[:int(os.environ.get("VERIF_SHOW", 10))]:
                print(f"  {key}: {desc[:600]}")
            for key, desc, path in self.violations[:3]:
                print(f"VIOLATION property={self.pid} replay={path}")
            sys.exit(1)
        sys.exit(0)

    # --- processes ---
    def run(self, cmd, timeout=120, cwd=None, env=None, input=None):
        """(exit code or None on timeout, output)"""
        e = dict(os.environ)
        if env:
            e.update(env)
        p = subprocess.Popen(cmd, cwd=cwd or self.dir, env=e, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            out, _ = p.communicate(input, timeout=timeout)
            return p.returncode, out
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            out, _ = p.communicate()
            return None, out

    def pmap(self, fn, items, jobs=JOBS):
        with ThreadPoolExecutor(jobs) as ex:
            return list(ex.map(fn, items))

    def procmap(self, fn, items, jobs=JOBS):
        """fn (a top-level function of the check) over items, in processes."""
        items = list(items)
        if not items:
            return []
        with ProcessPoolExecutor(min(jobs, len(items)), mp_context=multiprocessing.get_context("fork")) as ex:
            return list(ex.map(fn, items))

    def rt_object(self):
        with self.lock:
            o = os.path.join(self.dir, "vh_rt.o")
            if not os.path.exists(o):
                code, out = self.run(["clang-18", "-O2", "-g0", "-w", "-c", os.path.join(RT, "vh_rt.c"), "-o", o])
                if code != 0:
                    raise HarnessError(out.decode())
            return o

    def compile_c3(self, name, sources, flags=(), objs=(), opt="-O1", timeout=300):
        """Compiles C3 sources with the explorer runtime; a failure is a violation (the public API no longer compiles)."""
        exe = os.path.join(self.dir, name)
        o = self.rt_object()
        cmd = [self.c3c, "compile", opt, "-g0", "--build-dir", exe + ".b", os.path.join(RT, "vh.c3"), *sources, "-o", exe,
               *flags, "-z", o]
        for x in objs:
            cmd += ["-z", x]
        code, out = self.run(cmd, timeout)
        if code != 0 or not os.path.exists(exe):
            txt = out.decode("utf-8", "replace")
            self.violation(f"compile:{name}", f"the harness no longer compiles ({code}): {txt[-1500:]}",
                           {"cmd": cmd, "output": txt[-8000:]})
            return None
        return exe

    @staticmethod
    def errors(txt, n=6):
        """the error lines of a compiler output with their source lines"""
        ls, o = txt.splitlines(), []
        for i, l in enumerate(ls):
            if "rror:" in l or "assert" in l.lower():
                src = [x for x in ls[max(0, i - 3):i] if re.match(r"\s*\d+: ", x)]
                o.append(l[-300:] + " <" + (src[-1][:200] if src else "") + ">")
        return " || ".join(o[:n]) or txt[-600:]

    def c_main(self):
        with self.lock:
            o = os.path.join(self.dir, "cmain.o")
            if not os.path.exists(o):
                code, out = self.run(["clang-18", "-O1", "-w", "-c", os.path.join(RT, "cmain.c"), "-o", o])
                if code != 0:
                    raise HarnessError(out.decode())
            return o

    def build_min(self, name, src, opt="-O1", flags=(), objs=(), stdlib=False, timeout=300, ok=False):
        """Compiles a generated program with the C main. Returns (exe or None, output); a failure is a violation unless ok."""
        exe = os.path.join(self.dir, name + opt)
        path = os.path.join(self.dir, name + ".c3")
        if src is not None:
            with open(path, "w") as f:
                f.write(src)
        cmd = [self.c3c, "compile", opt, "-g0", "--no-entry", "--build-dir", exe + ".b", path, "-o", exe, *flags,
               "-z", self.c_main()]
        if not stdlib:
            cmd.insert(3, "--use-stdlib=no")
        for x in objs:
            cmd += ["-z", x]
        if os.path.exists(exe):
            os.unlink(exe)
        code, out = self.run(cmd, timeout)
        txt = out.decode("utf-8", "replace")
        if code != 0 or not os.path.exists(exe):
            if not ok:
                self.violation(f"compile:{name}{opt}", f"a valid generated program is rejected ({code}): {self.errors(txt)}",
                               {"cmd": cmd, "output": txt[:8000], "source": open(path).read()[:200000]})
            return None, txt + f"\n[c3c ended with {code}]"
        shutil.rmtree(exe + ".b", ignore_errors=True)
        return exe, txt

    def run_min(self, exe, timeout=120, what=""):
        """Output of a generated program; anything but a clean end is a violation."""
        code, out = self.run([exe], timeout)
        if code != 0:
            src = re.sub(r"-O\w$", "", exe) + ".c3"
            self.violation(f"run:{os.path.basename(exe)}", f"the generated program {what} ends with {code}: {out[-300:]}",
                           {"source": open(src).read()[:200000] if os.path.exists(src) else "", "output": out[-2000:].decode("utf-8", "replace")})
            return None
        return out

    def run_cases(self, name, prelude, cases, opts=("-O1",), flags=(), shards=4, stdlib=False, objs=()):
        """Generated test functions, each called under the guard. cases: (body, expected, desc) where body is the code of
        `fn void tN(void* _)`, expected the recorded events, None for "traps", or a tuple (events, "trap") for a trap after
        those events, or a set of allowed ones. A wrong result is a violation keyed by the description's class."""
        n = max(1, min(shards, (len(cases) + 199) // 200))
        self.c_main()

        def src(k, part):
            o = [f"module {re.sub('[^a-z0-9]', '', name)}{k};", PRE, prelude]
            off = "\n".join(o).count("\n") + 2
            o += [f"fn void t{i}(void* z_) @noinline {{ {b} }}".replace("\n", " ") for i, (b, _, _) in enumerate(part)]
            o.append("alias ZTestFn = fn void(void*);")
            o.append(f"ZTestFn[*] z_tab = {{ {', '.join('&t%d' % i for i in range(len(part)))} }};")
            o.append('fn void run() @export("run") { run_table(&z_tab, z_tab.len); }')
            return "\n".join(o), off

        def one(k):
            part, res = cases[k::n], []
            for attempt in range(6):
                text, off = src(k, part)
                path = os.path.join(self.dir, f"{name}{k}.c3")
                with open(path, "w") as f:
                    f.write(text)
                exe, txt = self.build_min(f"{name}{k}", None, opts[0], flags, objs, stdlib, ok=True)
                if exe:
                    break
                bad = {}
                for m in re.finditer(r"\((\S+?):(\d+)(?::\d+)?\) Error: (.*)", txt):
                    if m[1] == path and 0 <= int(m[2]) - off < len(part):
                        bad.setdefault(int(m[2]) - off, m[3])
                if not bad:
                    # the compiler crashed: find the cases that do it
                    crash = []

                    def bisect(idx, txt, depth=0):
                        if not idx or len(crash) >= 60: return
                        if len(idx) == 1:
                            crash.append((idx[0], txt))
                            return
                        for half in (idx[:len(idx) // 2], idx[len(idx) // 2:]):
                            t, _ = src(k, [part[i] for i in half])
                            e, tx = self.build_min(f"{name}{k}b", t, opts[0], flags, objs, stdlib, ok=True)
                            if not e and not re.search(r"\) Error: ", tx): bisect(half, tx, depth + 1)
                    bisect(list(range(len(part))), txt)
                    if not crash or attempt == 5:
                        self.violation(f"compile:{name}{k}", f"a valid generated program is not compiled: {txt[-1500:]}", {"output": txt[-8000:], "source": text[:200000]})
                        return []
                    for i, tx in crash:
                        self.violation(f"crash:{name}:{part[i][2].split(';')[0]}", f"the compiler fails, {part[i][2]}: {tx[-300:]} | {part[i][0][:400]}",
                                       {"prelude": prelude, "body": part[i][0], "output": tx[-3000:]})
                    bad = {i: None for i, _ in crash}
                    part = [x for i, x in enumerate(part) if i not in bad]
                    continue
                for i, m in bad.items():
                    self.violation(f"rejected:{name}:{part[i][2].split(';')[0]}", f"rejected, {part[i][2]}: {m} | {part[i][0][:400]}",
                                   {"prelude": prelude, "body": part[i][0], "error": m})
                part = [x for i, x in enumerate(part) if i not in bad]
            if not exe:
                return []
            for opt in opts:
                if opt != opts[0]:
                    exe, txt = self.build_min(f"{name}{k}", None, opt, flags, objs, stdlib)
                res.append(((f"{name}{k}", opt, part), self.run_min(exe) if exe else None))
            return res
        jobs = [x for r in self.pmap(one, range(n)) for x in r]
        for (nm, opt, part), d in jobs:
            if d is None:
                continue
            lines = d.decode("latin-1").splitlines()
            if len(lines) != len(part):
                self.violation(f"{name}:lines", f"{len(lines)} results of {len(part)} cases at {opt}", {"output": d[-500:].decode("latin-1")})
            for ln, (b, want, desc) in zip(lines, part):
                i, r, ev = (ln.split(" ", 2) + [""])[:3]
                got = ev if r == "0" else (ev, "trap")
                ok = got in want if isinstance(want, set) else (r != "0" if want is None else got == want)
                if not ok:
                    self.violation(f"{name}:{desc.split(';')[0]}", f"{desc} at {opt}: got {got!r}, want {'a trap' if want is None else want!r} for: {b[:400]}",
                                   {"prelude": prelude, "body": b, "want": str(want), "got": str(got), "opt": opt})
        self.add(evaluations=sum(len(j[0][2]) for j in jobs), distinct_nontrivial=len(cases))

    def verdicts(self, name, prelude, decls, flags=(), shards=4, stdlib=False):
        """decls: one-line top-level declarations. Returns for each the list of errors reported on its line (one compile per shard)."""
        n = max(1, min(shards, (len(decls) + 99) // 100))

        def one(k):
            part = decls[k::n]
            path = os.path.join(self.dir, f"{name}_v{k}.c3")
            head = f"module {re.sub('[^a-z0-9]', '', name)}{k};\n{prelude}\n"
            off = head.count("\n") + 1
            with open(path, "w") as f:
                f.write(head + "\n".join(part) + "\n")
            code, out = self.run([self.c3c, "compile-only", "-C", *([] if stdlib else ["--use-stdlib=no"]), *flags, path], 120)
            txt = out.decode("utf-8", "replace")
            errs = [[] for _ in part]
            for m in re.finditer(r"\((\S+?):(\d+)(?::(\d+))?\) Error: (.*)", txt):
                ln = int(m[2]) - off
                if m[1] == path and 0 <= ln < len(part):
                    errs[ln].append(m[4])
                else:
                    self.violation(f"{name}:prelude", f"error outside the cases: {m[0]}", {"output": txt[:3000]})
            if code not in (0, 1) or (code == 1) != any(errs):
                self.violation(f"{name}:status", f"exit {code} with {sum(map(bool, errs))} rejected declarations: {txt[-500:]}", {"file": open(path).read()[:100000], "output": txt[-3000:]})
            return errs
        res = [None] * len(decls)
        for k, errs in zip(range(n), self.pmap(one, range(n))):
            res[k::n] = errs
        self.add(evaluations=len(decls))
        return res

    def compile_c(self, name, sources, flags=()):
        exe = os.path.join(self.dir, name)
        code, out = self.run(["clang-18", "-O1", "-w", *flags, *sources, "-o", exe], 300)
        if code != 0:
            raise HarnessError(out.decode("utf-8", "replace"))
        return exe

    def explore(self, exe, shards=None, only=None, timeout=780, env=None, weights=None):
        """Runs every registered body of an explorer executable, sharded over the cores."""
        if exe is None:
            return {}
        code, out = self.run([exe, "list"], 60)
        if code != 0:
            self.violation(f"list:{os.path.basename(exe)}", f"the harness does not start: {code} {out[-500:]}", {"cmd": [exe, "list"]})
            return {}
        bodies = [l.split("\t")[1] for l in out.decode().splitlines() if l.startswith("B\t")]
        if only is not None:
            bodies = [b for b in bodies if only(b)]
        if not bodies:
            raise HarnessError("no bodies")
        n = shards or JOBS
        tasks = [(b, i, n) for b in bodies for i in range(n)]
        totals = {}
        per = {}

        def one(t):
            b, i, k = t
            return t, self.run([exe, "explore", b, str(i), str(k)], timeout, env=env)

        for (b, i, k), (code, out) in self.pmap(one, tasks):
            txt = out.decode("utf-8", "replace")
            seen_stat = False
            for line in txt.splitlines():
                f = line.split("\t")
                if f[0] == "S" and len(f) > 2:
                    seen_stat = True
                    d = per.setdefault(b, {})
                    for kv in f[2:]:
                        kk, vv = kv.split("=")
                        d[kk] = d.get(kk, 0) + int(vv)
                elif f[0] == "V" and len(f) > 4:
                    self._confirm(exe, b, f[2], f[3], f[4], (i, k), env)
            if "DIVERGENCE" in txt or "choice depth exceeded" in txt:
                # the same choices led elsewhere: state that survives from one execution to the next
                self.violation(f"divergence:{b}", txt[-300:], {"cmd": [exe, "explore", b, str(i), str(k)]})
            elif not seen_stat:
                if code is None:
                    raise HarnessError(f"{b} shard {i}/{k} ran out of time ({timeout} s): {txt[-300:]}")
                # died: run the shard again to see whether it does so every time
                code2, out2 = self.run([exe, "explore", b, str(i), str(k)], timeout, env=env)
                self.violation(f"died:{b}", f"explorer of {b} died ({code}, again {code2}): {txt[-300:]}",
                               {"cmd": [os.path.basename(exe), "explore", b, str(i), str(k)]})
        for b, d in per.items():
            for kk, vv in d.items():
                totals[kk] = totals.get(kk, 0) + vv
        self.set(**{"executions_per_body": {**self.cov.get("executions_per_body", {}), **{b: d.get("executions", 0) for b, d in per.items()}}})
        return totals

    def _confirm(self, exe, body, choices, key, msg, sh, env):
        """Replay before report."""
        code, out = self.run([exe, "replay", body, choices], 120, env=env)
        txt = out.decode("utf-8", "replace")
        again = any(l.startswith("V\t") for l in txt.splitlines())
        rep = {"harness": os.path.basename(exe), "body": body, "choices": choices, "trace": txt.splitlines()[-60:],
               "how": f"rebuild the harness with the check, then: {os.path.basename(exe)} replay {body} {choices}"}
        if not again and code is not None:
            code, out = self.run([exe, "explore", body, str(sh[0]), str(sh[1])], 780, env=env)
            if ("\t" + key + "\t") not in out.decode("utf-8", "replace"):
                print(f"note: {key} ({msg}) did not happen again; not reported")
                return
            rep["how"] = f"only within the whole shard: {os.path.basename(exe)} explore {body} {sh[0]} {sh[1]}"
        self.violation(key, msg, rep)

    def cov_explore(self, t):
        """The usual translation of explorer totals into coverage."""
        if self.level == "model_checking":
            self.add(states=max(t.get("states", 0), t.get("executions", 0) if not t.get("states") else 0),
                     transitions=t.get("transitions", 0), traces_validated_against_impl=t.get("executions", 0))
        else:
            self.add(evaluations=t.get("executions", 0) + t.get("evals", 0), distinct_nontrivial=t.get("outcomes", 0))
        self.add(distinct_outcomes=t.get("outcomes", 0), pruned_as_out_of_domain=t.get("pruned", 0))


def main(pid, fn, level="model_checking", need_c3c=True):
    c = Check(pid, level, need_c3c)
    try:
        fn(c)
    except HarnessError as e:
        print("CHECK ERROR:", e)
        sys.exit(2)
    c.finish()
