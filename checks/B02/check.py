"""JSON documents: every short document through the compiler's own reader against an independent reader; every way to add a target to generated project files."""

import itertools
import json
import os
import re
import shutil
import subprocess

from vlib import build as B

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive exploration: every sequence of pieces up to a length over ten alphabets of document parts, all escapes, all two-byte documents, all prefixes and one-character changes "
             "of a document go through the compiler's reader and writer linked into a driver, compared with an independent reader; project commands on all small generated project files, with the real binary")
NOTE = ("src/utils/json.c is compiled from the tree into the driver; each document ends at an unmapped page, crashes are caught per document. "
        "Raw control characters in strings, trailing commas and comments are accepted by design. The line of an error may be any line of the offending token.")


def drive(c):
    objs = json.load(open(os.path.join(B.B, "objs.json")))["objs"]
    util = [o for n, o in objs.items() if "/utils/" in n and not n.endswith("/json.c")]
    inc = ["-std=gnu11", "-w", "-I", os.path.join(B.REPO, "src"), "-I", os.path.join(B.REPO, "src/utils"), "-I", os.path.join(B.B, "cmake"), "-Dcalloc_arena=my_alloc"]
    d = os.path.join(c.dir, "jd")
    os.makedirs(d, exist_ok=True)
    B.sh(["clang-18", "-O1", *inc, "-c", os.path.join(B.REPO, "src/utils/json.c"), "-o", d + "/json.o"])
    B.sh(["clang-18", "-O2", *inc, "-c", c.here + "/jd.c", "-o", d + "/jd.o"])
    if os.path.exists(d + "/u.a"):
        os.unlink(d + "/u.a")
    B.sh(["ar", "rc", d + "/u.a", *util])
    B.sh(["clang-18", "-Wl,--allow-multiple-definition", d + "/jd.o", d + "/json.o", d + "/u.a", "-lm", "-o", d + "/jd"])
    depth = 2 if c.thorough else 0
    n = 16

    def one(k):
        p = subprocess.run([d + "/jd", str(depth), str(k), str(n)], capture_output=True, timeout=840)
        return p.returncode, p.stdout.decode("latin-1")
    tot = [0, 0, 0, 0]
    for k, (code, out) in enumerate(c.pmap(one, range(n))):
        done = False
        for ln in out.splitlines():
            f = ln.split("\t")
            if f[0] == "V":
                c.violation(f"json:{f[1]}", f"{f[1]}: {f[2]} ({'|'.join(f[3:])})", {"document": f[2], "what": f[1], "detail": f[3:]})
            elif f[0] == "N":
                done = True
                tot = [a + int(b) for a, b in zip(tot, f[1:])]
        if not done:
            c.violation("json:the reader ends the process", f"the reader ended the process with {code}: {out[-300:]}", {"shard": k, "code": code, "output": out[-2000:]})
    c.add(documents=tot[0], well_formed=tot[1], malformed=tot[2], evaluations=tot[0], distinct_nontrivial=tot[0])


def project(c):
    """add-target to all small projects: the new content is the old content plus the target; refused commands change nothing"""
    vals = ['"x"', '"q\\"\\\\\\/\\n\\t\\u00e9\\ud83d\\ude00\\u0001"', "1", "-2.5e3", "0.1", "123456789012", "null", "true", "[]", "{}", '["a", "b\\"c"]', '[1, null, {"a": null}]', '["a","b","c","d","e","f"]', '{"k\\"": {"l": [[], {}]}}']
    keys = ["langrev", "zz", "k\\\"k", "authors"]
    tgts = ["{}", '{"t0": {"type": "executable"}}', '{"t0": {"type": "static-lib", "sources": ["a.c3"], "n": null}, "o": {"type": "executable", "x": 1.5}}']
    docs = []
    for k, v in itertools.product(keys, vals):
        docs.append(f'{{"{k}": {v}, "targets": {tgts[1]}}}')
    for v, w in itertools.product(vals, vals):
        docs.append(f'{{"targets": {tgts[2]}, "p": {v}, "q": {w}}}')
    for t in tgts:
        docs += [f'{{"targets": {t}}}', f'{{ // c\n"a": 1, /* d */ "targets": {t}, }}']
    docs += ["{}", '{"version": "1"}', '{"targets": null}']
    bad = ["", "[]", '"x"', "1", '{"targets": []}', '{"targets": "a"}', '{"targets": {"t0": {}}', '{\n\n"a": }', '{"a": 1}\n}', '{"a": 01}', "{/*\n\n", '{"new": 1', '{"targets": {"new": {}}}', '{"targets": {"new": {"type": "executable"}}}']
    adds = [("new", "executable", []), ("n2", "static-lib", ["a.c3", "b/**"]), ("t\"x\\", "test", ["q\"r"])]
    jobs = [(d, a, True) for d in docs for a in (adds if c.thorough else adds[:2] if len(docs) else [])] + [(d, adds[2], True) for d in docs[::5]] + [(d, adds[0], False) for d in bad]

    def strip(d):
        d = re.sub(r"//[^\n]*|/\*.*?\*/", "", d, flags=re.S) if "/ c" in d else d
        return json.loads(re.sub(r",\s*}", "}", d) if "/ c" in d or ", }" in d else d, object_pairs_hook=list)

    def one(j):
        i, (d, (name, typ, srcs), ok) = j
        dr = os.path.join(c.dir, f"p{i}")
        shutil.rmtree(dr, ignore_errors=True)
        os.makedirs(dr)
        f = os.path.join(dr, "project.json")
        open(f, "w").write(d)
        code, out = c.run([c.c3c, "project", "add-target", name, typ, *srcs], timeout=60, cwd=dr)
        after = open(f, errors="replace").read()
        shutil.rmtree(dr, ignore_errors=True)
        what = {"document": d, "command": [name, typ, *srcs], "after": after[:4000], "output": out.decode("latin-1")[-1500:]}
        cls = ("value" if ok else "refused")
        if not ok:
            if code == 0 or code < 0 or code > 100 or b"unexpected error" in out:
                return (f"project:{cls}", f"add-target to {d!r} ends with {code}: {out[-200:]!r}", what)
            if after != d:
                return (f"project:{cls}", f"a refused add-target changed {d!r} to {after!r}", what)
            return None
        if code != 0:
            return (f"project:{cls}", f"add-target to {d!r} fails with {code}: {out[-300:]!r}", what)
        try:
            new = json.loads(after, object_pairs_hook=list)
        except ValueError as e:
            return (f"project:{cls}", f"add-target to {d!r} wrote malformed {after!r}: {e}", what)
        want = strip(d)
        t = [("type", typ), ("sources", srcs)]
        out_ = []
        found = False
        for k, v in want:
            if k == "targets":
                found = True
                v = (v or []) + [(name, t)]
            out_.append((k, v))
        if not found:
            out_.append(("targets", [(name, t)]))
        if repr(norm(new)) != repr(norm(out_)):
            return (f"project:{cls}", f"add-target {name} {typ} {srcs} to {d!r} wrote {after!r}", what)
        return None

    def norm(x):
        # list of pairs and lists look alike: keep the types apart
        if isinstance(x, list):
            return [norm(y) for y in x]
        if isinstance(x, tuple):
            return ("kv", norm(x[0]), norm(x[1]))
        if isinstance(x, bool) or x is None or isinstance(x, str):
            return x
        return float(x)
    for r in c.pmap(one, list(enumerate(jobs))):
        if r:
            c.violation(*r)
    c.add(evaluations=len(jobs), project_edits=len(jobs))


def readers(c):
    """malformed project and manifest files: reported with the right line by every command that reads them, never a crash; well-formed with each type at each place"""
    vals = {"null": None, "1": 1, '"x"': "x", "true": True, "[]": [], "{}": {}, "[null]": [None], "[1]": [1], '["x"]': ["x"], '{"a": null}': {"a": None}, '{"a": {}}': {}, '[["x"]]': []}
    pj = ["authors", "version", "langrev", "warnings", "dependency-search-paths", "dependencies", "sources", "output", "opt", "targets", "c-sources", "cflags", "features", "symtab", "safe", "linked-libraries", "exec", "cpu", "target", "linker", "test-sources"]
    base = dict(langrev='"1"', version='"0.1.0"', authors='["a"]', warnings="[]", sources='["src/**"]', targets='{"t": {"type": "executable"}}')
    base["dependency-search-paths"] = "[]"
    base["dependencies"] = "[]"
    jobs = []
    for k, v in itertools.product(pj, vals):
        jobs.append(("project", "{" + ", ".join(f'"{a}": {b}' for a, b in {**base, k: v}.items()) + "}", None))
        jobs.append(("project", "{" + ", ".join(f'"{a}": {b}' for a, b in {**base, "targets": f'{{"t": {{"type": "executable", "{k}": {v}}}}}'}.items()) + "}", None))
    mk = ["provides", "dependencies", "exec", "cc", "cflags", "wincrt", "targets", "c-sources", "linked-libraries", "link-args", "sources"]
    mb = dict(provides='"lib"', targets='{"linux-x64": {}}')
    for k, v in itertools.product(mk, vals):
        jobs.append(("manifest", "{" + ", ".join(f'"{a}": {b}' for a, b in {**mb, k: v}.items()) + "}", None))
        jobs.append(("manifest", "{" + ", ".join(f'"{a}": {b}' for a, b in {**mb, "targets": f'{{"linux-x64": {{"{k}": {v}}}}}'}.items()) + "}", None))
    for pre, n in (("", 1), ("\n", 2), ("// x\n/* \n\n */", 4), ("\n\n\n\"a\": \"b\n\",", 5)):
        for b, dn in (("@", 0), ("\"a\" \n ]", 1), ("\"a\": [1\n\n 2]", 2), ("\"a\": tru", 0), ("\"a\": 1.", 0), ("\"a\": 1}\n,", 1), ("\"a\": \"\\x\"", 0), ("\"a\":\n/*", 1)):
            for kind in ("project", "manifest"):
                jobs.append((kind, "{" + pre + b, n + dn))
    for v in vals:
        if v != '{"a": null}' and v != '{"a": {}}':
            jobs += [("project", v, 0), ("manifest", v, 0)]

    def one(j):
        i, (kind, d, line) = j
        dr = os.path.join(c.dir, f"r{i}")
        shutil.rmtree(dr, ignore_errors=True)
        os.makedirs(dr + "/src")
        open(dr + "/src/a.c3", "w").write("fn int main() { return 0; }\n")
        bad = None
        if kind == "project":
            open(dr + "/project.json", "w").write(d)
            cmds = [["project", "view"], ["build", "--use-stdlib=no", "-C"]]
        else:
            os.makedirs(dr + "/lib.c3l")
            open(dr + "/lib.c3l/manifest.json", "w").write(d)
            cmds = [["compile-only", "-C", "--use-stdlib=no", "--no-entry", "--target", "linux-x64", "--libdir", ".", "--lib", "lib", "src/a.c3"]]
        for cmd in cmds:
            code, out = c.run([c.c3c, *cmd], timeout=60, cwd=dr)
            t = out.decode("latin-1")
            what = {"document": d, "command": cmd, "output": t[-1500:]}
            if code < 0 or code > 100 or "unexpected error" in t:
                bad = (f"readers:{kind}", f"{cmd[0]} with {kind} {d!r} ends with {code}: {t[-300:]!r}", what)
                break
            if line is not None and code == 0:
                bad = (f"readers:{kind}", f"{cmd[0]} with malformed {kind} {d!r} succeeds", what)
                break
            if line and not re.search(rf"line {line}\b", t):
                bad = (f"readers:{kind}:line", f"{cmd[0]} with malformed {kind} {d!r} does not name line {line}: {t[:200]!r}", what)
                break
        shutil.rmtree(dr, ignore_errors=True)
        return bad
    for r in c.pmap(one, list(enumerate(jobs))):
        if r:
            c.violation(*r)
    c.add(evaluations=len(jobs), reader_files=len(jobs))


def run(c):
    drive(c)
    project(c)
    readers(c)
    c.sample({"what": "an alphabet", "pieces": ["{", "}", "[", "]", ",", ":", '"a"', "1", "null"], "length": 7 if c.thorough else 6})
    c.set(rule="all sequences of document pieces up to the stated lengths in the stated alphabets; all escapes; all prefixes and one-character changes; all small projects x add-target; all types of value at each key",
          exhaustive=True)
