"""Every source text gets a verdict: all single-token edits and truncations of programs that use every construct, all short token sequences in each context, all short byte strings,
all short literals, all nestings up to a depth. Each input is compiled by the real compiler in a process forked from it at the moment it opens its source file."""

import importlib.util
import itertools
import os
import re
import struct
import subprocess

from vlib import build as B

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive exploration of inputs: every single-token edit (deletion, doubling, swap, truncation, replacement by and insertion of each token of an alphabet) of programs that use every "
             "construct, every short token sequence in each syntactic context, every short byte string and literal, every nesting up to a depth, each compiled by the real compiler")
NOTE = ("The compiler is forked at the moment it opens its source, so that each input runs in a fresh process of the real binary. Verdict required: exit 0 without an error message, or exit 1 with at least one "
        "error whose line and column lie inside the input. Inputs that are accepted are compiled again with code generation. Quick: every 24th of the replacements and insertions, chosen by position; "
        "thorough: every second one, longer sequences, and the deletions of each token of the repository's own short test sources.")

TOK = re.compile(rb'"(?:\\.|[^"\\])*"|`[^`]*`|\'(?:\\.|[^\'\\])*\'|<\*|\*>|\$\$\w+|[$@#]?[A-Za-z_]\w*|[0-9][\w.]*|&&&|\+\+\+|\|\|\||\?\?|<<=|>>=|\.\.\.|\[<|>\]|::|->|=>|==|!=|<=|>=|&&|\|\||!!|\+\+|--|<<|>>|\.\.|\?:|'
                 rb'[-+*/%&|^]=|\S', re.S)
CHECK = ("compile-only", "-C", "--use-stdlib=no", "--no-entry")
GEN = ("compile-only", "--no-obj", "--use-stdlib=no", "--no-entry", "-O0", "--strip-unused=no", "--build-dir", "bd")
POS = re.compile(rb"zin\.c3:(\d+)(?::(\d+))?\) Error: ")  # columns from 255 on are left out


def seeds():
    spec = importlib.util.spec_from_file_location("seeds", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def edits(text, alpha, punct, every):
    """every: only each every-th replacement and insertion"""
    t = TOK.findall(text)
    j = b" ".join
    n = 0
    for i in range(len(t)):
        yield j(t[:i] + t[i + 1:])
        yield j(t[:i] + [t[i]] + t[i:])
        if i + 1 < len(t):
            yield j(t[:i] + [t[i + 1], t[i]] + t[i + 2:])
        yield j(t[:i])
        for a in alpha:
            n += 1
            if n % every == 0:
                yield j(t[:i] + [a] + t[i + 1:])
    for i in range(len(t) + 1):
        for a in punct:
            n += 1
            if n % every == 0:
                yield j(t[:i] + [a] + t[i:])


NEST = [  # (name, before, repeated, middle, closing, after)
    ("parentheses", "fn int zf(int x) { return ", "(", "x", ")", "; }"),
    ("blocks", "fn void zf() { ", "{", "", "}", " }"),
    ("negations", "fn int zf(int x) { return ", "- ", "x", "", "; }"),
    ("nots", "fn bool zf(bool x) { return ", "!", "x", "", "; }"),
    ("sums", "fn int zf(int x) { return x", " + x", "", "", "; }"),
    ("ternaries", "fn int zf(int x) { return ", "x ? x : ", "x", "", "; }"),
    ("orelse", "fn int zf(int x) { return ", "x ?: ", "x", "", "; }"),
    ("subscripts", "int[3] zz;\nfn int zf(int x) { return ", "zz[", "x", "]", "; }"),
    ("calls", "fn int zf(int x) { return ", "zf(", "x", ")", "; }"),
    ("members", "struct Zs { Zs* n; }\nfn Zs* zf(Zs* x) { return x", ".n", "", "", "; }"),
    ("ifs", "fn void zf(int x) { ", "if (x) ", "x = 1;", "", " }"),
    ("elses", "fn void zf(int x) { ", "if (x) { x = 1; } else ", "{}", "", " }"),
    ("whiles", "fn void zf(int x) { ", "while (x) ", "x = 1;", "", " }"),
    ("defers", "fn void zf(int x) { ", "defer ", "x = 1;", "", " }"),
    ("pointers", "", "int", "", "", " x;"),
    ("pointer types", "int", "*", "", "", " x;"),
    ("array types", "int", "[1]", "", "", " x;"),
    ("slice types", "int", "[]", "", "", " x;"),
    ("initializers", "int zz = ", "{", "1", "}", ";"),
    ("casts", "fn int zf(int x) { return ", "(int)", "x", "", "; }"),
    ("derefs", "fn int zf(int* x) { return ", "*&", "*x", "", "; }"),
    ("strings", "char[] zz = ", '"a" ', '"b"', "", ";"),
    ("concats", "char[] zz = ", '"a" +++ ', '"b"', "", ";"),
    ("ct ifs", "fn void zf(int x) { ", "$if true: ", "x = 1;", " $endif", " }"),
    ("comments", "/*" * 1, "/*", "", "*/", "*/ int x;"),
    ("generic types", "", "List{", "int", "}", " x;"),
    ("lambdas", "fn void zf() { ", "var $x = fn void() { ", "", "};", " }"),
    ("macros", "macro @m(#x) => #x;\nfn int zf(int x) { return ", "@m(", "x", ")", "; }"),
    ("assignments", "fn void zf(int x) { ", "x = ", "x", "", "; }"),
    ("commas", "fn void zf(int x) { for (;; ", "x++, ", "x++", "", ") {} }"),
    ("switches", "fn void zf(int x) { ", "switch (x) { case 1: ", "x = 1;", "}", " }"),
    ("structs", "struct Zs ", "{ struct x ", "{ int y; }", "}", ""),
    ("modules", "module a", "::b", ";", "", ""),
]

LITS = ["0", "1", "9", "x", "b", "e", "p", ".", "_", "-", "u", "l", "f", "o"]
CHARS = ["\\", "x", "0", "9", "u", "U", "n", "'", '"', "a", "\u00e9", "{"]


def inputs(thorough):
    """(family, text)"""
    s = seeds()
    pre = s.PRELUDE.encode()
    alpha, punct = [a.encode() for a in s.ALPHA], [a.encode() for a in s.PUNCT]
    every = 2 if thorough else 24
    decls, stmts = s.DECLS.strip().split("\n"), s.STMTS.strip().split("\n")
    for d in decls:
        yield "seed", pre + d.encode() + b"\nfn void zmain(){}\n"
    for st in stmts:
        yield "seed", pre + b"fn void zmain()\n{\n" + st.encode() + b"\n}\n"
    for d in decls:
        for m in edits(d.encode(), alpha, punct, every):
            yield "edit of a declaration", pre + m + b"\nfn void zmain(){}\n"
    for st in stmts:
        for m in edits(st.encode(), alpha, punct, every):
            yield "edit of a statement", pre + b"fn void zmain()\n{\n" + m + b"\n}\n"
    # the prelude itself, whose edits also break everything that uses it
    use = b"\nfn void zmain()\n{\n" + "\n".join(s.USES).encode() + b"\n}\n"
    for m in edits(pre.replace(b"\n", b" "), alpha, punct, every * 8 if not thorough else 8):
        yield "edit of used declarations", m + use
    # token sequences
    for a in alpha:
        yield "tokens at top level", a
        yield "tokens in a function", pre + b"fn void zmain()\n{\n" + a + b"\n}\n"
    some = [a.encode() for a in (s.ALPHA if thorough else s.SOME)]
    for seq in itertools.product(some, repeat=2):
        x = b" ".join(seq)
        yield "tokens at top level", x
        yield "tokens in a function", pre + b"fn void zmain()\n{\n" + x + b"\n}\n"
        yield "tokens in an expression", pre + b"fn void zmain()\n{\n int v = glob + (" + x + b");\n}\n"
    for seq in itertools.product([a.encode() for a in (s.MID if thorough else s.FEW)], repeat=3):
        x = b" ".join(seq)
        yield "tokens at top level", x
        yield "tokens in a function", pre + b"fn void zmain()\n{\n" + x + b"\n}\n"
        yield "tokens as parameters", b"fn int zz(" + x + b") { return 1; }\nint y;"
    # bytes
    for n in (0, 1, 2):
        for bs in itertools.product(range(256) if n < 2 or thorough else range(1, 256, 5), repeat=n):
            yield "bytes", bytes(bs)
    for bs in itertools.product(b"\x00\n\r\t\xff\xef\xbb\xbf\"'`/*<>\\$#@{a", repeat=3):
        yield "bytes", bytes(bs)
    # literals
    for n in range(1, 5 if thorough else 4):
        for l in itertools.product(LITS, repeat=n):
            if l[0] in "019.-":
                yield "literals", f"const double ZX = {''.join(l)};".encode()
    for n in range(0, 5 if thorough else 4):
        for l in itertools.product(CHARS[:8] if n > 3 else CHARS, repeat=n):
            t = "".join(l)
            yield "literals", f"char[*] zx = \"{t}\";".encode()
            yield "literals", f"const ZX = '{t}';".encode()
    for t in ("x", "b64"):
        for q in "'\"`":
            for n in range(0, 6):
                for l in itertools.product("0aG=+ ", repeat=n):
                    if thorough or n < 4:
                        yield "literals", f"char[*] zx = {t}{q}{''.join(l)}{q};".encode()
    # nestings
    for name, b, r, m, cl, a in NEST:
        for n in [*range(1, 20), *range(20, 101, 20)] + ([200, 500] if thorough else [200]):
            for open_only in (False, True):
                yield "nesting", (b + r * n + m + ("" if open_only else cl * n) + a).encode()


def own_tests():
    root = os.path.join(B.REPO, "test", "test_suite")
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".c3", ".c3t")):
                with open(os.path.join(d, f), "rb") as fh:
                    t = fh.read()
                if b"#file:" in t or len(t) > 900:
                    continue
                yield t.split(b"/* #expect:")[0]


def is_utf8(t):
    try:
        t.decode("utf-8")
        return b"\0" not in t
    except UnicodeDecodeError:
        return False


class Server:
    def __init__(self, c3c, so, d):
        self.c3c, self.so, self.dir = c3c, so, d

    def __call__(self, job):
        k, opts, chunk = job
        d = os.path.join(self.dir, f"j{k}")
        os.makedirs(os.path.join(d, "bd"), exist_ok=True)
        with open(os.path.join(d, "list"), "wb") as f:
            for _, t in chunk:
                f.write(struct.pack("<I", len(t)) + t)
        open(os.path.join(d, "zin.c3"), "w").close()
        res = os.path.join(d, "res")
        if os.path.exists(res):
            os.remove(res)
        env = dict(os.environ, LD_PRELOAD=self.so, VS_LIST=os.path.join(d, "list"), VS_RESULTS=res, VS_NAME="zin.c3")
        p = subprocess.run([self.c3c, *opts, "zin.c3"], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        r = b""
        if os.path.exists(res):
            with open(res, "rb") as f:
                r = f.read()
        pos, bad, ok, n = 0, [], [], 0
        while pos < len(r):
            code, ln = struct.unpack_from("<ii", r, pos)
            out = r[pos + 8:pos + 8 + ln]
            pos += 8 + ln
            fam, t = chunk[n]
            n += 1
            if code == 0 and b"rror: " not in out:
                ok.append((fam, t))
                continue
            if code == 1:
                lines = t.count(b"\n") + 1
                longest = max(len(x) for x in t.split(b"\n"))
                where = [(int(a), int(b or 1)) for a, b in POS.findall(out)]
                if re.match(rb'\s*The file "zin\.c3" does not seem to be an UTF8 file', out) and not is_utf8(t):
                    continue
                if b"No output files were generated" in out:  # accepted, but there is nothing to compile
                    ok.append((fam, t))
                    continue
                if b"The compiler ran out of memory" in out and b"$for" in t:  # an endless loop of the program at compile time
                    continue
                if where and all(1 <= a <= lines and 1 <= b <= longest + 2 for a, b in where) and b"unexpected error" not in out:
                    continue
            bad.append((fam, t, code, out))
        if n != len(chunk):
            bad.append((chunk[n][0] if n < len(chunk) else "?", b"", -1, b"the compiler did not open its source file:\n" + p.stdout[:2000]))
        return n, bad, ok


class Symbols:
    def __init__(self, exe):
        out = subprocess.run(["nm", "-C", "--defined-only", exe], stdout=subprocess.PIPE).stdout.decode("utf-8", "replace")
        self.addr = sorted((int(x[0], 16), x[2]) for x in (l.split(" ", 2) for l in out.split("\n")) if len(x) == 3 and x[1] in "tTwW")
        self.base = 0

    def name(self, pc):
        import bisect
        i = bisect.bisect_right(self.addr, (pc, "\x7f")) - 1
        return self.addr[i][1] if i >= 0 else "?"


def key_of(fam, t, code, out, sym):
    txt = out.decode("utf-8", "replace")
    m = re.search(r'unexpected error: "([^"\n]*)', txt)
    if m:
        f = re.search(r"- Function: (\w+)", txt)
        return f"internal error: {f[1] if f else '?'}: {m[1][:60]}"
    if "CRASH" in txt:
        fr = []
        for a in re.findall(r"PC (\w+)", txt):
            nm = sym.name(int(a, 16) - 1)
            if nm.startswith("_") or "(" in nm and not nm.startswith("llvm"):
                nm = nm.split("(")[0]
            if nm not in fr:
                fr.append(nm)
        return f"crash {code - 128}: " + " < ".join(fr[1:3] if fr and fr[0].startswith(("_", "crashed")) else fr[:2])
    if code >= 1000:
        return f"killed by signal {code - 1000}: {fam}"
    if code == 1:
        m = re.search(r"Error: ([^\n]{0,60})", txt)
        return ("no location: " if not POS.search(out) else "location outside the input: ") + (m[1] if m else "no diagnostic")
    return f"exit code {code}"


def run(c):
    so = os.path.join(c.dir, "fs.so")
    code, out = c.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(c.here, "fs.c"), "-ldl"])
    if code != 0:
        raise RuntimeError(out.decode())
    seen, items, fams = set(), [], {}
    for fam, t in inputs(c.thorough):
        if t not in seen:
            seen.add(t)
            items.append((fam, t))
    server = Server(c.c3c, so, c.dir)
    jobs = os.cpu_count() or 4

    def all_of(opts, its, name):
        nch = max(1, min(jobs * 8, len(its) // 50 + 1))
        todo = [(f"{name}{k}", opts, its[k::nch]) for k in range(nch)]
        bad, ok, n = [], [], 0
        for a, b, o in c.procmap(server, todo):
            n += a
            bad += b
            ok += o
        return n, bad, ok

    if c.thorough:
        base = [("own test", t) for t in own_tests()]
        _, _, valid = all_of(CHECK, base, "t")
        for _, t in valid:
            toks = TOK.findall(t)
            pos = [m.span() for m in TOK.finditer(t)]
            for i, (a, b) in enumerate(pos):
                for x in (t[:a] + t[b:],):
                    if x not in seen:
                        seen.add(x)
                        items.append(("edit of a test source", x))
    for fam, _ in items:
        fams[fam] = fams.get(fam, 0) + 1
    n1, bad, ok = all_of(CHECK, items, "c")
    notok = {t for f, t in items if f == "seed"} - {t for f, t in ok}
    for t in notok:
        bad.append(("seed", t, 1, b"Error: a valid program was not accepted"))
    n2, bad2, ok2 = all_of(GEN, ok, "g")
    sym = Symbols(c.c3c) if bad or bad2 else None
    for fam, t, code, out in bad + bad2:
        k = key_of(fam, t, code, out, sym)
        c.violation(k, f"{k} ({fam})", {"source": t.decode("latin-1")[-3000:], "exit code": code, "output": out.decode("utf-8", "replace")[:3000],
                                         "replay": "write the source (latin-1) as zin.c3 and run c3c " + " ".join(CHECK) + " zin.c3"})
    c.add(inputs=n1, inputs_rejected=n1 - len(ok), inputs_accepted=len(ok), code_generated=n2)
    for f, k in fams.items():
        c.sample({"family": f, "inputs": k})
    c.set(rule="exit 0 without an error message, or exit 1 with at least one error whose line and column lie inside the input; no signal, no internal error, no time-out", exhaustive=True)
