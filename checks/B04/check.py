"""Packed libraries: archives of all shapes, every one-byte change and truncation of an archive, hostile entry names and histories of changing archives, unpacked by the real compiler,
compared with an independent reader of the format and with the directory form of the library."""

import itertools
import os
import re
import shutil
import struct
import subprocess
import threading
import zlib

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive exploration: archives of every combination of sizes at the buffer limits, compression, nesting, extra fields and entry order, every one-byte change, header field value and truncation "
             "of an archive, every entry name from an alphabet of path parts, every sequence of archive versions up to a length; after each real build the directory tree is compared with an independent reader")
NOTE = ("Runs of the real binary as an unprivileged user in a scratch directory deep enough that an escaping name still lands inside it. Hidden entries (names that start with a dot) are not unpacked by design. "
        "Whether an archive with damage the reader does not need (times, versions, attributes) is accepted is left open; when accepted, it has to unpack exactly.")

TRIPLE = "linux-x64"
MANIFEST = b'{"provides": "foo", "targets": {"linux-x64": {}}}'
MAIN = b"module mm;\nimport foo;\nextern fn int putchar(int c);\nfn int main() { putchar(foo::value() + 48); putchar(10); return 0; }\n"


def src(n):
    return f"module foo;\nfn int value() => {n};\n".encode()


def deflate(data, level=9, strategy=0):
    o = zlib.compressobj(level, zlib.DEFLATED, -15, 9, strategy)
    return o.compress(data) + o.flush()


def entry(name, data, method=8, level=9, **over):
    return {"name": name.encode() if isinstance(name, str) else name, "data": data, "method": method, "level": level, **over}


def pack(entries, comment=b"", prefix=b"", eocd=None):
    """returns the archive and the positions of the headers"""
    out, central, marks = bytearray(prefix), bytearray(), []
    for e in entries:
        comp = e.get("comp")
        if comp is None:
            comp = deflate(e["data"], e["level"]) if e["method"] == 8 else e["data"]
        crc, size, csize = e.get("crc", zlib.crc32(e["data"])), e.get("size", len(e["data"])), e.get("csize", len(comp))
        off = e.get("offset", len(out))
        lx, cx, cc = e.get("lextra", b""), e.get("cextra", b""), e.get("ccomment", b"")
        flags = e.get("flags", 0)
        lcrc, lsize, lcsize = (0, 0, 0) if flags & 8 else (crc, size, csize)
        marks.append(("local", len(out)))
        out += struct.pack("<IHHHHHIIIHH", 0x04034B50, 20, flags, e["method"], 0, 0x21, lcrc & 0xffffffff, lcsize, lsize, len(e["name"]), len(lx)) + e["name"] + lx + comp
        if flags & 8:
            out += struct.pack("<IIII", 0x08074B50, crc, csize, size)
        central += struct.pack("<IHHHHHHIIIHHHHHII", 0x02014B50, 20, 20, flags, e.get("cmethod", e["method"]), 0, 0x21, crc & 0xffffffff, csize, size, len(e["name"]), len(cx), len(cc), 0, 0, 0, off) + e["name"] + cx + cc
    base = len(out)
    out += central
    n = len(entries)
    out += struct.pack("<IHHHHIIH", 0x06054B50, 0, 0, n, n, len(central), base, len(comment)) + comment
    return bytes(out)


def read(a):
    """independent reader: {name: bytes} in the order of first appearance, or None for a damaged archive"""
    for i in range(len(a) - 22, -1, -1):
        if a[i:i + 4] == b"PK\5\6":
            break
    else:
        return None
    if i + 22 > len(a):
        return None
    _, d1, d2, n1, n, size, off, clen = struct.unpack_from("<IHHHHIIH", a, i)
    res = {}
    for _ in range(n):
        if off + 46 > len(a):
            return None
        f = struct.unpack_from("<IHHHHHHIIIHHHHHII", a, off)
        if f[0] != 0x02014B50:
            return None
        method, crc, cs, us, nl, xl, cl, lo = f[4], f[7], f[8], f[9], f[10], f[11], f[12], f[16]
        name = a[off + 46:off + 46 + nl]
        if len(name) != nl:
            return None
        name = name.split(b"\0")[0]
        off += 46 + nl + xl + cl
        if name.startswith(b".") or name.endswith(b"/") or not name:
            continue
        if lo + 30 > len(a):
            return None
        ln, lx = struct.unpack_from("<HH", a, lo + 26)
        p = lo + 30 + ln + lx
        raw = a[p:p + cs]
        if len(raw) != cs and method != 8:  # a deflated stream knows its end
            return None
        if method == 8:
            try:
                o = zlib.decompressobj(-15)
                data = o.decompress(raw)
            except zlib.error:
                return None
        elif method == 0:
            data = raw
        else:
            return None
        if len(data) != us or zlib.crc32(data) != crc:
            return None
        res.setdefault(os.path.normpath(name.decode("utf-8", "surrogateescape").replace("//", "/")), data)
    return res


def tree(d):
    res = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as fh:
                res[os.path.relpath(p, d)] = fh.read()
    return res


def drop():
    try:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    except OSError:
        pass


class Run:
    """a scratch directory with a project deep inside it"""
    def __init__(self, c, name):
        self.c = c
        self.top = os.path.join(c.dir, "r", name)
        self.d = os.path.join(self.top, "p1/p2/p3/p4/p5/p6/w")
        os.makedirs(os.path.join(self.d, "lib"))
        for p in (self.top, *[os.path.join(self.top, "/".join(f"p{k}" for k in range(1, n + 1))) for n in range(1, 7)], self.d, self.d + "/lib"):
            os.chmod(p, 0o777)
        with open(os.path.join(self.d, "main.c3"), "wb") as f:
            f.write(MAIN)

    def put(self, data, name="foo.c3l"):
        with open(os.path.join(self.d, "lib", name), "wb") as f:
            f.write(data)

    def build(self, cmd=("compile-only", "-C", "--no-entry"), libs=("foo",)):
        args = [self.c.c3c, cmd[0], "--use-stdlib=no", *cmd[1:], "--build-dir", "bd", "--libdir", "lib"]
        for l in libs:
            args += ["--lib", l]
        p = subprocess.Popen([*args, "main.c3"], cwd=self.d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=drop)
        try:
            out, _ = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return "timeout", b""
        return p.returncode, out

    def unpacked(self, lib="foo.c3l"):
        t = tree(os.path.join(self.d, "bd/_c3l", lib))
        t.pop("checksum.txt", None)
        return t

    def outside(self):
        """files outside of the build directory"""
        known = {"p1/p2/p3/p4/p5/p6/w/main.c3"}
        return sorted(p for p in tree(self.top) if p not in known and not p.startswith(("p1/p2/p3/p4/p5/p6/w/lib/", "p1/p2/p3/p4/p5/p6/w/bd/_c3l/")) and not p.startswith("p1/p2/p3/p4/p5/p6/w/bd/obj"))

    def done(self):
        shutil.rmtree(self.top, ignore_errors=True)


def content(n, kind):
    if kind == 0:
        return b"\0" * n
    if kind == 1:
        return (b"the quick brown fox %d\n" * (n // 20 + 1))[:n]
    x, o = 12345, bytearray()
    while len(o) < n:
        x = (x * 1103515245 + 12345) & 0x7fffffff
        o.append(x >> 16 & 255)
    return bytes(o)


def valid_archives(thorough):
    """(description, archive)"""
    m, s = entry("manifest.json", MANIFEST), entry("foo.c3", src(7))
    sizes = [0, 1, 2, 100, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 131071, 131072, 131073, 200000]
    if thorough:
        sizes += [*range(3, 40), 8191, 8192, 65534, 65538, 196608, 1000003]
    for n, kind, (method, level) in itertools.product(sizes, (0, 1, 2), ((0, 0), (8, 0), (8, 1), (8, 9))):
        yield f"{n} bytes of kind {kind}, method {method} level {level}", pack([m, entry("data.bin", content(n, kind), method, level), s])
    for name in ("d", "a/d", "a/b/d", "a/b/c/d", "a/b/c/d/e/f/g/h", "x" * 200, "a" * 100 + "/" + "b" * 100, "sp ace/ \u00e9", "a.b/c.d", "a..b/..c", "c...", "a/.hidden"):
        for method in (0, 8):
            yield f"entry {name}", pack([m, entry(name, b"data of it", method), s])
            yield f"entry {name} with its directories", pack([m, *[entry(name[:i + 1], b"", 0) for i, ch in enumerate(name) if ch == "/"], entry(name, b"data of it", method), s])
    for mm, ms in itertools.product((0, 8), repeat=2):
        es = [entry("manifest.json", MANIFEST, mm), entry("foo.c3", src(7), ms), entry("sub/extra.txt", b"xyz" * 50), entry("empty", b"", ms)]
        for p in itertools.permutations(es):
            yield "order of entries", pack(p)
    for lx, cx, cc, com in itertools.product((0, 1, 9, 300), (0, 5, 300), (0, 7, 1000), (0, 1, 500)):
        es = [entry("manifest.json", MANIFEST, 8, lextra=b"L" * lx, cextra=b"C" * cx, ccomment=b"c" * cc), entry("foo.c3", src(7), 0, lextra=b"L" * lx, cextra=b"C" * cx, ccomment=b"c" * cc)]
        yield "extra fields and comments", pack(es, comment=b"z" * com)
    for fl in (0, 8, 0x800, 0x808):
        for me in (0, 8):
            yield "flags", pack([entry("manifest.json", MANIFEST, me, flags=fl), entry("foo.c3", src(7), me, flags=fl)])
    for n in (1, 2, 10, 60, 300):
        yield "many entries", pack([m, s, *[entry(f"d{k % 7}/e{k}", content(k * 37 % 500, k % 3), 8 * (k % 2)) for k in range(n)]])
    for n in (1, 100, 70000):
        yield "prefix", pack([m, s], prefix=b"#" * n)
    yield "manifest in a directory too", pack([entry("a/manifest.json", b"not it"), m, s])


def small():
    return pack([entry("manifest.json", MANIFEST, 8), entry("foo.c3", src(7), 0), entry("d/e.txt", b"hello hello hello hello hello", 8)])


def damaged(thorough):
    a = small()
    for i in range(len(a)):
        for x in ([a[i] ^ (1 << b) for b in range(8)] + [a[i] ^ 255, 0, 255] if thorough else (a[i] ^ 255, a[i] ^ 1, (a[i] + 1) & 255, 0, 255)):
            if x != a[i]:
                yield f"byte {i} is {x}", a[:i] + bytes([x]) + a[i + 1:]
    for n in range(len(a)):
        yield f"first {n} bytes", a[:n]
        yield f"without its first {n} bytes", a[n:]
        yield f"without byte {n}", a[:n] + a[n + 1:]
    big = (0, 1, 2, 0x7fff, 0xffff, 0x10000, 0x7fffffff, 0xffffffff, 0xfffffffe, 0x80000000)
    m, s = entry("manifest.json", MANIFEST), entry("foo.c3", src(7))
    for f, v in itertools.product(("crc", "size", "csize", "offset"), big):
        for me in (0, 8):
            yield f"{f} of the source {v}", pack([m, entry("foo.c3", src(7), me, **{f: v})])
            yield f"{f} of the manifest {v}", pack([entry("manifest.json", MANIFEST, me, **{f: v}), s])
            yield f"{f} of another file {v}", pack([m, s, entry("x", content(300, 1), me, **{f: v})])
    for v in range(0, 100):
        yield f"method {v}", pack([m, entry("foo.c3", src(7), 8, cmethod=v)])
    comp = deflate(content(70000, 2))
    for cut in (0, 1, 2, 10, 65535, 65536, 65537, len(comp) - 1, len(comp) - 4):
        yield f"data cut at {cut}", pack([m, s, entry("x", content(70000, 2), 8, comp=comp[:cut])])
    for tail in (1, 10, 65536, 100000):
        yield f"{tail} bytes after the data", pack([m, s, entry("x", content(70000, 2), 8, comp=comp + b"\0" * tail)])
        yield f"{tail} bytes after the data", pack([m, s, entry("x", b"abc", 8, comp=deflate(b"abc") + b"\xaa" * tail)])
    for i in range(22):
        for v in (0, 1, 255):
            b = bytearray(a)
            b[len(a) - 22 + i] = v
            yield f"end record byte {i} is {v}", bytes(b)
    yield "empty", b""
    yield "no manifest", pack([s])
    yield "no entries", pack([])
    for n in range(0, 60):
        yield "zeros", b"\0" * n
        yield "end record only", struct.pack("<IHHHHIIH", 0x06054B50, 0, 0, 1, 1, 46, n, 0) + b"\0" * n


def names(thorough):
    parts = ["..", ".", "a", "", "b.c3", "..."]
    for n in range(1, 6 if thorough else 5):
        for p in itertools.product(parts, repeat=n):
            yield "/".join(p)
            if n < 4:
                yield "\\".join(p)
    for k in range(1, 7):
        yield "../" * k + "esc"
        yield "a/" + "../" * k + "esc"
        yield "a/b/" + "../" * k + "esc"
        yield "a/" * k + "../" * (k + 1) + "esc"


def judge(c, fam, desc, arch, must, r, code, out):
    ref = read(arch)
    txt = out.decode("utf-8", "replace")
    rep = {"archive (hex)": arch.hex()[:40000], "case": desc, "exit code": code, "output": txt[-1500:], "command": "c3c compile-only -C --no-entry --use-stdlib=no --build-dir bd --libdir lib --lib foo main.c3"}
    esc = r.outside()
    if esc:
        c.violation(f"{fam}: writes outside", f"{desc}: files outside the library's directory: {esc[:3]}", rep)
        return
    if code not in (0, 1) or "unexpected error" in txt:
        c.violation(f"{fam}: crash {code}", f"{desc}: exit {code}: {txt[-200:]}", rep)
        return
    if code == 1 and "rror" not in txt and "Malformed" not in txt and not txt.strip():
        c.violation(f"{fam}: silent failure", f"{desc}: exit 1 without a message", rep)
        return
    if code == 0:
        if ref is None:
            c.violation(f"{fam}: damaged archive accepted", f"{desc}: a damaged archive is accepted", rep)
            return
        got = r.unpacked()
        if got != ref:
            diff = sorted(k for k in {*got, *ref} if got.get(k) != ref.get(k))
            k = diff[0]
            c.violation(f"{fam}: wrong contents", f"{desc}: {k}: {len(got[k]) if k in got else 'missing'} bytes instead of {len(ref[k]) if k in ref else 'none'}", rep)
    elif must:
        c.violation(f"{fam}: valid archive refused", f"{desc}: {txt.strip()[-200:]}", rep)


def versions():
    m, s = entry("manifest.json", MANIFEST), entry("foo.c3", src(7))
    two = b'{"provides": "foo", "sources": ["a/*"], "targets": {"linux-x64": {}}}'
    return [
        ("first", pack([m, s]), "7"),
        ("other source of the same size", pack([m, entry("foo.c3", src(3))]), "3"),
        ("other source of another size", pack([m, entry("foo.c3", src(4) + b"// comment\n")]), "4"),
        ("source stored", pack([m, entry("foo.c3", src(5), 0)]), "5"),
        ("second source added", pack([m, entry("foo.c3", b"module foo;\nfn int value() => other();\n"), entry("g.c3", b"module foo;\nfn int other() => 2;\n")]), "2"),
        ("source renamed", pack([m, entry("f2.c3", src(6))]), "6"),
        ("manifest changed", pack([entry("manifest.json", two), entry("a/x.c3", src(8)), entry("foo.c3", src(1))]), "8"),
        ("data removed and file in place of a directory", pack([m, entry("a", b"plain"), entry("foo.c3", src(9))]), "9"),
    ]


def libs():
    """manifests and files for the comparison of the archive form with the directory form; (description, {library: files}, used libraries, output)"""
    def man(**kw):
        import json
        d = {"provides": "foo", "targets": {TRIPLE: {}}}
        d.update(kw)
        return json.dumps(d).encode()
    cs = b"int cvalue(void) { return 4; }\n"
    use_c = b"module foo;\nextern fn int cvalue();\nfn int value() => cvalue();\n"
    yield "plain", {"foo": {"manifest.json": man(), "a.c3": src(1)}}, ["foo"], "1"
    yield "sources in a directory", {"foo": {"manifest.json": man(sources=["src/**"]), "src/x/a.c3": src(2), "b.c3": src(3)}}, ["foo"], "2"
    yield "listed source", {"foo": {"manifest.json": man(sources=["b.c3"]), "a.c3": src(2), "b.c3": src(3)}}, ["foo"], "3"
    yield "sources of the target", {"foo": {"manifest.json": man(targets={TRIPLE: {"sources-override": ["t/*"]}}, sources=["b.c3"]), "t/a.c3": src(5), "b.c3": src(3)}}, ["foo"], "5"
    yield "C sources", {"foo": {"manifest.json": man(**{"c-sources": ["c/v.c"]}), "a.c3": use_c, "c/v.c": cs}}, ["foo"], "4"
    yield "C sources with an include directory", {"foo": {"manifest.json": man(**{"c-sources": ["c/v.c"], "c-include-dirs": ["inc"]}), "a.c3": use_c, "c/v.c": b'#include "k.h"\n' + b"int cvalue(void) { return K; }\n", "inc/k.h": b"#define K 6\n"}}, ["foo"], "6"
    yield "C flags", {"foo": {"manifest.json": man(**{"c-sources": ["c/v.c"], "cflags": "-DK=8"}), "a.c3": use_c, "c/v.c": b"int cvalue(void) { return K; }\n"}}, ["foo"], "8"
    dep = b"module foo;\nimport bar;\nfn int value() => bar::val();\n"
    bar = {"manifest.json": b'{"provides": "bar", "targets": {"linux-x64": {}}}', "b.c3": b"module bar;\nfn int val() => 9;\n"}
    yield "dependency", {"foo": {"manifest.json": man(dependencies=["bar"]), "a.c3": dep}, "bar": bar}, ["foo"], "9"
    yield "dependency of the target", {"foo": {"manifest.json": man(targets={TRIPLE: {"dependencies": ["bar"]}}), "a.c3": dep}, "bar": bar}, ["foo"], "9"
    yield "two libraries", {"foo": {"manifest.json": man(), "a.c3": dep}, "bar": bar}, ["foo", "bar"], "9"
    yield "unused library", {"foo": {"manifest.json": man(), "a.c3": src(1)}, "bar": {**bar, "b.c3": b"not a program"}}, ["foo"], "1"
    yield "missing target", {"foo": {"manifest.json": man(targets={"windows-x64": {}}), "a.c3": src(1)}}, ["foo"], None
    yield "broken source", {"foo": {"manifest.json": man(), "a.c3": b"module foo;\nfn int value() => ;\n"}}, ["foo"], None
    yield "not json", {"foo": {"manifest.json": b"{", "a.c3": src(1)}}, ["foo"], None
    yield "no provides", {"foo": {"manifest.json": b"{}", "a.c3": src(1)}}, ["foo"], None


def run(c):
    shutil.rmtree(os.path.join(c.dir, "r"), ignore_errors=True)
    p = c.dir
    while p not in ("/", ""):  # the unprivileged user has to get at the compiler and the scratch directory
        if not os.stat(p).st_mode & 1:
            os.chmod(p, os.stat(p).st_mode | 0o111)
        p = os.path.dirname(p)
    cases = [("valid", d, a, True) for d, a in valid_archives(c.thorough)]
    cases += [("damaged", d, a, False) for d, a in damaged(c.thorough)]
    m, s = entry("manifest.json", MANIFEST), entry("foo.c3", src(7))
    for n in dict.fromkeys(names(c.thorough)):
        for me in ((0, 8) if c.thorough else (8,)):
            cases.append(("name", f"entry named {n!r}", pack([m, s, entry(n, b"esc", me)]), False))
    # an absolute name that stays in the scratch directory even if it is taken as such
    cnt = [0]
    lock = threading.Lock()

    def one(case):
        fam, desc, arch, must = case
        with lock:
            cnt[0] += 1
            k = cnt[0]
        r = Run(c, f"a{k}")
        r.put(arch)
        code, out = r.build()
        judge(c, fam, desc, arch, must, r, code, out)
        r.done()
        return code == 0

    res = c.pmap(one, cases)

    def absolute(k):
        r = Run(c, f"abs{k}")
        arch = pack([m, s, entry(os.path.join(r.top, "esc" + str(k)), b"esc", 8 * (k % 2))])
        r.put(arch)
        code, out = r.build()
        judge(c, "name", "absolute name", arch, False, r, code, out)
        r.done()
    c.pmap(absolute, range(4))

    vs = versions()

    def history(seq):
        r = Run(c, "h" + "".join(map(str, seq)))
        for n, i in enumerate(seq):
            desc, arch, want = vs[i]
            r.put(arch)
            code, out = r.build()
            hist = " -> ".join(vs[j][0] for j in seq[:n + 1])
            judge(c, "history", hist, arch, True, r, code, out)
            if n == len(seq) - 1 and (len(set(seq)) == 2 and len(seq) == 2 or c.thorough):
                code, out = r.build(("compile-run", "-O0", "-o", "mm"))
                if code != 0 or want.encode() + b"\n" not in out:
                    c.violation("history: wrong program", f"{hist}: the program prints {out[-100:]!r} instead of {want}", {"history": hist, "output": out.decode("latin-1")[-2000:]})
        r.done()
    seqs = [q for n in ((1, 2, 3, 4) if c.thorough else (1, 2, 3)) for q in itertools.product(range(len(vs)), repeat=n)]
    if not c.thorough:
        seqs = [q for q in seqs if len(q) < 3 or q[0] == q[2] or q[1] == q[2]]
    c.pmap(history, seqs)

    def forms(item):
        k, (desc, ls, used, want) = item
        for form in ("directory", "archive, stored", "archive"):
            r = Run(c, f"f{k}{form[-1]}{len(form)}")
            for name, files in ls.items():
                if form == "directory":
                    for f, data in files.items():
                        p = os.path.join(r.d, "lib", name + ".c3l", f)
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        with open(p, "wb") as fh:
                            fh.write(data)
                else:
                    r.put(pack([entry(f, data, 0 if "stored" in form else 8) for f, data in files.items()]), name + ".c3l")
            code, out = r.build(("compile-run", "-O0", "-o", "mm"), used)
            ok = code == 0 and (want or "?").encode() + b"\n" in out
            if ok != (want is not None) or want is None and code != 1:
                c.violation(f"form: {desc}", f"{desc} as {form}: exit {code}, {out[-200:]!r}, expected {want}", {"library": desc, "form": form, "output": out.decode("latin-1")[-2000:]})
            r.done()
    forms_n = list(enumerate(libs()))
    c.pmap(forms, forms_n)
    shutil.rmtree(os.path.join(c.dir, "r"), ignore_errors=True)
    c.add(archives=len(cases), accepted=sum(res), histories=len(seqs), library_forms=3 * len(forms_n), evaluations=len(cases) + len(seqs) + 3 * len(forms_n))
    c.sample({"family": "names", "examples": list(names(False))[:6]})
    c.sample({"family": "history", "versions": [v[0] for v in vs]})
    c.set(rule="valid archives unpack exactly, damaged ones are refused with a message, nothing is written outside the library's directory, a changed archive is unpacked anew, both forms of a library give the same program", exhaustive=True)
