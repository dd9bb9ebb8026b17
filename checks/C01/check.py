import itertools
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration: every operator x type x operand pair executed and constant-folded, against mathematical integers"
NOTE = ("All 65536 operand pairs for the 8-bit types and all pairs of boundary values (powers of two and neighbours, extremes) up to 128 bits, for every "
        "unary, binary, comparison, shift and compound operator, run at several optimization levels and folded as constants; oracle: Python integers.")

TYPES = [("ichar", 8, 1), ("char", 8, 0), ("short", 16, 1), ("ushort", 16, 0), ("int", 32, 1), ("uint", 32, 0), ("long", 64, 1), ("ulong", 64, 0),
         ("int128", 128, 1), ("uint128", 128, 0)]
BIN = [("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/"), ("mod", "%"), ("and", "&"), ("or", "|"), ("xor", "^"), ("shl", "<<"), ("shr", ">>")]
CMP = [("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")]
UN = [("neg", "-"), ("not", "~"), ("inc", "++"), ("dec", "--"), ("pinc", "++"), ("pdec", "--"), ("lnot", "!"), ("plus", "+")]


def wrap(v, w, s):
    v &= (1 << w) - 1
    return v - (1 << w) if s and v >> (w - 1) else v


def rng(w, s):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def values(w, s, dense):
    lo, hi = rng(w, s)
    if w == 8 and dense != "few":
        return list(range(lo, hi + 1))
    ks = {"few": [1, 2, w // 2, w - 1], "some": sorted({1, 2, 3, 5, 7, 8, w // 4, w // 2 - 1, w // 2, w // 2 + 1, w - 3, w - 2, w - 1}), "all": range(w)}[dense]
    vs = {0, 1, lo, hi, 3, 10, 100}
    for k in ks:
        for d in (-1, 0, 1):
            for g in (1, -1):
                vs.add(g * (1 << k) + d)
    vs.add((1 << (w - 1)) // 3 * 2)  # alternating bits
    vs.add(hi // 5 * 3)
    return sorted(v for v in vs if lo <= v <= hi)


def ok(op, a, b, w, s):
    if op in ("div", "mod"):
        return b != 0 and not (s and a == -(1 << (w - 1)) and b == -1)
    if op in ("shl", "shr"):
        return 0 <= b < w
    return True


def binop(op, a, b, w, s):
    if op == "add": return a + b
    if op == "sub": return a - b
    if op == "mul": return a * b
    if op == "div": q = abs(a) // abs(b); return -q if (a < 0) != (b < 0) else q
    if op == "mod": r = abs(a) % abs(b); return -r if a < 0 else r
    if op == "and": return a & b
    if op == "or": return a | b
    if op == "xor": return a ^ b
    if op == "shl": return a << b
    if op == "shr": return a >> b


def cmpop(op, a, b):
    return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]


def unop(op, a, w, s):
    return {"neg": -a, "not": ~a, "inc": a + 1, "dec": a - 1, "pinc": a, "pdec": a, "lnot": int(a == 0), "plus": a}[op]


def lit(v, t, w):
    return f"({t})0x{v & ((1 << w) - 1):x}u{w}"


def prog(dense):
    o = ["module c01;", "extern fn void out(void*, ulong);"]
    calls = []
    plan = []
    for t, w, s in TYPES:
        vs = values(w, s, dense)
        raw = ", ".join(lit(v, t, w) for v in vs)
        o.append(f"{t}[*] v_{t} = {{ {raw} }};")
        n = len(vs)
        o.append(f"{t}[{n * n}] res_{t}; char[{n * n}] cres_{t};")
        lo = f"(({t})0x{1 << (w - 1):x}u{w})"
        for name, sym in BIN:
            for form in ("x", "c", "p"):
                f = f"{form}_{name}_{t}"
                if form == "x": o.append(f"fn {t} {f}({t} a, {t} b) @noinline => ({t})(a {sym} b);")
                elif form == "c": o.append(f"fn {t} {f}({t} a, {t} b) @noinline {{ a {sym}= b; return a; }}")
                else: o.append(f"fn {t} {f}({t} a, {t} b) @noinline {{ {t}[3] r = {{ 1, a, 2 }}; {t}* q = &r; int i = 1; (q[i++]) {sym}= b; return i == 2 && r[0] == 1 && r[2] == 2 ? r[1] : ({t})77; }}")
                cond = "true"
                if name in ("div", "mod"): cond = f"b != 0" + (f" && !(a == {lo} && b == -1)" if s else "")
                if name in ("shl", "shr"): cond = f"b >= 0 && b < {w}" if s else f"b < {w}"
                calls.append(f"{{ usz k = 0; foreach (a : v_{t}) foreach (b : v_{t}) {{ {t} r = 0; if ({cond}) r = {f}(a, b); res_{t}[k++] = r; }} out(&res_{t}, $sizeof(res_{t})); }}")
                plan.append((t, w, s, form, name))
        for name, sym in CMP:
            f = f"x_{name}_{t}"
            o.append(f"fn char {f}({t} a, {t} b) @noinline => (char)(a {sym} b);")
            # as a branch too
            o.append(f"fn char b{f}({t} a, {t} b) @noinline {{ if (a {sym} b) return 1; return 0; }}")
            for g in (f, "b" + f):
                calls.append(f"{{ usz k = 0; foreach (a : v_{t}) foreach (b : v_{t}) cres_{t}[k++] = {g}(a, b); out(&cres_{t}, $sizeof(cres_{t})); }}")
                plan.append((t, w, s, "cmp", name))
        for name, sym in UN:
            f = f"u_{name}_{t}"
            body = {"inc": "{ return ++a; }", "dec": "{ return --a; }", "pinc": "{ T b = a++; return b; }", "pdec": "{ T b = a--; return b; }"}.get(name)
            if body: o.append(f"fn {t} {f}({t} a) @noinline {body.replace('T', t)}")
            else: o.append(f"fn {t} {f}({t} a) @noinline => ({t})({sym}a);")
            calls.append(f"{{ usz k = 0; foreach (a : v_{t}) res_{t}[k++] = {f}(a); out(&res_{t}, v_{t}.len * {t}.sizeof); }}")
            plan.append((t, w, s, "un", name))
    o += [f"fn void call{i}() @noinline {c}" for i, c in enumerate(calls)]
    o.append('fn void run() @export("run") {')
    o += [f"call{i}();" for i in range(len(calls))]
    o.append("}")
    return "\n".join(o), plan


def verify(job):
    data, dense, plan, opt, nopts = job
    pos, bad, n = 0, [], 0
    cache = {}
    vals = {}
    for t, w, s, form, name in plan:
        if t not in vals:
            vals[t] = values(w, s, dense)
        vs = vals[t]
        if form == "cmp":
            key = (t, name, 0)
            if key not in cache:
                cache[key] = bytes(cmpop(name, a, b) for a in vs for b in vs)
        elif form == "un":
            key = (t, name, 1)
            if key not in cache:
                cache[key] = b"".join(wrap(unop(name, a, w, s), w, 0).to_bytes(w // 8, "little") for a in vs)
        else:
            key = (t, name, 2)
            if key not in cache:
                m = (1 << w) - 1
                cache[key] = b"".join(((binop(name, a, b, w, s) & m) if ok(name, a, b, w, s) else 0).to_bytes(w // 8, "little") for a in vs for b in vs)
        want = cache[key]
        got = data[pos:pos + len(want)]
        pos += len(want)
        sz = 1 if form == "cmp" else w // 8
        n += len(want) // sz
        if got != want:
            for i in range(0, len(want), sz):
                if got[i:i + sz] != want[i:i + sz]:
                    j = i // sz
                    ab = (vs[j],) if form == "un" else (vs[j // len(vs)], vs[j % len(vs)])
                    bad.append((t, form, name, ab, int.from_bytes(want[i:i + sz], "little"), int.from_bytes(got[i:i + sz], "little"), opt))
                    break
    if pos != len(data):
        bad.append(("?", "size", str(len(data)), (), pos, len(data), opt))
    return n * nopts, bad


def consts(dense):
    o = ["module c01k;", "extern fn void out(void*, ulong);"]
    want = []
    runs = []
    for t, w, s in TYPES:
        vs = values(w, s, dense)
        o += [f"const {t} K{i}_{t.upper()} = {lit(v, t, w)};" for i, v in enumerate(vs)]
        U = t.upper()
        pw, ps = max(w, 32), s  # narrow operands are promoted
        for name, sym in BIN:
            items = [(i, j) for i, a in enumerate(vs) for j, b in enumerate(vs) if ok(name, a, b, w, s)]
            o.append(f"{t}[*] k_{name}_{t} = {{ " + ", ".join(f"({t})(K{i}_{U} {sym} K{j}_{U})" for i, j in items) + " };")
            runs.append(f"out(&k_{name}_{t}, $sizeof(k_{name}_{t}));")
            want += [(t, w, s, name, (vs[i], vs[j]), wrap(binop(name, vs[i], vs[j], w, s), w, 0), w // 8) for i, j in items]
            # the folded value used further as a constant: widened
            o.append(f"int128[*] kw_{name}_{t} = {{ " + ", ".join(f"(int128)(K{i}_{U} {sym} K{j}_{U})" for i, j in items) + " };")
            runs.append(f"out(&kw_{name}_{t}, $sizeof(kw_{name}_{t}));")
            want += [(t, w, s, name + " widened", (vs[i], vs[j]), wrap(wrap(binop(name, vs[i], vs[j], pw, ps), pw, ps), 128, 0), 16) for i, j in items]
        for name, sym in CMP:
            o.append(f"char[*] k_{name}_{t} = {{ " + ", ".join(f"(char)(K{i}_{U} {sym} K{j}_{U})" for i in range(len(vs)) for j in range(len(vs))) + " };")
            runs.append(f"out(&k_{name}_{t}, $sizeof(k_{name}_{t}));")
            want += [(t, w, s, name, (a, b), int(cmpop(name, a, b)), 1) for a in vs for b in vs]
        for name, sym in UN:
            if name in ("inc", "dec", "pinc", "pdec"):
                continue
            o.append(f"{t}[*] k_{name}_{t} = {{ " + ", ".join(f"({t})({sym}K{i}_{U})" for i in range(len(vs))) + " };")
            runs.append(f"out(&k_{name}_{t}, $sizeof(k_{name}_{t}));")
            want += [(t, w, s, name, (a,), wrap(unop(name, a, w, s), w, 0), w // 8) for a in vs]
            o.append(f"int128[*] kw_{name}_{t} = {{ " + ", ".join(f"(int128)({sym}K{i}_{U})" for i in range(len(vs))) + " };")
            runs.append(f"out(&kw_{name}_{t}, $sizeof(kw_{name}_{t}));")
            want += [(t, w, s, name + " widened", (a,), wrap(wrap(unop(name, a, pw, ps), pw, ps), 128, 0), 16) for a in vs]
    o.append('fn void run() @export("run") {')
    o += runs
    o.append("}")
    return "\n".join(o), want


def run(c):
    dense = "all" if c.thorough else "some"
    src, plan = prog(dense)
    opts = ["-O0", "-O1", "-O2", "-O3", "-O4", "-O5", "-Os", "-Oz"] if c.thorough else ["-O0", "-O1", "-O3", "-Oz"]
    path = c.dir + "/c01.c3"
    open(path, "w").write(src)

    def one(opt):
        exe, _ = c.build_min("c01", None, opt)
        return exe and (c.run_min(exe), opt)

    outs = {}
    for r in c.pmap(one, opts):
        if r and r[0] is not None:
            outs.setdefault(r[0], []).append(r[1])
    # equal outputs are compared with the oracle once, one type per process
    jobs = []
    for data, os_ in outs.items():
        pos = 0
        for t, g in itertools.groupby(plan, lambda p: p[0]):
            g = list(g)
            nv = len(values(g[0][1], g[0][2], dense))
            size = sum(nv * nv if p[3] == "cmp" else nv * p[1] // 8 if p[3] == "un" else nv * nv * p[1] // 8 for p in g)
            jobs.append((data[pos:pos + size], dense, g, " ".join(os_), len(os_)))
            pos += size
        if pos != len(data):
            c.violation("size", f"the program prints {len(data)} bytes, not {pos}, at {os_}", {"opts": os_})
    if jobs:
        for n, bad in c.procmap(verify, jobs):
            c.add(evaluations=n)
            for t, form, name, ab, w, g, opt in bad:
                c.violation(f"{name}:{t}:{form}", f"{name} on {t} {ab} ({form}) gives {g:#x}, not {w:#x} at {opt}",
                            {"type": t, "operator": name, "form": form, "operands": ab, "want": w, "got": g, "opt": opt})
    src, want = consts("some" if c.thorough else "few")
    exe, _ = c.build_min("c01k", src, "-O0")
    if exe:
        data = c.run_min(exe)
        if data is not None:
            pos = 0
            for t, w, s, name, ab, v, sz in want:
                got = int.from_bytes(data[pos:pos + sz], "little")
                pos += sz
                if got != v:
                    c.violation(f"const:{name}:{t}", f"the constant {name} on {t} {ab} is {got:#x}, not {v:#x}", {"type": t, "operator": name, "operands": ab, "want": v, "got": got})
            c.add(evaluations=len(want))
            c.set(constants=len(want))
    c.set(distinct_nontrivial=len({(t, n, f) for t, _, _, f, n in plan}) * 1, exhaustive=True,
          rule="every operator form x type x operand pair of the value sets (all values for 8 bits); distinct_nontrivial counts operator/type/form combinations")
    c.sample("x_shr_short(-32768, 15) at -O3 == -1; constant (int128)(K3 * K7)")
