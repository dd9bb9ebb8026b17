import functools, itertools, math, os, struct
from fractions import Fraction
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of (type, type, value) conversions executed, constant-folded and accept/reject checked, against exact arithmetic"
NOTE = ("Every pair of integer, float and bool types x all boundary values: explicit casts at run time (several optimization levels) and as constants, the full "
        "matrix of implicit conversions in six positions, mixed-type arithmetic and comparisons; oracle: exact integers and fractions.")

INTS = [("ichar", 8, 1), ("char", 8, 0), ("short", 16, 1), ("ushort", 16, 0), ("int", 32, 1), ("uint", 32, 0), ("long", 64, 1), ("ulong", 64, 0),
        ("int128", 128, 1), ("uint128", 128, 0)]
FLTS = [("float16", 11, 15, 2), ("float", 24, 127, 4), ("double", 53, 1023, 8)]
IT = {t: (w, s) for t, w, s in INTS}
FT = {t: (p, e, n) for t, p, e, n in FLTS}
ALL = ["bool"] + list(IT) + list(FT)


def size(t):
    return 1 if t == "bool" else IT[t][0] // 8 if t in IT else FT[t][2]


@functools.cache
def ivals(t):
    w, s = IT[t]
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    vs = {0, 1, 2, 3, 100, lo, hi, lo + 1, hi - 1, hi // 2, hi // 2 + 1}
    for k in (7, 8, 11, 15, 16, 24, 31, 32, 53, 63, 64, 100, 127):
        for d in (-1, 0, 1):
            vs |= {(1 << k) + d, -(1 << k) + d}
    # double rounding through double
    vs |= {(1 << 60) + (1 << 36) + 1, (1 << 62) + (1 << 38) - 1, -(1 << 60) - (1 << 36) - 1, (1 << 100) + (1 << 76) + 1, (1 << 100) + (1 << 47) + 1, (1 << 126) + (1 << 73) + 1}
    # halfway cases of the float formats
    for p in (11, 24, 53):
        vs |= {(1 << p) + 1, (1 << p) + 3, (1 << (p + 3)) + 4, (1 << (p + 3)) + 12, (1 << (p + 3)) + 13, (1 << (p + 1)) + 1}
    return sorted(v for v in vs if lo <= v <= hi)


def fround(x, t):
    """Fraction to the nearest value of a format (ties to even); None when it overflows."""
    p, emax, n = FT[t]
    if x == 0:
        return Fraction(0)
    a = abs(x)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a: e -= 1
    e = max(e, 1 - emax)
    q = Fraction(2) ** (e - p + 1)
    k = a / q
    f = k.numerator // k.denominator
    r = k - f
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and f & 1): f += 1
    v = f * q
    if v >= Fraction(2) ** (emax + 1): return math.inf if x > 0 else -math.inf
    return v if x > 0 else -v


@functools.cache
def mvals(t):
    v = ivals(t)
    w = IT[t][0]
    return sorted({x for x in v if abs(x) < 4} | {v[0], v[1], v[-1], v[-2], v[-1] // 2, v[-1] // 2 + 1} | {x for x in v if abs(x) in (127, 128, 255, 256, 32768, 65535, 1 << 31, (1 << 32) - 1, 1 << 63, (1 << 64) - 1)})


def fvals(t):
    p, emax, n = FT[t]
    vs = {Fraction(0)}
    def add(x):
        for g in (1, -1):
            r = fround(Fraction(x) * g, t)
            if not isinstance(r, float): vs.add(r)
    for x in (1, Fraction(1, 2), Fraction(3, 2), Fraction(5, 2), Fraction(99, 100), 2, 3, 100, Fraction(1, 10), 65504, 65535, Fraction(1, 3)):
        add(x)
    for k in (7, 8, 11, 15, 16, 24, 31, 32, 53, 63, 64, 100, 127):
        for d in (-1, 0, 1): add((1 << k) + d)
        add(Fraction(2) ** k * (1 + Fraction(1, 1 << (p - 1))))
        add(Fraction(2) ** k * (2 - Fraction(1, 1 << (p - 1))))
        add(Fraction(2) ** k + Fraction(1, 2))
        add(Fraction(1, 2 ** k))
    add(Fraction(2) ** (1 - emax)); add(Fraction(2) ** (2 - emax - p)); add(Fraction(2) ** (1 - emax) - Fraction(2) ** (2 - emax - p))
    add(Fraction(2) ** emax * (2 - Fraction(1, 1 << (p - 1))))
    # around the ties of the narrower formats
    for u in FT:
        if FT[u][0] < p:
            q = FT[u][0]
            for m in (1, 3):
                for eps in (0, 1, -1):
                    add(1 + Fraction(m, 1 << q) + Fraction(eps, 1 << (p - 1)))
            add(Fraction(2) ** FT[u][1] * (2 - Fraction(1, 1 << q)))
            add(Fraction(2) ** FT[u][1] * (2 - Fraction(1, 1 << (q + 1))))
            add(Fraction(2) ** (1 - FT[u][1] - q)); add(Fraction(2) ** (2 - FT[u][1] - q) * Fraction(3, 2))
    return sorted(vs) + [math.inf, -math.inf, math.nan]


@functools.cache
def vals(t):
    return [0, 1] if t == "bool" else ivals(t) if t in IT else fvals(t)


def conv(v, f, t):
    """The defined value of (t)v, or None where there is none."""
    if t == "bool":
        return int(v != 0)
    if t in IT:
        if f in FT:
            if isinstance(v, float): return None
            v = -((-v.numerator) // v.denominator) if v < 0 else v.numerator // v.denominator
            w, s = IT[t]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            return v if lo <= v <= hi else None
        w, s = IT[t]
        v &= (1 << w) - 1
        return v - (1 << w) if s and v >> (w - 1) else v
    if isinstance(v, float): return v
    r = fround(Fraction(v), t)
    if isinstance(r, float) and f not in FT: return None
    return r


def enc(v, t):
    if t == "bool": return bytes([v])
    if t in IT: return (v & ((1 << IT[t][0]) - 1)).to_bytes(IT[t][0] // 8, "little")
    return struct.pack({"float16": "<e", "float": "<f", "double": "<d"}[t], float(v))



conv = functools.lru_cache(None)(conv)


def same(want, got, t):
    """want: value, got: bytes; the sign of zero is not compared for results that round to zero"""
    if t in FT:
        g = struct.unpack({"float16": "<e", "float": "<f", "double": "<d"}[t], got)[0]
        if want != want: return g != g
        return g == float(want)
    return enc(want, t) == got


def lit(v, t):
    if t == "bool": return "true" if v else "false"
    if t in IT: return f"({t})0x{v & ((1 << IT[t][0]) - 1):x}u{IT[t][0]}"
    if isinstance(v, float):
        return f"{t}.nan" if v != v else f"{t}.inf" if v > 0 else f"({t})-{t}.inf"
    # exact hexadecimal float
    if v == 0: return f"({t})0.0"
    a = abs(v)
    e = 0
    n, d = a.numerator, a.denominator  # d is a power of two
    s = f"({t})0x{n:x}.0p-{d.bit_length() - 1}" if n.bit_length() <= 60 else None
    if s is None:
        z = (n & -n).bit_length() - 1
        s = f"({t})0x{n >> z:x}.0p{z - d.bit_length() + 1}"
    return s if v > 0 else s.replace(f"({t})", f"({t})-")


OPTS_Q, OPTS_T = ["-O0", "-O1", "-O3"], ["-O0", "-O1", "-O2", "-O3", "-O5", "-Oz"]


def implicit_ok(f, t):
    if f == t: return True
    if "bool" in (f, t): return False
    if f in IT: return t in FT or (t in IT and IT[t][0] >= IT[f][0])
    return t in FT and FT[t][0] >= FT[f][0]


def casts(c, opts):
    o = ["module c02;", "extern fn void out(void*, ulong);"]
    plan = []
    calls = []
    for f in ALL:
        o.append(f"{f}[*] v_{f} = {{ {', '.join(lit(v, f) for v in vals(f))} }};")
    for f in ALL:
        for t in ALL:
            forms = [("e", f"=> ({t})a;")]
            if implicit_ok(f, t):
                forms += [("ret", "{ return a; }"), ("ini", f"{{ {t} r = a; return r; }}"), ("asg", f"{{ {t} r; r = a; return r; }}"),
                          ("arr", f"{{ {t}[2] r = {{ {lit(1, t)}, a }}; return r[1]; }}"), ("arg", f"=> id_{t}(a);"),
                          ("ter", f"{{ {t} r = a == a ? ({t})a : ({t})a; return r; }}"), ("opt", f"{{ {t}? r = a; return r ?? {lit(1, t)}; }}")]
            for name, body in forms:
                if t == "bool" and name == "arr": continue
                fn = f"{name}_{f}_{t}"
                o.append(f"fn {t} {fn}({f} a) @noinline {body}")
                # only the defined conversions are made
                idx = [i for i, v in enumerate(vals(f)) if conv(v, f, t) is not None]
                o.append(f"ushort[*] x_{fn} = {{ {', '.join(map(str, idx))} }};") if idx else None
                if not idx: continue
                calls.append(f"foreach (i : x_{fn}) {{ {t} r = {fn}(v_{f}[i]); out(&r, {size(t)}); }}")
                plan += [(f, t, name, vals(f)[i]) for i in idx]
    for t in ALL: o.append(f"fn {t} id_{t}({t} a) @noinline => a;")
    # mixed comparisons and arithmetic
    for f in IT: o.append(f"{f}[*] m_{f} = {{ {', '.join(lit(v, f) for v in mvals(f))} }};")
    for f in IT:
        for t in IT:
            for op, sym in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
                o.append(f"fn char {op}_{f}_{t}({f} a, {t} b) @noinline => (char)(a {sym} b);")
                calls.append(f"foreach (a : m_{f}) foreach (b : m_{t}) {{ char r = {op}_{f}_{t}(a, b); out(&r, 1); }}")
                plan += [(f, t, op, (a, b)) for a in mvals(f) for b in mvals(t)]
            for op, sym in (("add", "+"), ("sub", "-"), ("mul", "*"), ("and", "&")):
                if f == t: continue
                w, s = max(IT[f][0], IT[t][0], 32), IT[f][1] | IT[t][1] if max(IT[f][0], IT[t][0]) >= 32 or True else 1
                r = next(n for n, ww, ss in INTS if ww == w and ss == s)
                o.append(f"fn {r} {op}_{f}_{t}({f} a, {t} b) @noinline {{ $assert $typeof(a {sym} b).typeid == {r}.typeid : \"type of {f} {sym} {t}\"; return a {sym} b; }}")
                calls.append(f"foreach (a : m_{f}) foreach (b : m_{t}) {{ {r} r = {op}_{f}_{t}(a, b); out(&r, {r}.sizeof); }}")
                plan += [(f, t, op, (a, b)) for a in mvals(f) for b in mvals(t)]
    o += [f"fn void call{i}() @noinline {{ {x} }}" for i, x in enumerate(calls)]
    o.append('fn void run() @export("run") { ' + " ".join(f"call{i}();" for i in range(len(calls))) + " }")
    open(c.dir + "/c02.c3", "w").write("\n".join(x for x in o if x))

    outs = {}
    for r in c.pmap(lambda op: (c.build_min("c02", None, op)[0], op), opts):
        if r[0]:
            d = c.run_min(r[0])
            if d is not None: outs.setdefault(d, []).append(r[1])
    for d, os_ in outs.items():
        check(c, d, plan, os_, "run")
        c.add(evaluations=len(plan) * len(os_))
    return len(plan)


CMP = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}


def check(c, d, plan, os_, what):
    pos = 0
    bad = set()
    for f, t, name, v in plan:
        if name in CMP:
            rt, want = "bool", int(CMP[name](*v))
        elif name in ("add", "sub", "mul", "and"):
            w, s = max(IT[f][0], IT[t][0], 32), IT[f][1] | IT[t][1]
            rt = next(n for n, ww, ss in INTS if ww == w and ss == s)
            a, b = conv(v[0], f, rt), conv(v[1], t, rt)
            want = conv({"add": a + b, "sub": a - b, "mul": a * b, "and": a & b}[name], "int128", rt)
        else:
            rt, want = t, conv(v, f, t)
        n = size(rt)
        got = d[pos:pos + n]
        pos += n
        if not same(want, got, rt):
            k = (f, t, name)
            if k in bad or len(bad) > 60: continue
            bad.add(k)
            c.violation(f"{what}:{name}:{f}:{t}", f"{what} {name} {f}->{t} of {v}: got {got.hex()}, want {want} at {' '.join(os_)}",
                        {"from": f, "to": t, "form": name, "value": str(v), "want": str(want), "got": got.hex(), "opts": os_})
    if pos != len(d): c.violation(f"{what}:size", f"{len(d)} bytes, not {pos}", {})


def consts(c):
    o = ["module c02k;", "extern fn void out(void*, ulong);"]
    plan, runs = [], []
    for f in ALL:
        for t in ALL:
            idx = [v for v in vals(f) if conv(v, f, t) is not None and not isinstance(v, float) and not isinstance(conv(v, f, t), float)]
            if not idx: continue
            o.append(f"{t}[*] k_{f}_{t} = {{ {', '.join(f'({t})({lit(v, f)})' for v in idx)} }};")
            runs.append(f"out(&k_{f}_{t}, $sizeof(k_{f}_{t}));")
            plan += [(f, t, "const", v) for v in idx]
    for f in IT:
        for t in IT:
            for op, sym in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
                fv, tv = mvals(f), mvals(t)
                o.append(f"char[*] k{op}_{f}_{t} = {{ {', '.join(f'(char)({lit(a, f)} {sym} {lit(b, t)})' for a in fv for b in tv)} }};")
                runs.append(f"out(&k{op}_{f}_{t}, $sizeof(k{op}_{f}_{t}));")
                plan += [(f, t, op, (a, b)) for a in fv for b in tv]
    o.append('fn void run() @export("run") { ' + " ".join(runs) + " }")
    exe, _ = c.build_min("c02k", "\n".join(o), "-O0")
    if exe:
        d = c.run_min(exe)
        if d is not None:
            check(c, d, plan, ["constants"], "const")
            c.add(evaluations=len(plan))


def matrix(c):
    T = ALL + ["float128"]
    jobs = [(f, t, form) for f in T for t in T for form in ("return a;", "{t} r = a; return r;", "g(a); return ({t})a;", "{t}[1] r = {{ a }}; return r[0];", "{t}? r = a; return r!!;")]
    def one(j):
        f, t, form = j
        p = f"{c.dir}/m_{f}_{t}_{jobs.index(j) % 5}.c3"
        open(p, "w").write(f"module m; fn void g({t} x) {{}} fn {t} x({f} a) {{ {form.format(t=t)} }}\n")
        code, out = c.run([c.c3c, "compile-only", "-C", "--use-stdlib=no", p], 60)
        return code, out
    for (f, t, form), (code, out) in zip(jobs, c.pmap(one, jobs)):
        fo = {"float128": ("float128",)}
        want = f == t or (implicit_ok(f, t) if "float128" not in (f, t) else t == "float128" and f != "bool")
        c.add(evaluations=1)
        if code not in (0, 1):
            c.violation(f"matrix:{f}:{t}:crash", f"the compiler ends with {code} on {f}->{t} in '{form}': {out[-300:]}", {"from": f, "to": t, "form": form})
        elif (code == 0) != want:
            c.violation(f"matrix:{f}:{t}", f"the implicit conversion {f}->{t} in '{form}' is {'accepted' if code == 0 else 'rejected'}: {out[:300]}", {"from": f, "to": t, "form": form})


def ambiguous(c, opts):
    """T x = a op b: whatever is accepted has the value of the arithmetic, without a silent choice between two."""
    few = {f: [v for v in vals(f) if v in (0, 1, 3, 100, ivals(f)[0], ivals(f)[-1], ivals(f)[-2], ivals(f)[1], 127, 128, 255, 32767, 65535)] for f in IT}
    tri = [(f, t, r, op) for f in IT for t in IT for r in IT for op in ("+", "*", "-")]
    def acc(j):
        i, (f, t, r, op) = j
        p = f"{c.dir}/a_{i}.c3"
        open(p, "w").write(f"module m; fn {r} x({f} a, {t} b) {{ {r} z = a {op} b; return z; }}\n")
        code, out = c.run([c.c3c, "compile-only", "-C", "--use-stdlib=no", p], 60)
        os.unlink(p)
        return code
    sub = tri if c.thorough else [x for x in tri if x[3] == "+" and "128" not in x[0] + x[1] + x[2]]
    ok = [x for x, code in zip(sub, c.pmap(acc, enumerate(sub))) if code == 0]
    o = ["module c02a;", "extern fn void out(void*, ulong);"]
    for f in IT: o.append(f"{f}[*] v_{f} = {{ {', '.join(lit(v, f) for v in few[f])} }};")
    calls, plan = [], []
    for i, (f, t, r, op) in enumerate(ok):
        o.append(f"fn {r} x{i}({f} a, {t} b) @noinline {{ {r} z = a {op} b; return z; }}")
        calls.append(f"foreach (a : v_{f}) foreach (b : v_{t}) {{ {r} z = x{i}(a, b); out(&z, {size(r)}); }}")
        plan += [(f, t, r, op, a, b) for a in few[f] for b in few[t]]
    o += [f"fn void call{i}() @noinline {{ {x} }}" for i, x in enumerate(calls)]
    o.append('fn void run() @export("run") { ' + " ".join(f"call{i}();" for i in range(len(calls))) + " }")
    open(c.dir + "/c02a.c3", "w").write("\n".join(o))
    for opt in opts[:2]:
        exe, _ = c.build_min("c02a", None, opt)
        d = exe and c.run_min(exe)
        if not d: continue
        pos, bad = 0, set()
        for f, t, r, op, a, b in plan:
            got = d[pos:pos + size(r)]
            pos += size(r)
            w, s = max(IT[f][0], IT[t][0], 32), IT[f][1] | IT[t][1]
            mid = next(n for n, ww, ss in INTS if ww == w and ss == s)
            m = conv({"+": a + b, "*": a * b, "-": a - b}[op] if True else 0, "int128", mid)
            # in the width of the operation or, where the wider target decides, exactly
            direct = conv({"+": a + b, "*": a * b, "-": a - b}[op], "int128", r)
            want = {enc(conv(m, mid, r), r), enc(direct, r)}
            if got not in want and (f, t, r, op) not in bad and len(bad) < 30:
                bad.add((f, t, r, op))
                c.violation(f"assign:{f}{op}{t}:{r}", f"{r} z = {f} {a} {op} {t} {b} gives {got.hex()}, not {m} at {opt}", {"types": [f, t, r], "op": op, "a": str(a), "b": str(b), "got": got.hex()})
        c.add(evaluations=len(plan))
    c.set(accepted_triples=len(ok), tried_triples=len(sub))


def run(c):
    opts = OPTS_T if c.thorough else OPTS_Q
    n = casts(c, opts)
    consts(c)
    matrix(c)
    ambiguous(c, opts)
    c.set(distinct_nontrivial=n, exhaustive=True, rule="all (from, to, form, value) of the value sets; each distinct; values are the extremes, powers of two and ties of every format")
    c.sample("double -0x1.fffffp62 -> long; ushort 65535 < ichar -1; implicit uint -> float16")
