import functools
import importlib.util
import itertools
import math
import os
import struct
from fractions import Fraction

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration: every operator, builtin and conversion x element type x length on all pairs of boundary values in the lanes, every swizzle of up to 4 lanes, against lane-wise exact arithmetic"
NOTE = ("Operators (vector-vector, vector-scalar, scalar-vector, compound, on an element), comparisons, reductions, selection, numeric builtins and casts for 10 integer and 2 floating element types and lengths 2 to 8 (incl. 3 and 5), "
        "every swizzle read (all index tuples up to 4), swizzle writes, element access by run-time index, array conversion and passing by value; oracle: Python integers and fractions, one lane at a time.")

spec = importlib.util.spec_from_file_location("c02", os.path.join(os.path.dirname(os.path.dirname(__file__)), "C02", "check.py"))
c02 = importlib.util.module_from_spec(spec)
spec.loader.exec_module(c02)
IT, FT, fround = c02.IT, c02.FT, c02.fround
FL = ["float", "double"]


def wrap(v, t):
    w, s = IT[t]
    v &= (1 << w) - 1
    return v - (1 << w) if s and v >> (w - 1) else v


@functools.cache
def vals(t):
    if t == "bool": return [0, 1]
    if t in IT:
        w, s = IT[t]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        return sorted({0, 1, 2, 3, 7, lo, hi, lo + 1, hi - 1, hi // 2 + 1, hi // 3, w - 1, w // 2 + 1} | ({-1, -2, -7} if s else set()))
    big = Fraction(2) ** (FT[t][1] - 3)
    return [Fraction(x) for x in (0, 1, -1, 2, -3, Fraction(1, 2), Fraction(-5, 2), Fraction(7, 2), 1000001)] + [fround(Fraction(1, 3), t), fround(Fraction(-1, 10), t), big, -big]


def enc(v, t):
    if t == "bool": return bytes([1 if v else 0])
    if t in IT: return (v & ((1 << IT[t][0]) - 1)).to_bytes(IT[t][0] // 8, "little")
    return struct.pack({"float": "<f", "double": "<d"}[t], float(v))


def hx(vs, t):
    return "".join(enc(v, t).hex() for v in vs) + ","


def lit(v, t):
    if t == "bool": return "true" if v else "false"
    if t in IT: return f"({t})0x{v & ((1 << IT[t][0]) - 1):x}u{IT[t][0]}"
    return f"({t}){float(v).hex() if float(v) != int(v) or abs(v) > 1e15 else int(v)}"


BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b}


def iop(op, a, b, t):
    w, s = IT[t]
    if op in ("/", "%"):
        if b == 0 or s and a == -(1 << (w - 1)) and b == -1: return None
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        return q if op == "/" else a - q * b
    if op in ("<<", ">>"):
        if not 0 <= b < w: return None
        return wrap(a << b, t) if op == "<<" else a >> b
    return wrap(BIN[op](a, b), t)


def fop(op, a, b, t):
    if op == "/":
        if b == 0: return None
        r = Fraction(a) / b
    else:
        r = BIN[op](Fraction(a), b)
    r = fround(r, t)
    return None if isinstance(r, float) or r == 0 else r


def bop(op, a, b, t):
    return fop(op, a, b, t) if t in FT else iop(op, a, b, t)


CMP = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}


def bits(v, t): return v & ((1 << IT[t][0]) - 1)
def clampi(v, t):
    w, s = IT[t]
    return max(-(1 << (w - 1)), min((1 << (w - 1)) - 1, v)) if s else max(0, min((1 << w) - 1, v))


def floorf(x): return Fraction(x.numerator // x.denominator)
def nz(f): return lambda *a: (lambda r: None if r == 0 else r)(f(*a))   # the sign of a zero result is not judged


UN1I = {"$$popcount": lambda a, t: bin(bits(a, t)).count("1"), "$$clz": lambda a, t: IT[t][0] - bits(a, t).bit_length(), "$$ctz": lambda a, t: (bits(a, t) & -bits(a, t)).bit_length() - 1 if a else IT[t][0],
        "$$bitreverse": lambda a, t: wrap(int(format(bits(a, t), f"0{IT[t][0]}b")[::-1], 2), t),
        "$$bswap": lambda a, t: wrap(int.from_bytes(enc(a, t), "big"), t), "$$abs": lambda a, t: wrap(abs(a), t), "-": lambda a, t: wrap(-a, t), "~": lambda a, t: wrap(~a, t), "+": lambda a, t: a}
UN1F = {"$$floor": lambda a, t: floorf(a), "$$ceil": lambda a, t: -floorf(-a), "$$trunc": lambda a, t: floorf(a) if a > 0 else -floorf(-a), "$$round": lambda a, t: floorf(a + Fraction(1, 2)) if a > 0 else -floorf(-a + Fraction(1, 2)),
        "$$rint": lambda a, t: Fraction(round(a)), "$$roundeven": lambda a, t: Fraction(round(a)), "$$abs": lambda a, t: abs(a), "-": lambda a, t: -a, "+": lambda a, t: a, "$$sqrt": lambda a, t: None if a < 0 else None if fround(Fraction(math.isqrt(int(a)))**2, t) != a else Fraction(math.isqrt(int(a)))}
BI2I = {"$$min": lambda a, b, t: min(a, b), "$$max": lambda a, b, t: max(a, b), "$$sat_add": lambda a, b, t: clampi(a + b, t), "$$sat_sub": lambda a, b, t: clampi(a - b, t),
        "$$sat_shl": lambda a, b, t: clampi(a << b, t) if 0 <= b < IT[t][0] else None}
BI2F = {"$$min": lambda a, b, t: min(a, b), "$$max": lambda a, b, t: max(a, b), "$$copysign": lambda a, b, t: None if b == 0 else abs(a) if b > 0 else -abs(a)}


def lanes(rows, n):
    """rows: list of (inputs..., result); chunks of n rows, the last filled up with the first ones"""
    rows = list(rows)
    if not rows: return []
    while len(rows) % n: rows.append(rows[len(rows) % 7 % len(rows)])
    # neighbours in a vector are unrelated rows
    k = len(rows) // n
    return [[rows[i + j * k] for j in range(n)] for i in range(k)]


class G:
    def __init__(s):
        s.pre, s.cases, s.k = [], [], 0

    def add(s, desc, t, n, ins, rt, expr, rows, decl="", scal=()):
        """expr over vectors a, b, c (types ins) giving a vector of rt; scal: inputs used as the scalar of lane 0 only"""
        ch = lanes(rows, n)
        if not ch: return
        s.k += 1
        names = "abc"
        loads = []
        for i, it in enumerate(ins):
            tab = ", ".join("{ " + ", ".join(lit(r[i], it) for r in v) + " }" for v in ch)
            s.pre.append(f"{it}[{n}][*] tb{s.k}{names[i]} = {{ {tab} }};")
            loads.append(f"{it}[<{n}>] {names[i]} = ({it}[<{n}>])tb{s.k}{names[i]}[k];")
        want = "".join(hx([r[-1] for r in v], rt) for v in ch)
        s.cases.append((f"for (int k = 0; k < {len(ch)}; k++) {{ {' '.join(loads)} {decl} {rt}[<{n}>] r = {expr}; {'for (int i = 0; i < %d; i++) hexb((int)r[i]); evt(44);' % n if rt == 'bool' else f'hexd(&r, {n} * {rt}.sizeof);'} }}", want, f"{desc};{t}[<{n}>]"))

    def raw(s, desc, body, want):
        s.cases.append((body, want, desc))


def build(c):
    gs = {}
    lens = (2, 3, 4, 5, 8) + ((7, 16, 1) if c.thorough else ())
    for t in list(IT) + FL:
        g = gs[t] = G()
        # (LLVM 18 does not end on some divisions of odd vectors by a constant)
        g.pre.append(f"fn {t} idn({t} x) @export @noinline {{ return x; }}")
        fl = t in FT
        V = vals(t)
        ln = lens if t not in ("int128", "uint128") else (2, 3)
        for n in ln:
            pairs = list(itertools.product(V, V))
            for op in ("+", "-", "*", "/") + (() if fl else ("%", "&", "|", "^", "<<", ">>")):
                rows = [(a, b, bop(op, a, b, t)) for a, b in pairs]
                rows = [r for r in rows if r[2] is not None]
                if fl: rows = [r for r in rows]
                g.add(f"op {op}", t, n, (t, t), t, f"a {op} b", rows)
                if n in (3, 4):
                    g.add(f"op {op}=", t, n, (t, t), t, "x", rows, f"{t}[<{n}>] x = a; x {op}= b;")
                # one scalar for all the lanes
                for sc in V[1::4]:
                    r1 = [(a, bop(op, a, sc, t)) for a in V]
                    r1 = [r for r in r1 if r[1] is not None]
                    if n in (2, 3, 4): g.add(f"op vector {op} scalar", t, n, (t,), t, f"a {op} s", r1, f"{t} s = idn({lit(sc, t)});")
                    r2 = [(a, bop(op, sc, a, t)) for a in V]
                    r2 = [r for r in r2 if r[1] is not None]
                    if n in (2, 3) and op not in ("<<", ">>"): g.add(f"op scalar {op} vector", t, n, (t,), t, f"s {op} a", r2, f"{t} s = idn({lit(sc, t)});")
                    if n in (3, 4): g.add(f"op {op}= scalar", t, n, (t,), t, "x", r1, f"{t}[<{n}>] x = a; x {op}= idn({lit(sc, t)});")
            for nm, f in CMP.items():
                g.add(f"$$veccomp{nm}", t, n, (t, t), "bool", f"$$veccomp{nm}(a, b)", [(a, b, f(a, b)) for a, b in pairs])
            for nm, f in (UN1F if fl else UN1I).items():
                if nm == "$$bswap" and t in ("char", "ichar"): continue
                rows = [(a, f(a, t)) for a in V]
                rows = [r for r in rows if r[1] is not None and not (fl and r[1] == 0)]
                g.add(f"unary {nm}", t, n, (t,), t, f"{nm}(a)" if nm[0] == "$" else f"{nm}a", rows)
            for nm, f in (BI2F if fl else BI2I).items():
                rows = [(a, b, f(a, b, t)) for a, b in pairs]
                rows = [r for r in rows if r[2] is not None and not (fl and (r[2] == 0))]
                g.add(f"builtin {nm}", t, n, (t, t), t, f"{nm}(a, b)", rows)
            if not fl:
                w = IT[t][0]
                def fsh(a, b, s, left):
                    x = bits(a, t) << w | bits(b, t)
                    s %= w
                    return wrap(x >> (w - s) if left else x >> s, t)
                tri = [(a, b, V[(i * 5 + j) % len(V)]) for i, a in enumerate(V) for j, b in enumerate(V)]
                if w <= 64:
                    g.add("builtin $$fshl", t, n, (t, t, t), t, "$$fshl(a, b, c)", [(a, b, s, fsh(a, b, s, True)) for a, b, s in tri])
                    g.add("builtin $$fshr", t, n, (t, t, t), t, "$$fshr(a, b, c)", [(a, b, s, fsh(a, b, s, False)) for a, b, s in tri])
            g.add("$$select", t, n, ("bool", t, t), t, "$$select(a, b, c)", [(m, a, b, a if m else b) for m in (0, 1) for a, b in pairs[::3]])
            # reductions, element access, whole comparison, passing by value: vectors of rotating values
            vecs = [[V[(k * s + j * d) % len(V)] for k in range(n)] for s in (1, 3, 4) for d in (1,) for j in range(len(V))]
            g.k += 1
            g.pre.append(f"{t}[{n}][*] tv{g.k} = {{ {', '.join('{ ' + ', '.join(lit(x, t) for x in v) + ' }' for v in vecs)} }};")
            def red(desc, expr, f, rt=t):
                ex = [f(v) for v in vecs]
                for i0 in range(0, 1):
                    g.raw(f"{desc};{t}[<{n}>]", f"for (int k = 0; k < {len(vecs)}; k++) {{ {t}[<{n}>] a = ({t}[<{n}>])tv{g.k}[k]; {rt} r = {expr}; if (skip{g.k}_{len(g.cases)}[k]) hexd(&r, {rt}.sizeof); }}",
                          "".join(hx([x], rt) for x in ex if x is not None))
                g.pre.append(f"bool[*] skip{g.k}_{len(g.cases) - 1} = {{ {', '.join('true' if x is not None else 'false' for x in ex)} }};")
            if not fl:
                for nm, f in (("add", lambda v: wrap(sum(v), t)), ("mul", lambda v: wrap(math.prod(v), t)), ("and", lambda v: functools.reduce(lambda a, b: a & b, v)), ("or", lambda v: functools.reduce(lambda a, b: a | b, v)),
                              ("xor", lambda v: functools.reduce(lambda a, b: a ^ b, v)), ("max", max), ("min", min)):
                    red(f"reduce {nm}", f"$$reduce_{nm}(a)", f)
            else:
                def seq(op, start):
                    def f(v):
                        r = start
                        for x in v:
                            r = fop(op, r, x, t)
                            if r is None: return None
                        return r
                    return f
                red("reduce fadd", f"$$reduce_fadd(a, ({t})0.5)", seq("+", Fraction(1, 2)))
                red("reduce fmul", f"$$reduce_fmul(a, ({t})2.0)", seq("*", Fraction(2)))
                red("reduce max", "$$reduce_max(a)", lambda v: max(v) or None)
                red("reduce min", "$$reduce_min(a)", lambda v: min(v) or None)
            red("passed by value", f"third_{n}(1, a, 2)", lambda v: v[(n * 2) // 3])
            g.pre.append(f"fn {t} third_{n}(int x, {t}[<{n}>] v, int y) @noinline {{ return v[{n} * y / 3]; }}\nfn {t}[<{n}>] same_{n}({t}[<{n}>] v) @noinline {{ return v; }}")
            red("returned by value", f"same_{n}(a)[{n - 1}]", lambda v: v[n - 1])
            if n < 2: continue
            K = g.k
            def each(desc, body, f, sz=n):
                """body: statements with a, giving r"""
                g.raw(f"{desc};{t}[<{n}>]", f"for (int k = 0; k < {len(vecs)}; k++) {{ {t}[<{n}>] a = ({t}[<{n}>])tv{K}[k]; {body} hexd(&r, {sz} * {t}.sizeof); }}", "".join(hx(f(v), t) for v in vecs))
            each("to array", f"{t}[{n}] r = ({t}[{n}])a;", lambda v: v)
            each("element read", f"{t}[{n}] r; for (int i = 0; i < {n}; i++) r[{n - 1} - i] = a[i];", lambda v: v[::-1])
            each("element read ^", f"{t}[{n}] r; for (int i = 0; i < {n}; i++) r[i] = a[^(i + 1)];", lambda v: v[::-1])
            each("element write", f"{t}[<{n}>] r; for (int i = 0; i < {n}; i++) r[i] = a[{n - 1} - i];", lambda v: v[::-1])
            each("constant element write", f"{t}[<{n}>] r = a; r[1] = a[0]; r[0] = a[{n - 1}];", lambda v: [v[n - 1], v[0]] + v[2:])
            each("scalar to vector", f"{t} s = a[1]; {t}[<{n}>] r = s;", lambda v: [v[1]] * n)
            each("foreach", f"{t}[{n}] r; foreach (i, x : a) r[i] = x;", lambda v: v)
            each("foreach address", f"{t}[<{n}>] r = a; foreach (i, &x : r) *x = a[{n - 1} - i];", lambda v: v[::-1])
            each("in a struct", f"Str{n} z; z.q = 1; z.v = a; z.p = 2; Str{n}* p = &z; p.v[1] = p.v[0]; {t}[<{n}>] r = p.v;", lambda v: [v[0], v[0]] + v[2:])
            g.pre.append(f"struct Str{n} {{ char q; {t}[<{n}>] v; char p; }}")
            each("in an array", f"{t}[<{n}>][3] z = {{ a, {{}}, a }}; z[1] = z[2]; z[2][0] = z[0][1]; {t}[<{n}>] r = z[1]; r[0] = z[2][0];", lambda v: [v[1]] + v[1:])
            if not fl or True:
                one = Fraction(1) if fl else 1
                def plus(v, i, d):
                    v = list(v)
                    v[i] = (fround(v[i] + d, t) if fl else wrap(v[i] + d, t))
                    return v
                each("element += and ++", f"{t}[<{n}>] r = a; r[0] += 1; r[1]++;", lambda v: plus(plus(v, 0, one), 1, one))
                each("element -- by index", f"{t}[<{n}>] r = a; int i = {n - 1}; r[i]--; --r[i - 1];", lambda v: plus(plus(v, n - 1, -one), n - 2, -one))
                each("vector ++", f"{t}[<{n}>] r = a; r++;", lambda v: functools.reduce(lambda x, i: plus(x, i, one), range(n), v))
                each("vector --", f"{t}[<{n}>] r = a; {t}[<{n}>] q = --r; {t}[<{n}>] q2 = r--; r = q2;", lambda v: functools.reduce(lambda x, i: plus(x, i, -one), range(n), v))
            eqs = [(v, w2) for v in vecs[:6] for w2 in [v] + [v[:i] + [next(x for x in V if x != v[i])] + v[i + 1:] for i in range(n)]]
            g.pre.append(f"{t}[{n}][2][*] te{K} = {{ {', '.join('{ ' + ', '.join('{ ' + ', '.join(lit(x, t) for x in z) + ' }' for z in p) + ' }' for p in eqs)} }};")
            g.raw(f"== and !=;{t}[<{n}>]", f"for (int k = 0; k < {len(eqs)}; k++) {{ {t}[<{n}>] a = ({t}[<{n}>])te{K}[k][0]; {t}[<{n}>] b = ({t}[<{n}>])te{K}[k][1]; ev_num((int)(a == b)); ev_num((int)(a != b)); }}",
                  "".join(f"{int(p[0] == p[1])},{int(p[0] != p[1])}," for p in eqs))
    # casts between element types
    g = gs["cast"] = G()
    for f in list(IT) + FL:
        for t in list(IT) + FL:
            if f == t: continue
            for n in (2, 3, 4) if not (f.endswith("128") or t.endswith("128")) else (2,):
                rows = [(v, c02.conv(v, f, t)) for v in vals(f)]
                rows = [r for r in rows if r[1] is not None and not (t in FT and (isinstance(r[1], float) or r[1] == 0))]
                g.add("cast", f"{f} to {t}", n, (f,), t, f"({t}[<{n}>])a", rows)
        for n in (2, 3, 5):
            g.add("cast to bool", f, n, (f,), "bool", f"(bool[<{n}>])a", [(v, v != 0) for v in vals(f)]) if f in IT else None
    for n in (2, 3, 4, 8):
        for op, fn in (("&", lambda a, b: a & b), ("|", lambda a, b: a | b), ("^", lambda a, b: a ^ b)):
            g.add(f"bool {op}", "bool", n, ("bool", "bool"), "bool", f"a {op} b", [(a, b, fn(a, b)) for a in (0, 1) for b in (0, 1)] * 3)
        g.add("bool ~", "bool", n, ("bool",), "bool", "~a", [(0, 1), (1, 0), (1, 0)])
        for vs in itertools.product((0, 1), repeat=n) if n < 8 else [tuple(int(i == j) for i in range(8)) for j in range(8)]:
            g.raw(f"bool reductions;bool[<{n}>]", f"bool[<{n}>] a = {{ {', '.join('true' if x else 'false' for x in vs)} }}; bool x = $$reduce_and(a); bool y = $$reduce_or(a); bool z = $$reduce_xor(a); ev_num((int)x); ev_num((int)y); ev_num((int)z);",
                  f"{int(all(vs))},{int(any(vs))},{sum(vs) % 2},")
    # swizzles
    for t in ("int", "char", "double", "long") if c.thorough else ("int", "double"):
        g = gs["sw" + t] = G()
        for n in (2, 3, 4, 6):
            m = min(n, 4)
            src = [10 + i for i in range(n)]
            g.pre.append(f"{t}[{n}] sr{n} = {{ {', '.join(map(str, src))} }};")
            for ln in (1, 2, 3, 4):
                for ix in itertools.product(range(m), repeat=ln):
                    for names in ("xyzw", "rgba") if ln <= 2 else (("xyzw", "rgba")[sum(ix) % 2],):
                        sw = "".join(names[i] for i in ix)
                        rt = t if ln == 1 else f"{t}[<{ln}>]"
                        g.raw(f"swizzle read;{t}[<{n}>].{sw}", f"{t}[<{n}>] a = ({t}[<{n}>])sr{n}; {rt} r = a.{sw}; hexd(&r, {ln} * {t}.sizeof);", hx([src[i] for i in ix], t))
                        if len(set(ix)) == ln and names == "xyzw" or ln == 1:
                            new = list(src)
                            for j, i in enumerate(ix): new[i] = 20 + j
                            val = "20" if ln == 1 else f"({rt}) {{ {', '.join(str(20 + j) for j in range(ln))} }}"
                            g.raw(f"swizzle write;{t}[<{n}>].{sw}", f"{t}[<{n}>] a = ({t}[<{n}>])sr{n}; a.{sw} = {val}; hexd(&a, {n} * {t}.sizeof);", hx(new, t))
                            new = list(src)
                            for j, i in enumerate(ix): new[i] = src[i] * (20 + j)
                            g.raw(f"swizzle compound;{t}[<{n}>].{sw}", f"{t}[<{n}>] a = ({t}[<{n}>])sr{n}; a.{sw} *= {val}; hexd(&a, {n} * {t}.sizeof);", hx(new, t))
                            new = list(src)
                            for j, i in enumerate(ix): new[i] = src[i] - 7
                            g.raw(f"swizzle compound scalar;{t}[<{n}>].{sw}", f"{t}[<{n}>] a = ({t}[<{n}>])sr{n}; {t}[<{n}>]* p = &a; p.{sw} -= 7; hexd(&a, {n} * {t}.sizeof);", hx(new, t))
        # two-level, of a call, of a member and $$swizzle with both operands
        g.pre.append(f"fn {t}[<4>] mk() @noinline {{ evt('m'); return {{ 1, 2, 3, 4 }}; }} struct Sv {{ char c; {t}[<4>] v; }}")
        for a, b in itertools.product(itertools.permutations(range(3)), itertools.product(range(3), repeat=2)):
            s1, s2 = "".join("xyz"[i] for i in a), "".join("xyz"[i] for i in b)
            r = [a[i] + 1 for i in b]
            g.raw(f"swizzle of a swizzle;{t}.{s1}.{s2}", f"{t}[<2>] r = mk().{s1}.{s2}; hexd(&r, 2 * {t}.sizeof);", "m" + hx(r, t))
            g.raw(f"swizzle of a member;{t}.{s2}", f"Sv q; q.v = mk(); Sv* p = &q; {t}[<2>] r = p.v.{s2}; p.v.{s1} = p.v.yzw; hexd(&r, 2 * {t}.sizeof); hexd(&q.v, 4 * {t}.sizeof);",
                  "m" + hx([i + 1 for i in b], t) + hx([{a[j]: 2 + j for j in range(3)}.get(i, i + 1) for i in range(4)], t))
        for ix in itertools.product(range(4), repeat=3):
            g.raw(f"$$swizzle;{ix}", f"{t}[<4>] a = mk(); {t}[<3>] r = $$swizzle(a, {', '.join(map(str, ix))}); hexd(&r, 3 * {t}.sizeof);", "m" + hx([i + 1 for i in ix], t))
        for ix in itertools.product(range(8), repeat=2):
            g.raw(f"$$swizzle2;{ix}", f"{t}[<4>] a = mk(); {t}[<4>] b = {{ 5, 6, 7, 8 }}; {t}[<2>] r = $$swizzle2(a, b, {ix[0]}, {ix[1]}); hexd(&r, 2 * {t}.sizeof);", "m" + hx([i + 1 for i in ix], t))
    return gs


PRE = "fn void hexb(int v) { evt(48); evt(48 + v); } fn void hexd(void* q, usz n) @noinline { char* p = q; for (int i = 0; i < n; i++) { int h = p[i] >> 4; int l = p[i] & 15; evt(h < 10 ? '0' + h : 'W' + h); evt(l < 10 ? '0' + l : 'W' + l); } evt(','); }\n"


def run(c):
    gs = build(c)
    opts = ("-O0", "-O1", "-O3") if c.thorough else ("-O0",)
    c.pmap(lambda x: c.run_cases("vec" + x[0], PRE + "\n".join(x[1].pre), x[1].cases, opts, shards=2 if len(x[1].cases) > 400 else 1), sorted(gs.items(), key=lambda x: -len(x[1].cases)), 8)
    upd = []
    for form, want in (("vv[0] = setv();", "7,9,3,4,"), ("int i = 2; vv[i] = setv();", "1,9,7,4,"), ("vv.xz = { setv(), 8 };", "7,9,8,4,"), ("vv[0] += setv();", None), ("int x = setv(); vv[0] = x;", "7,9,3,4,")):
        upd.append((f"vv = {{ 1, 2, 3, 4 }}; {form} for (int j = 0; j < 4; j++) ev_num(vv[j]);", want or {"8,9,3,4,"}, f"lost update;{form}"))
    c.run_cases("upd", "int[<4>] vv; fn int setv() @noinline { vv[1] = 9; return 7; }", upd, opts[:1])
    c.set(rule="distinct (operation, element type, length, values)", exhaustive=True, element_types=12)
    c.sample(gs["int"].cases[3][2])
    c.sample(gs["swint"].cases[30][2])
