import itertools
import re

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration: every initializer list of up to 3 designators (members, indices, ranges, nested paths, nested lists) x aggregate type x context, compiled and run, against a tree model"
NOTE = ("All sequences of designators up to the bound over arrays, nested arrays, structs (anonymous and nested members), arrays of structs, vectors and bitstructs, in every context (global, constant, static, local, "
        "assignment over old contents, argument, return, compound literal), with constant, run-time and mixed element values; the values' evaluation order and every leaf of the result are compared with a tree model.")


# ---- types: ("int", name) ("arr", n, T) ("vec", n, T) ("st", [(name or None, T)]) with a name to spell it
class T:
    def __init__(s, kind, name, n=0, of=None, mem=None):
        s.kind, s.name, s.n, s.of, s.mem = kind, name, n, of, mem


INT = T("int", "int")
CHAR = T("int", "char")
SHORT = T("int", "short")
LONG = T("int", "long")
U5 = T("int", "uint")


def arr(t, n): return T("arr", f"{t.name}[{n}]", n, t)


def zero(t):
    if t.kind == "int": return 0
    if t.kind in ("arr", "vec"): return [zero(t.of) for _ in range(t.n)]
    return {k: zero(m) for k, m in fields(t)}


def fields(t):
    """members with the anonymous ones' own name generated from their position"""
    return [(nm or f"${i}", m) for i, (nm, m) in enumerate(t.mem)]


def leaves(t, acc=""):
    """(access text, model path)"""
    if t.kind == "int":
        yield acc, ()
    elif t.kind in ("arr", "vec"):
        for i in range(t.n):
            for a, p in leaves(t.of, f"{acc}[{i}]"):
                yield a, (i,) + p
    else:
        for k, m in fields(t):
            for a, p in leaves(m, acc if k[0] == "$" else f"{acc}.{k}"):
                yield a, (k,) + p


def get(v, p):
    for x in p: v = v[x]
    return v


NI = T("st", "Ni", mem=[("x", INT), ("y", SHORT)])
AN = T("st", "", mem=[("x", INT), ("y", CHAR)])
TYPES = {
    "a4": T("arr", "int[4]", 4, INT),
    "c9": T("arr", "char[9]", 9, CHAR),
    "aa": arr(arr(INT, 2), 3),
    "v4": T("vec", "int[<4>]", 4, INT),
    "av": T("arr", "short[<2>][3]", 3, T("vec", "short[<2>]", 2, SHORT)),
    "st": T("st", "Sa", mem=[("a", INT), ("b", CHAR), ("n", NI), ("c", arr(INT, 3))]),
    "an": T("st", "San", mem=[("a", INT), (None, AN), ("z", LONG)]),
    "sa": arr(T("st", "Sb", mem=[("p", CHAR), ("q", arr(SHORT, 2)), ("r", NI)]), 2),
    "pk": T("st", "Spk", mem=[("b", CHAR), ("l", LONG), ("s", arr(NI, 2))]),
    "bs": T("st", "Bs", mem=[("lo", U5), ("mid", U5), ("hi", U5)]),
    "sbs": T("st", "Sbs", mem=[("f", T("st", "Bs", mem=[("lo", U5), ("mid", U5), ("hi", U5)])), ("k", INT)]),
}
DECLS = """struct Ni { int x; short y; }
struct Sa { int a; char b; Ni n; int[3] c; }
struct San { int a; struct { int x; char y; } long z; }
struct Sb { char p; short[2] q; Ni r; }
struct Spk @packed { char b; long l; Ni[2] s; }
bitstruct Bs : uint { uint lo : 0..6; uint mid : 7..20; uint hi : 21..31; }
struct Sbs { Bs f; int k; }
fn int vn(int k) @noinline { ev_num(k); return k; }
fn void dirty() @noinline { char[2048] x @noinit; char* p = &x; for (int i = 0; i < 2048; i++) p[i] = 0xAA; sink(&x); }
fn void sink(void* p) @noinline { }
"""


def alts(t, deep):
    """(designator text, [model paths], type of the target)"""
    out = []
    if t.kind in ("arr", "vec"):
        n = t.n
        idx = [0, 1, n - 1] if n < 5 else [0, 3, n - 1]
        for i in dict.fromkeys(idx): out.append((f"[{i}]", [(i,)], t.of))
        for a, b in dict.fromkeys([(0, 1), (1, n - 1), (0, n - 1), (1, 1)]):
            out.append((f"[{a}..{b}]", [(i,) for i in range(a, b + 1)], t.of))
    elif t.kind == "st":
        for k, m in fields(t):
            if k[0] == "$":
                out += [(d, [(k,) + p for p in ps], x) for d, ps, x in alts(m, 0)]
            else:
                out.append((f".{k}", [(k,)], m))
    if deep:
        for d, ps, m in list(out):
            if m.kind in ("arr", "st") and not (".." in d and deep < 2):
                for d2, ps2, m2 in alts(m, deep - 1):
                    if m.kind == "arr" and d2.count("..") and "0.." in d2: continue
                    out.append((d + d2, [p + q for p in ps for q in ps2], m2))
    return out


def vals(t):
    """value forms for a target: 'leaf', 'full', 'empty', 'part', 'var'"""
    if t.kind == "int": return ["leaf"]
    if t.kind == "vec": return ["full", "var", "empty"]
    return ["full", "empty", "part", "var"]


class Gen:
    def __init__(s, mode):
        s.k, s.mode, s.ev, s.setup = 0, mode, [], []

    def num(s, t=INT):
        s.k += 1
        k = s.k
        if s.mode == "const" or (s.mode == "mixed" and k % 2): return f"{k}", k
        s.ev.append(k)
        return (f"vn({k})" if t.name == "int" else f"({t.name})vn({k})"), k

    def value(s, t, form):
        if t.kind == "int": return s.num(t)
        if form == "empty": return "{}", zero(t)
        if form == "var":
            nm = f"w{len(s.setup)}"
            save, s.mode = s.mode, "const"
            txt, v = s.value(t, "full")
            s.mode = save
            s.setup.append((nm, t, txt))
            return nm, v
        if t.kind in ("arr", "vec"):
            if form == "full":
                xs = [s.value(t.of, "full") for _ in range(t.n)]
                return "{ " + ", ".join(x for x, _ in xs) + " }", [v for _, v in xs]
            x, v = s.value(t.of, "full")
            r = zero(t)
            r[1] = v
            return f"{{ [1] = {x} }}", r
        if form == "full":
            parts, r = [], {}
            for k, m in fields(t):
                if k[0] == "$":
                    ps, r2 = [], {}
                    for k2, m2 in fields(m):
                        x, v = s.value(m2, "full")
                        ps.append(x)
                        r2[k2] = v
                    parts += ps
                    r[k] = r2
                else:
                    x, v = s.value(m, "full")
                    parts.append(x)
                    r[k] = v
            return "{ " + ", ".join(parts) + " }", r
        k, m = [f for f in fields(t) if f[0][0] != "$"][-1]
        x, v = s.value(m, "full")
        r = zero(t)
        r[k] = v
        return f"{{ .{k} = {x} }}", r


def setp(tree, p, v):
    import copy
    for x in p[:-1]: tree = tree[x]
    tree[p[-1]] = copy.deepcopy(v)


def build(t, seq, mode):
    """(initializer text, events, resulting tree, setup)"""
    g = Gen(mode)
    if seq is None:
        txt, v = g.value(t, "full")
        return txt, g.ev, v, g.setup
    tree = zero(t)
    parts = []
    for (d, ps, m), form in seq:
        x, v = g.value(m, form)
        parts.append(f"{d} = {x}")
        for p in ps: setp(tree, p, v)
    return ("{ " + ", ".join(parts) + " }" if parts else "{}"), g.ev, tree, g.setup


def cases_for(c, key, t):
    A = alts(t, 2 if c.thorough else 1)
    full = [(a, f) for a in A for f in vals(a[2])]
    if len(full) > (60 if c.thorough else 26):
        # keep every designator; one aggregate form each in rotation, all forms in sequences of one
        slim = [(a, vals(a[2])[i % len(vals(a[2]))]) for i, a in enumerate(A)]
    else:
        slim = full
    seqs = [None, ()] + [(x,) for x in full] + list(itertools.product(slim, repeat=2))
    tri = slim if len(slim) <= 7 else [x for i, x in enumerate(slim) if i % (-(-len(slim) // (12 if c.thorough else 6))) == 0]
    seqs += list(itertools.product(tri, repeat=3))
    pre, cases = [DECLS], []
    N = t.name
    lv = list(leaves(t))
    pre.append(f"fn void dump({N}* p) @noinline {{ {N} x = *p; " + " ".join(f"ev_num((int)x{a});" for a, _ in lv) + " }")
    pre.append(f"fn void byval({N} x) @noinline {{ dump(&x); }}")
    pre.append(f"fn void byval2(long a, {N} x, int b) @noinline {{ ev_num((int)a); dump(&x); ev_num(b); }}")
    pre.append(f"struct Wrap {{ long h; {N} x; char t; }}")
    seen = set()
    for i, seq in enumerate(seqs):
        name = f"{key} " + (" ".join(d for (d, _, _), f in seq) if seq else "plain" if seq is None else "empty")
        for mode in ("const", "run", "mixed"):
            txt, ev, tree, setup = build(t, seq, mode)
            if mode != "const" and (not ev or (mode == "mixed" and (txt in seen))): continue
            seen.add(txt)
            var = bool(setup)
            dump = "".join(f"{get(tree, p)}," for _, p in lv)
            evs = "".join(f"{k}," for k in ev)
            st = " ".join(f"{w.name} {nm} = {x};" for nm, w, x in setup)
            def add(ctx, body, want): cases.append((f"{st} dirty(); {body}", want, f"{ctx} {name};{N} {txt}"))
            if mode == "const" and not var:
                pre.append(f"{N} g{i} = {txt};")
                pre.append(f"const {N} KC{i} = {txt};")
                add("global", f"dump(&g{i});", dump)
                add("constant", f"{N} x = KC{i}; dump(&x);", dump)
                if t.kind != "vec" and key not in ("bs",):
                    add("constant member", " ".join(f"ev_num((int)KC{i}{a});" for a, _ in lv), dump)
                add("static", f"static {N} x = {txt}; dump(&x);", dump)
                add("nested const", f"Wrap w = {{ 5, {txt}, 6 }}; dump(&w.x); ev_num((int)w.h + w.t);", dump + "11,")
            add("local", f"{N} x = {txt}; dump(&x);", evs + dump)
            if mode != "mixed" or len(seq or ()) < 3:
                add("assign", f"{N}[3] x @noinit; char* p = (char*)&x; for (int i = 0; i < $sizeof(x); i++) p[i] = 0x55; x[1] = {txt}; dump(&x[1]); ev_num(p[0]); ev_num(p[$sizeof(x) - 1]);", evs + dump + "85,85,")
                add("argument", f"byval({txt});", evs + dump)
            if mode != "mixed" and len(seq or ()) < 3:
                add("argument2", f"byval2(1, {txt}, 2);", evs + "1," + dump + "2,")
                add("return", f"{N} x = fn {N}() {{ {st} dirty(); return {txt}; }}(); dump(&x);", evs + dump)
                add("literal", f"{N}* x = &&({N}){txt}; dump(x);", evs + dump)
                add("nested", f"Wrap w = {{ 5, {txt}, 6 }}; dump(&w.x); ev_num((int)w.h + w.t);", evs + dump + "11,")
                add("nested designated", f"Wrap w = {{ .t = 6, .x = {txt}, .h = 5 }}; dump(&w.x); ev_num((int)w.h + w.t);", evs + dump + "11,")
                add("optional", f"{N}? o = {txt}; {N} x = o!!; dump(&x);", evs + dump)
    return "\n".join(pre), cases


# forms of their own
FORMS = [
    ("int[*] a = { 1, 2, 3 }; ev_num(a.len); ev_num(a[2]);", "3,3,"),
    ("int[*] a = { [3] = 7 }; ev_num(a.len); ev_num(a[0]); ev_num(a[3]);", "4,0,7,"),
    ("int[*] a = { [1..2] = 7, [0] = 4 }; ev_num(a.len); ev_num(a[0]); ev_num(a[1]); ev_num(a[2]);", "3,4,7,7,"),
    ("int[*] a = { [2] = vn(5), [0] = vn(6) }; ev_num(a.len); ev_num(a[0]); ev_num(a[1]); ev_num(a[2]);", "5,6,3,6,0,5,"),
    ("int[] s = { 1, vn(2), 3 }; ev_num((int)s.len); ev_num(s[0] + s[1] * 10 + s[2] * 100);", "2,3,321,"),
    ("int[] s = { [2] = vn(2), [0] = 1 }; ev_num((int)s.len); ev_num(s[0]); ev_num(s[1]); ev_num(s[2]);", "2,3,1,0,2,"),
    ("int[3][*] a = { [0][2] = 1 }; ev_num(a.len); ev_num(a[0][2]);", "1,1,"),
    ("int[3][*] a = { [1][0] = vn(1), [0][2] = vn(2) }; ev_num(a.len); ev_num(a[0][2]); ev_num(a[1][0]);", "1,2,2,2,1,"),
    ("Sa[*] a = { [1].c[2] = 1 }; ev_num(a.len); ev_num(a[1].c[2]);", "2,1,"),
    ("const int[2] KA = { 1, 2 }; int[2][2] x = { [0] = KA, [0][1] = 5, [1] = KA }; ev_num(x[0][0]); ev_num(x[0][1]); ev_num(x[1][1]); ev_num(KA[1]);", "1,5,2,2,"),
    ("const Ni KN = { 1, 2 }; Sa x = { .n = KN, .n.y = 5 }; ev_num(x.n.x); ev_num(x.n.y); ev_num(KN.y); Ni z = KN; ev_num(z.y);", "1,5,2,2,"),
    ("char[3][2] x = { [0] = \"abc\", [0][1] = 'x' }; ev_num(x[0][0]); ev_num(x[0][1]); ev_num(x[0][2]); ev_num(x[1][2]);", "97,120,99,0,"),
    ("char[3][2] x = { [0..1] = \"abc\", [0][1] = 'x' }; ev_num(x[0][0]); ev_num(x[0][1]); ev_num(x[0][2]); ev_num(x[1][1]);", "97,120,99,98,"),
    ("Uu[2] u = { [0..1].c = { [7] = 1 }, [1].c[0] = 2 }; ev_num(u[0].c[0]); ev_num(u[1].c[0]); ev_num(u[0].c[7]); ev_num(u[1].c[7]);", "0,2,1,1,"),
    ("Uu u = { .s = { 1, 2 }, .s.y = 3 }; ev_num(u.s.x); ev_num(u.s.y);", "1,3,"),
    ("Uu[2] u = { [0..1].s = { 1, 2 }, [1].s.y = 3 }; ev_num(u[0].s.y); ev_num(u[1].s.x);  ev_num(u[1].s.y);", "2,1,3,"),
    ("Uu u = { .s.y = 3, .s = {} }; ev_num(u.s.x); ev_num(u.s.y);", "0,0,"),
    ("int[] s = {}; ev_num((int)s.len);", "0,"),
    ("int[*][2] a = { { 1, 2, 3 }, { 4, 5, 6 } }; ev_num($sizeof(a)); ev_num(a[1][0]); ev_num(a[0][2]);", "24,4,3,"),
    ("int[<2>] v = { 8, 9 }; int[<4>] w = { 1, v, 2 }; ev_num(w[0]); ev_num(w[1]); ev_num(w[2]); ev_num(w[3]);", "1,8,9,2,"),
    ("int[<3>] v = { 7, 8, 9 }; int[<4>] w = { v, 2 }; ev_num(w[0]); ev_num(w[1]); ev_num(w[2]); ev_num(w[3]);", "7,8,9,2,"),
    ("int[<4>] w = { vec3(), vn(2) }; ev_num(w[0]); ev_num(w[1]); ev_num(w[2]); ev_num(w[3]);", "v2,4,5,6,2,"),
    ("int[<8>] w = { vec3(), vn(2), vec3(), 1 }; for (int i = 0; i < 8; i++) ev_num(w[i]);", "v2,v4,5,6,2,4,5,6,1,"),
    ("const int[<3>] V = { 7, 8, 9 }; int[<5>] w = { 1, V, 2 }; for (int i = 0; i < 5; i++) ev_num(w[i]);", "1,7,8,9,2,"),
    ("Uu u = { .d = 5 }; ev_num((int)u.d);", "5,"),
    ("Uu u = { .s = { 1, 2 } }; ev_num(u.s.x + u.s.y);", "3,"),
    ("Uu u = { .s.y = 4 }; ev_num(u.s.x); ev_num(u.s.y);", "0,4,"),
    ("Uu u = { .c[2] = 4 }; ev_num(u.c[0] + u.c[1] + u.c[3]); ev_num(u.c[2]);", "0,4,"),
    ("Uu u = { .c[2] = (char)vn(4) }; ev_num(u.c[0] + u.c[1] + u.c[3]); ev_num(u.c[2]);", "4,0,4,"),
    ("Uu[2] u = { [1].i = vn(4), [0] = { .c = { 1, 2, 3, 4, 5, 6, 7, 8 } } }; ev_num(u[0].c[7]); ev_num(u[1].i);", "4,8,4,"),
    ("char[4] s = \"abc\"; ev_num(s[0]); ev_num(s[3]); char[2][2] t = { \"a\", \"bc\" }; ev_num(t[0][1]); ev_num(t[1][1]);", "97,0,0,99,"),
    ("Sa x = { 1, 2, { 3, 4 }, { 5, 6, 7 } }; x = { x.c[2], (char)x.a, { x.n.y, (short)x.n.x }, { x.c[1], x.c[0], x.b } }; dumpsa(&x);", "7,1,4,3,6,5,2,"),
    ("Sa x = { 1, 2, { 3, 4 }, { 5, 6, 7 } }; x = { .c = x.c, .a = x.n.x, .n.x = x.a }; dumpsa(&x);", "3,0,1,0,5,6,7,"),
    ("int[3] x = { 1, 2, 3 }; x = { x[2], x[0], x[1] }; ev_num(x[0]); ev_num(x[1]); ev_num(x[2]);", "3,1,2,"),
    ("int[3] x = { 1, 2, 3 }; int[3]* p = &x; *p = { x[2], x[0], x[1] }; ev_num(x[0]); ev_num(x[1]); ev_num(x[2]);", "3,1,2,"),
    ("int[3] x = { 1, 2, 3 }; x = { [0..2] = x[1] }; ev_num(x[0]); ev_num(x[1]); ev_num(x[2]);", "2,2,2,"),
    ("int[3] x = { 1, 2, 3 }; x = (int[3]){ x[2], x[0], x[1] }; ev_num(x[0]); ev_num(x[1]); ev_num(x[2]);", "3,1,2,"),
    ("int[3] x = { 1, 2, 3 }; x = { rot(&x), x[0], 4 }; ev_num(x[0]); ev_num(x[1]); ev_num(x[2]);", "3,9,4,"),
    ("int[<3>] x = { 1, 2, 3 }; x = { x[2], x[0], x[1] }; ev_num(x[0]); ev_num(x[1]); ev_num(x[2]);", "3,1,2,"),
    ("Bs x = { .lo = 1, .mid = 2, .hi = 3 }; x = { .lo = x.hi, .hi = x.mid }; ev_num((int)x.lo); ev_num((int)x.mid); ev_num((int)x.hi);", "3,0,2,"),
    ("Sa[2] x = { { .a = 1 }, { .a = 2, .b = 5 } }; x = { x[1], x[0] }; dumpsa(&x[0]); dumpsa(&x[1]);", "2,5,0,0,0,0,0,1,0,0,0,0,0,0,"),
    ("Sa[2] x = { { .a = 1 }, { .a = 2, .b = 5 } }; x[0] = { .a = x[0].a + 1, .n = { x[0].a, 3 } }; dumpsa(&x[0]);", "2,0,1,3,0,0,0,"),
]
FPRE = DECLS + """
union Uu { int i; double d; Ni s; char[8] c; }
fn int[<3>] vec3() @noinline { evt('v'); return { 4, 5, 6 }; }
fn void dumpsa(Sa* p) @noinline { ev_num(p.a); ev_num(p.b); ev_num(p.n.x); ev_num(p.n.y); ev_num(p.c[0]); ev_num(p.c[1]); ev_num(p.c[2]); }
fn int rot(int[3]* p) @noinline { int r = (*p)[2]; (*p)[0] = 9; return r; }
"""
BAD = [
    ("int[4] a = { 1, 2 };", False), ("int[4] a = { 1, 2, 3, 4, 5 };", False), ("int[4] a = { [4] = 1 };", False), ("int[4] a = { [-1] = 1 };", False), ("int[4] a = { [2..1] = 1 };", False),
    ("int[4] a = { [2..4] = 1 };", False), ("int[4] a = { 1, [1] = 2, 3, 4 };", False), ("int[4] a = { [0] = 1, 2 };", False), ("Ni a = { 1 };", False), ("Ni a = { 1, 2, 3 };", False), ("Ni a = { .z = 1 };", False),
    ("Ni a = { .x = 1, 2 };", False), ("Ni a = { .x.y = 1 };", False), ("Ni a = { [0] = 1 };", False), ("int[4] a = { .x = 1 };", False), ("Sa a = { .n.z = 1 };", False), ("Sa a = { .c[3] = 1 };", False),
    ("int[4] a = { [0..3] = 1 };", True), ("int[4] a = {};", True), ("Ni a = {};", True), ("Sa a = { .c[0..2] = 1 };", True), ("San a = { 1, 2, 3, 4 };", True), ("San a = { 1, 2, 3 };", False), ("San a = { .x = 1 };", True),
    ("Uu a = { .i = 1, .d = 2 };", None), ("int a = { 1, 2 };", False), ("int* a = { 1 };", False), ("Bs a = { .lo = 1, .hi = 2 };", True), ("Bs a = { 1, 2 };", False), ("Bs a = { .lo = 128 };", False), ("char[2] a = { 256, 1 };", False),
    ("int[<4>] a = { 1, 2, 3 };", False), ("int[<2>] v; int[<4>] a = { v, v };", True), ("int[<2>] v; int[<3>] a = { v, v };", False), ("int i = 1; int[4] a = { [i] = 1 };", False),
    ("char[2] a = \"abc\";", False), ("char[3] a = \"abc\";", True), ("Sa[2] a = { [0].n.x = 1, [1].c[0..1] = 2 };", True), ("int[2][2] a = { { 1, 2 }, { 3 } };", False), ("int[2][2] a = { 1, 2, 3, 4 };", False),
]


def run(c):
    todo = [(k, *cases_for(c, k, t)) for k, t in TYPES.items()]
    opts = ("-O0", "-O1", "-O3") if c.thorough else ("-O0",)

    def one(x):
        k, pre, cases = x
        c.run_cases("init" + k, pre, cases, opts, shards=3 if c.thorough else 2)
    c.pmap(one, todo, 4)
    c.run_cases("forms", FPRE, [(b, w, "form " + b) for b, w in FORMS], ("-O0", "-O1", "-O3"), shards=1)
    from vlib.check import PRE
    mixed = [x for x in BAD if re.search(r"\[1\] = 2, 3|= 1, 2 }", x[0]) and x[0] not in ("Uu a = { .i = 1, .d = 2 };",)]
    decls = [f"fn void f{i}() {{ {b} }}" for i, (b, _) in enumerate(BAD)]
    good = [i for i, x in enumerate(BAD) if x not in mixed]
    res = dict(zip(good, c.verdicts("bad", PRE + "\n" + FPRE, [decls[i] for i in good])))
    # mixing the two kinds is an error of the parser, which then stops
    bad = [i for i, x in enumerate(BAD) if x in mixed]
    res.update(zip(bad, c.verdicts("mixed", PRE + "\n" + FPRE, [decls[i] for i in bad])))
    for i, ((b, ok), d) in enumerate(zip(BAD, decls)):
        e = res[i]
        if ok is not None and bool(e) == ok:
            c.violation(f"verdict:{b}", f"initializer {b}: {'accepted' if not e else 'rejected with ' + str(e)}", {"decl": d, "errors": e})
    c.set(rule="distinct (type, designator sequence, context, constness)", exhaustive=True, types=len(TYPES))
    c.sample(todo[5][2][500][2])
    c.sample(todo[7][2][900][2])
