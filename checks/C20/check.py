"""C20: contracts are checked on every call in safe mode.

Every contract of a list x every kind of function (function, method, optional, macro, generic, dynamic, operator, vararg...) x every body shape x
every way to call it x every pair of arguments of a range: a violated @require panics before the body runs, a violated @ensure after it, and
a call that violates neither gives the result and the effects it has without contracts. Constant arguments may be rejected instead, but
only if they violate the contract. The verdicts on [in]/[out]/[inout] parameters and null arguments for [&in] are checked the same way.
"""
import itertools

from vlib.check import PRE

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive exploration: all contracts of a list x kinds of function x body shapes x ways to call x argument values, each compiled and run by the real compiler, against an evaluator of the contract"
NOTE = "19 contracts (up to three @require and two @ensure), 14 kinds of function, 11 body shapes, 26 ways to call, arguments -1..3 (thorough: -2..4); 60 typed contracts; parameter directions: all bodies of a list x directions."

# contract text lines; a and b are replaced for the kinds where they have another name
CONTRACTS = [
    (["a > 0"], []),
    (["a > b"], []),
    (["a != 0 && b != 0"], []),
    (["a == 1 || b == 1"], []),
    (["a >= 0", "b >= 0"], []),
    (["a >= 0", "b >= 0", "a + b != 3"], []),
    (["a >= 0, b >= 0"], []),
    (["a >= b, a != 2 : \"text\""], []),
    (["pos(a)"], []),
    (["!pos(a) || @big(b)"], []),
    (["(a > 0 ? b : a) > -1"], []),
    (["cx(a) > 0"], []),
    ([], ["return > 0"]),
    ([], ["return > a"]),
    ([], ["return != b", "return != 4"]),
    (["a > 0"], ["return > 2"]),
    (["b != 1"], ["pos(return)"]),
    ([], ["return >= 0, return != 3"]),
    (["a != b", "b > 0"], ["return + b > a : \"text\""]),
]


def py(e):
    return e.split(":" if ' : "' in e else "\0")[0].replace("&&", " and ").replace("||", " or ").replace("!pos", " not pos").replace("@big", "big").replace("return", "ret")


class Viol(Exception):
    pass


def pos(a):
    return a > 0


def big(a):
    return a > 1


def cx(a):
    if a == 2:
        raise Viol
    return a + 1


def holds(lines, a, b, ret=None):
    for ln in lines:
        ln = ln.split(" : ")[0]
        parts = ln.split(", ") if "(" not in ln or "," in ln and "? " not in ln else [ln]
        for p in parts:
            e = py(p)
            if "?" in e:
                e = "(b if a > 0 else a) > -1"
            try:
                if not eval(e, {"pos": pos, "big": big, "cx": cx}, {"a": a, "b": b, "ret": ret}):
                    return False
            except Viol:
                return False
    return True


def result(a, b):
    return a * 3 - b * 2


BODIES = {
    "arrow": None,
    "ret": "evt('b'); return a * 3 - b * 2;",
    "two": "evt('b'); if (a > b) return a * 3 - b * 2; return a * 3 - b * 2;",
    "ifelse": "evt('b'); if (a > 1) { return a * 3 - b * 2; } else { return a * 3 - b * 2; }",
    "defer": "defer evt('d'); evt('b'); return a * 3 - b * 2;",
    "switch": "evt('b'); switch (a) { case 0: return a * 3 - b * 2; case 1: int z = b; return a * 3 - z * 2; default: break; } return a * 3 - b * 2;",
    "loop": "evt('b'); for (int i = 0; i < 5; i++) { if (i == 2) return a * 3 - b * 2; } return a * 3 - b * 2;",
    "while": "evt('b'); int n; while (true) { if (n++ == 2) return a * 3 - b * 2; }",
    "block": "evt('b'); { { int q = a * 3; { return q - b * 2; } } }",
    "local": "evt('b'); int ret = a * 3; ret -= b; ret -= b; return ret;",
    "macro": "evt('b'); return @m_inner(a, b);",
    "deferblock": "evt('b'); int q = a * 3; defer { q = 100; } return q - b * 2;",
    "ternary": "evt('b'); return a > 1 ? a * 3 - b * 2 : a * 3 - b * 2;",
    "nested": "evt('b'); foreach (i, v : (int[2]) { a, b }) { defer q_none(); if (i == 1) return a * 3 - v * 2; } return a * 3 - b * 2;",
}

HELP = """
struct Foo { int x; }
struct Foo2 { int pad; int x; }
interface Dyn { fn int dyn(int b); }
alias FnII = fn int(int, int);
alias FnOp = fn int?(int, int);
faultdef XX;
fn bool pos(int a) { return a > 0; }
macro @big(a) => a > 1;
<*
 @require a != 2
*>
fn int cx(int a) => a + 1;
macro @m_inner(a, b) { return a * 3 - b * 2; }
fn void q_none() {}
fn int id(int a) @noinline => a;
fn int? oid(int a) => a == 99 ? XX? : a;
"""


def doc(con, sub=None):
    lines = [f" @require {r}" for r in con[0]] + [f" @ensure {e}" for e in con[1]]
    if sub:
        import re
        for o, n in sub.items():
            lines = [re.sub(r"\b%s\b" % o, n, ln) for ln in lines]
    return "<*\n" + "\n".join(lines) + "\n*>\n" if lines else ""


def kinds(i, con, body, bname):
    """declarations by kind for contract i"""
    arrow = body is None
    bd = "=> a * 3 - b * 2;" if arrow else "{ " + body + " }"
    import re

    def selfed(s):
        return re.sub(r"\ba\b", "self.x", s)
    sf = selfed(bd)
    out = {
        "fn": doc(con) + f"fn int f{i}(int a, int b) {bd}",
        "method": f"struct Fm{i} {{ int x; }}\n" + doc(con, {"a": "self.x"}) + f"fn int Fm{i}.m(self, int b) {sf}",
        "refmethod": f"struct Fr{i} {{ int pad; int x; }}\n" + doc(con, {"a": "self.x"}) + f"fn int Fr{i}.m(&self, int b) {sf}",
        "optional": doc(con) + f"fn int? o{i}(int a, int b) " + (bd if arrow else "{ if (b == 7) return XX?; " + body + " }"),
        "macro": doc(con) + f"macro int m{i}(int a, int b) {bd}",
        "umacro": doc(con) + f"macro u{i}(a, b) {bd}",
        "atmacro": doc(con) + f"macro int @am{i}(int a, int b) {bd}",
        "default": doc(con) + f"fn int d{i}(int a, int b = 1) {bd}",
        "dynamic": f"struct Dy{i} (Dyn) {{ int x; }}\n" + doc(con, {"a": "self.x"}) + f"fn int Dy{i}.dyn(&self, int b) @dynamic {sf}",
        "operator": f"struct Op{i} {{ int x; }}\n" + doc(con, {"a": "self.x"}) + f"fn int Op{i}.plus(self, int b) @operator(+) {sf}",
        "index": f"struct Ix{i} {{ int x; }}\n" + doc(con, {"a": "self.x"}) + f"fn int Ix{i}.at(&self, int b) @operator([]) {sf}",
        "inline": doc(con) + f"fn int i{i}(int a, int b) @inline {bd}",
        "noinline": doc(con) + f"fn int ni{i}(int a, int b) @noinline {bd}",
        "extern": doc(con) + f"extern fn int x{i}(int a, int b) @extern(\"impl_{bname}_{i}\");",
        "mmethod": f"struct Mm{i} {{ int x; }}\n" + doc(con, {"a": "self.x"}) + f"macro int Mm{i}.m(&self, int b) {sf}",
    }
    return out


# name -> (kind, code; A and B are the argument expressions; the result is recorded)
CALLS = {
    "direct": ("fn", "ev_num({f}({A}, {B}));"),
    "named": ("fn", "ev_num({f}(a: {A}, b: {B}));"),
    "paren": ("fn", "ev_num(({f})({A}, {B}));"),
    "pointer": ("fn", "FnII p = &{f}; ev_num(p({A}, {B}));"),
    "pointerarr": ("fn", "FnII[2] p = {{ &{f}, &{f} }}; int ix = 1; ev_num(p[ix]({A}, {B}));"),
    "lambda": ("fn", "FnII p = fn (int x, int y) => {f}(x, y); ev_num(p({A}, {B}));"),
    "alias": ("fn", "ev_num(al{f}({A}, {B}));"),
    "splat": ("fn", "int[2] p = {{ {A}, {B} }}; ev_num({f}(...p));"),
    "if": ("fn", "if (bool z = {f}({A}, {B}) == 1) {{ ev_num(1); }} else {{ ev_num({R}); }}"),
    "while": ("fn", "int z = 1; while (z > 0) {{ z = 0; ev_num({f}({A}, {B})); }}"),
    "statement": ("fn", "{f}({A}, {B}); ev_num({R});"),
    "defer": ("fn", "{{ defer ev_num({f}({A}, {B})); evt('x'); }}"),
    "nested": ("fn", "ev_num(id({f}(id({A}), id({B}))));"),
    "sum": ("fn", "ev_num(0 + {f}({A}, {B}) * 1);"),
    "ternary": ("fn", "bool z = true; ev_num(z ? {f}({A}, {B}) : 0);"),
    "andor": ("fn", "bool z = true; ev_num((z && {f}({A}, {B}) == {R}) ? {R} : 77);"),
    "init": ("fn", "int[3] z = {{ [1] = {f}({A}, {B}) }}; ev_num(z[1]);"),
    "fromgeneric": ("fn", "ev_num(gg{f}{{int}}({A}, {B}));"),
    "inmacro": ("fn", "ev_num(@callm({f}, {A}, {B}));"),
    "macroexpr": ("fn", "ev_num(@exprm({f}({A}, {B})));"),
    "optarg": ("fn", "ev_num({f}(oid({A}), {B}) ?? 66);"),
    "attrinline": ("fn", "ev_num({f}({A}, {B}) @inline);"),
    "attrnoinline": ("fn", "ev_num({f}({A}, {B}) @noinline);"),
    "static": ("fn", "static int z; z = {f}({A}, {B}); ev_num(z);"),
    "method": ("method", "Fm{i} s = {{ {A} }}; ev_num(s.m({B}));"),
    "methodptr": ("method", "Fm{i} s = {{ {A} }}; Fm{i}* t = &s; ev_num(t.m({B}));"),
    "methodfn": ("method", "Fm{i} s = {{ {A} }}; ev_num(Fm{i}.m(s, {B}));"),
    "methodtemp": ("method", "ev_num(((Fm{i}){{ {A} }}).m({B}));"),
    "refmethod": ("refmethod", "Fr{i} s = {{ .x = {A} }}; ev_num(s.m({B}));"),
    "refmethodptr": ("refmethod", "Fr{i} s = {{ .x = {A} }}; Fr{i}* t = &s; ev_num(t.m({B}));"),
    "refmethodfield": ("refmethod", "Fr{i}[2] s = {{ [1] = {{ .x = {A} }} }}; ev_num(s[1].m({B}));"),
    "try": ("optional", "if (try z = {f}({A}, {B})) ev_num(z);"),
    "orelse": ("optional", "ev_num({f}({A}, {B}) ?? 55);"),
    "force": ("optional", "ev_num({f}({A}, {B})!!);"),
    "rethrow": ("optional", "ev_num(ret{f}({A}, {B}) ?? 44);"),
    "catch": ("optional", "if (catch z = {f}({A}, {B})) {{ evt('c'); }} else {{ ev_num({R}); }}"),
    "optpointer": ("optional", "FnOp p = &{f}; ev_num(p({A}, {B}) ?? 33);"),
    "macro": ("macro", "ev_num({f}({A}, {B}));"),
    "macrochain": ("macro", "ev_num(@callm({f}, {A}, {B}));"),
    "umacro": ("umacro", "ev_num({f}({A}, {B}));"),
    "atmacro": ("atmacro", "ev_num({f}({A}, {B}));"),
    "default": ("default", "ev_num({f}({A}, {B}));"),
    "defaulted": ("default", "ev_num({f}({A}));"),
    "dynamic": ("dynamic", "Dy{i} s = {{ {A} }}; Dyn t = &s; ev_num(t.dyn({B}));"),
    "dynstatic": ("dynamic", "Dy{i} s = {{ {A} }}; ev_num(s.dyn({B}));"),
    "operator": ("operator", "Op{i} s = {{ {A} }}; ev_num(s + {B});"),
    "index": ("index", "Ix{i} s = {{ {A} }}; ev_num(s[{B}]);"),
    "inline": ("inline", "ev_num({f}({A}, {B}));"),
    "noinline": ("noinline", "ev_num({f}({A}, {B}));"),
    "extern": ("extern", "ev_num({f}({A}, {B}));"),
    "mmethod": ("mmethod", "Mm{i} s = {{ {A} }}; ev_num(s.m({B}));"),
}
NAMES = {"fn": "f", "optional": "o", "macro": "m", "umacro": "u", "atmacro": "@am", "default": "d", "inline": "i", "noinline": "ni", "extern": "x"}
# which checks a call reaches the function with: through a pointer or an interface only the function's own


def expected(con, bname, call, a, b):
    if CALLS[call][0] in ("macro", "umacro", "atmacro", "mmethod", "extern"):
        con = (con[0], [])
    arrow = bname == "arrow"
    pre = "" if arrow else "b"
    post = "d" if bname == "defer" else ""
    lead = "x" if call == "defer" else ""
    if not holds(con[0], a, b):
        return (lead, "trap")
    r = result(a, b)
    # an @ensure of a macro is for results known at compile time
    if not holds(con[1], a, b, r):
        return {(lead + pre, "trap"), (lead + pre + post, "trap")}
    return lead + pre + post + f"{r},"


def programs(full):
    """(name, prelude, cases) per body shape"""
    vals = range(-2, 5) if full else range(-1, 4)
    for bname, body in BODIES.items():
        pre, cases, consts = [], [], []
        main = bname in ("ret", "arrow") or full
        for i, con in enumerate(CONTRACTS):
            if not main and i not in (0, 5) and not con[1]:
                continue
            ks = kinds(i, con, body, bname)
            if bname == "arrow":
                ks = kinds(i, con, None, bname)
            for k, d in ks.items():
                pre.append(d)
            pre.append(f"alias alf{i} = f{i};")
            pre.append(f"fn int? reto{i}(int a, int b) {{ int z = o{i}(a, b)!; return z; }}")
            for call, (kind, code) in CALLS.items():
                if kind == "umacro" and bname in ("loop", "while", "switch", "nested"):
                    pass
                if not main and call not in ("direct", "pointer", "method", "refmethod", "orelse", "macro", "umacro", "atmacro", "default", "dynamic", "operator", "inline", "mmethod", "extern"):
                    continue
                f = NAMES.get(kind, "") + str(i)
                for a, b in itertools.product(vals, repeat=2):
                    if call == "defaulted" and b != 1:
                        continue
                    args = dict(f=f, i=i, R=result(a, b))
                    exp = expected(con, bname, call, a, b)
                    if call == "if" and isinstance(exp, str):
                        pass
                    cases.append((f"int va = {a}; int vb = {b}; " + code.format(A="va", B="vb", **args), exp, f"{call};{bname} require {con[0]} ensure {con[1]} ({a}, {b})"))
                    # the error for a constant violation of a contract inside a contract is given where it is, not at the call
                    if main and not ("cx(a) > 0" in con[0] and a == 2) and call not in ("optarg", "inmacro", "macrochain", "macroexpr"):
                        consts.append((code.format(A=f"({a})", B=f"({b})", **args), exp, f"const:{call};{bname} require {con[0]} ensure {con[1]} ({a}, {b})"))
        gen = "module genm{Tx};\nimport fns;\n" + "\n".join(f"fn int ggf{i}(Tx a, Tx b) => fns::f{i}(a, b);" for i in range(len(CONTRACTS)) if f"fn int f{i}(" in "\n".join(pre))
        impl = "module impls;\nextern fn void evt(char c);\nextern fn void ev_num(int v);\nfn void q_none() {}\nmacro @m_inner(a, b) { return a * 3 - b * 2; }\n" + "\n".join(f"fn int xx{i}(int a, int b) @export(\"impl_{bname}_{i}\") " + ("=> a * 3 - b * 2;" if bname == "arrow" else "{ " + body + " }") for i in range(len(CONTRACTS)))
        prelude = impl + "\nmodule fns;\nextern fn void evt(char c);\n" + HELP + "\n".join(pre) + "\n" + gen + "\nmodule zz;\nimport fns, genm;\nmacro @callm(#f, x, y) => #f(x, y);\nmacro @exprm(#e) => #e;\n" + PRE + "\n"
        yield bname, prelude, cases, consts


def qualify(code):
    return code


# parameters, requires, ensures, body, [(arguments, ok)]
TYPED = [
    ("int* p", ["p != null"], [], "ev_num(1);", [("&gi", 1), ("gnull", 0)]),
    ("int[] s", ["s.len > 0"], [], "ev_num(1);", [("garr[0..1]", 1), ("gsl", 0)]),
    ("int[] s", ["s.len > 1 && s[1] == 2"], [], "ev_num(1);", [("garr[0..1]", 1), ("garr[0..0]", 0), ("garr[1..2]", 0), ("gsl", 0)]),
    ("int... s", ["s.len == 2"], [], "ev_num(1);", [("gi, gi", 1), ("gi", 0), ("gi, gi, gi", 0)]),
    ("String s", ["s.len > 0", "s[0] == 'a'"], [], "ev_num(1);", [("gstr", 1), ("gstr[1..]", 0), ("gempty", 0)]),
    ("double d", ["d >= 0.5"], [], "ev_num(1);", [("gd", 1), ("-gd", 0), ("gnan", 0)]),
    ("double d", ["!(d < 0.5)"], [], "ev_num(1);", [("gd", 1), ("-gd", 0), ("gnan", 1)]),
    ("bool f", ["f"], [], "ev_num(1);", [("gt", 1), ("!gt", 0)]),
    ("bool f", ["!f"], [], "ev_num(1);", [("gt", 0), ("!gt", 1)]),
    ("Ex e", ["e != Ex.B"], [], "ev_num(1);", [("gea", 1), ("geb", 0)]),
    ("Ex e", ["e.k > 3"], [], "ev_num(1);", [("gea", 0), ("geb", 1)]),
    ("uint u", ["u < 5"], [], "ev_num(1);", [("(uint)gi", 1), ("(uint)-gi", 0)]),
    ("char u", ["u != 255"], [], "ev_num(1);", [("(char)gi", 1), ("(char)-gi", 0)]),
    ("long u", ["u < 0x100000000"], [], "ev_num(1);", [("(long)gi", 1), ("(long)gi << 32", 0)]),
    ("int128 u", ["u < 0x100000000"], [], "ev_num(1);", [("(int128)gi", 1), ("(int128)gi << 100", 0)]),
    ("St s", ["s.x == 1"], [], "ev_num(1);", [("gs", 1), ("gs2", 0)]),
    ("St* s", ["s.x == 1"], [], "ev_num(1);", [("&gs", 1), ("&gs2", 0)]),
    ("St s", ["s.in.y[1] == 5"], [], "ev_num(1);", [("gs", 1), ("gs2", 0)]),
    ("int[3] s", ["s[2] == 3"], [], "ev_num(1);", [("garr", 1), ("garr2", 0)]),
    ("int[<2>] s", ["s[0] == 1"], [], "ev_num(1);", [("gv", 1), ("gv + gv", 0)]),
    ("any x", ["x.type == int.typeid"], [], "ev_num(1);", [("&gi", 1), ("&gd", 0), ("{}", 0)]),
    ("typeid t", ["t == int.typeid || t.sizeof == 8"], [], "ev_num(1);", [("int.typeid", 1), ("gtd", 1), ("gtc", 0)]),
    ("fault f", ["f == XX"], [], "ev_num(1);", [("gf", 1), ("gf2", 0)]),
    ("Di d", ["(int)d > 0"], [], "ev_num(1);", [("(Di)gi", 1), ("(Di)(-gi)", 0)]),
    ("Bs b", ["b.x == 3"], [], "ev_num(1);", [("gbs", 1), ("gbs2", 0)]),
    ("FnV f", ["f != null"], [], "f();", [("&one", 1), ("gfn", 0)]),
    ("int a", ["a > gi"], [], "ev_num(1);", [("2", 1), ("1", 0)]),
    ("int a", ["a > LIM"], [], "ev_num(1);", [("gi + 5", 1), ("gi", 0)]),
    ("int a, int b, int c, int d, int e, int f, int g, int h", ["h == 8", "a == 1"], [], "ev_num(1);", [("gi, 2, 3, 4, 5, 6, 7, 8", 1), ("gi, 2, 3, 4, 5, 6, 7, gi + 8", 0), ("gi + 1, 2, 3, 4, 5, 6, 7, 8", 0)]),
    ("int a", ["$typeof(a).sizeof == 4"], [], "ev_num(1);", [("gi", 1)]),
    ("int a", ["$defined(a.x) || a == 1"], [], "ev_num(1);", [("gi", 1), ("gi + 1", 0)]),
    ("int a", ["@ok(a)"], [], "ev_num(1);", [("gi", 1), ("gi + 1", 0)]),
]
# return type, ensure, body, [(argument, events, ok)]
ENSURES = [
    ("int*", ["return != null"], "evt('b'); return a ? &gi : null;", [(1, 1), (0, 0)]),
    ("int[]", ["return.len == 2"], "evt('b'); return garr[0..a];", [(1, 1), (0, 0), (2, 0)]),
    ("double", ["return > 0.0"], "evt('b'); return a ? 1.0 : gnan;", [(1, 1), (0, 0)]),
    ("St", ["return.x == 1"], "evt('b'); return a ? gs : gs2;", [(1, 1), (0, 0)]),
    ("St", ["return.in.y[1] == 5"], "evt('b'); return a ? gs : gs2;", [(1, 1), (0, 0)]),
    ("St*", ["return.x == 1"], "evt('b'); return a ? &gs : &gs2;", [(1, 1), (0, 0)]),
    ("int?", ["return == 3"], "evt('b'); if (a == 2) return XX?; return a + 2;", [(1, 1), (0, 0), (2, 2)]),
    ("St?", ["return.x == 1"], "evt('b'); if (a == 2) return XX?; return a ? gs : gs2;", [(1, 1), (0, 0), (2, 2)]),
    ("int?", ["return == 3"], "evt('b'); int z = oo(a)!; return z;", [(1, 1), (0, 0), (2, 2)]),
    ("int?", ["return == 3"], "evt('b'); return oo(a);", [(1, 1), (0, 0), (2, 2)]),
    ("int?", ["return == 3"], "evt('b'); return oo(a) ?? 4;", [(1, 1), (0, 0), (2, 0)]),
    ("Ex", ["return == Ex.B"], "evt('b'); return a ? Ex.B : Ex.A;", [(1, 1), (0, 0)]),
    ("bool", ["return"], "evt('b'); return a != 0;", [(1, 1), (0, 0)]),
    ("char", ["return < 9"], "evt('b'); return (char)(a - 1);", [(1, 1), (0, 0)]),
    ("any", ["return.type == int.typeid"], "evt('b'); if (a) return &gi; return &gd;", [(1, 1), (0, 0)]),
    ("int", ["return > a", "return < 3"], "evt('b'); return a * 2;", [(1, 1), (0, 0), (2, 0)]),
    ("void", ["gw > 0"], "evt('b'); gw = a;", [(1, 1), (0, 0)]),
    ("void", ["gw > 0"], "evt('b'); gw = a; if (a == 1) return; gw = 0; if (a == 2) { gw = 4; return; }", [(1, 1), (0, 0), (2, 1), (3, 0)]),
    ("void?", ["gw > 0"], "evt('b'); gw = a; if (a == 2) { gw = 0; return XX?; } gw = a;", [(1, 1), (0, 0), (2, 2)]),
]
TPRE = """
enum Ex : (int k) { A = 2, B = 5 }
struct In { int[2] y; }
struct St { char c; int x; In in; long[4] z; }
typedef Di = int;
bitstruct Bs : int { int x : 2..5; }
alias FnV = fn void();
fn void one() { ev_num(1); }
faultdef XX, YY;
int gi = 1; int* gnull; int[3] garr = { 1, 2, 3 }; int[3] garr2; int[] gsl; String gstr = "ab"; String gempty; double gd = 1.0; double gzero; double gnan = double.nan; bool gt = true; int gw;
Ex gea = Ex.A; Ex geb = Ex.B; St gs = { .x = 1, .in.y[1] = 5 }; St gs2; int[<2>] gv = { 1, 2 }; typeid gtd = double.typeid; typeid gtc = char.typeid; fault gf = XX; fault gf2 = YY; Bs gbs = { .x = 3 }; Bs gbs2; FnV gfn;
const LIM = 3;
macro bool @ok(x) => x == 1;
fn int? oo(int a) { if (a == 2) return XX?; return a + 2; }
"""


def typed(c, opts):
    pre, cases = [], []
    for i, (params, req, ens, body, calls) in enumerate(TYPED):
        pre.append(doc((req, ens)) + f"fn void ty{i}({params}) {{ {body} }}")
        names = ", ".join(p.split(" ")[-1] for p in params.split(", "))
        if "..." not in params:
            pre.append(doc((req, ens)) + f"macro void tm{i}({params}) {{ {body} }}")
            pre.append(f"alias TyF{i} = fn void({params});")
            pre.append(doc((req, ens)) + f"macro void tu{i}({names}) {{ {body} }}")
        for args, ok in calls:
            exp = "1," if ok else ("", "trap")
            cases.append((f"ty{i}({args});", exp, f"typed:fn:{i};{params} require {req} called with {args}"))
            if "..." in params:
                continue
            cases.append((f"tm{i}({args});", exp, f"typed:macro:{i};{params} require {req} called with {args}"))
            cases.append((f"TyF{i} p = &ty{i}; p({args});", exp, f"typed:pointer:{i};{params} require {req} called with {args}"))
            cases.append((f"defer ty{i}({args});", exp, f"typed:defer:{i};{params} require {req} called with {args}"))
            if args != "{}" and not (params == "any x"):
                cases.append((f"tu{i}({args});", exp, f"typed:umacro:{i};{params} require {req} called with {args}"))
    for i, (ret, ens, body, calls) in enumerate(ENSURES):
        pre.append(doc(([], ens)) + f"fn {ret} en{i}(int a) {{ {body} }}")
        pre.append(doc(([], ens)) + f"fn {ret} ed{i}(int a) {{ defer evt('d'); {body} }}")
        pre.append(f"alias EnF{i} = fn {ret}(int);")
        pre.append(f"struct Sn{i} {{ int q; }}\n" + doc(([], ens)) + f"fn {ret} Sn{i}.en(&self, int a) {{ {body} }}")
        opt = ret.endswith("?")
        for a, ok in calls:
            for way, code in (("fn", f"en{i}(va)"), ("pointer", f"p(va)"), ("defer", f"ed{i}(va)"), ("method", "s.en(va)")):
                head = f"int va = {a}; " + (f"EnF{i} p = &en{i}; " if way == "pointer" else f"Sn{i} s; " if way == "method" else "")
                d = "d" if way == "defer" else ""
                if opt:
                    code = f"if (catch {code}) {{ evt('c'); }} else {{ evt('k'); }}"
                    exp = ("b" + d + ("k" if ok == 1 else "c")) if ok else {("b", "trap"), ("b" + d, "trap")}
                else:
                    code = f"{code}; evt('k');" if ret == "void" else f"{ret} z = {code}; evt('k');"
                    exp = "b" + d + "k" if ok else {("b", "trap"), ("b" + d, "trap")}
                cases.append((head + code, exp, f"ensure:{way}:{i};{ret} ensure {ens} with {a}"))
    c.run_cases("typed", TPRE + "\n".join(pre), cases, opts, shards=4)
    return len(cases)


def ctmacros(c):
    """Compile time arguments: what violates a contract, @ensure too, is rejected, everything else runs."""
    pre, calls = HELP, []
    for i, con in enumerate(CONTRACTS):
        if any("cx(" in r or "pos(" in r for r in con[0] + con[1]):
            continue
        pre += doc(con, {"a": "$a", "b": "$b"}) + f"macro ct{i}($a, $b) => $a * 3 - $b * 2;\n" + doc(con, {"a": "$a", "b": "$b"}) + f"macro int cu{i}(int $a, int $b) {{ $if $a > $b: return $a * 3 - $b * 2; $else return $a * 3 - $b * 2; $endif }}\n"
        for a, b in itertools.product(range(-2, 5), repeat=2):
            ok = holds(con[0], a, b) and holds(con[1], a, b, result(a, b))
            for m in ("ct", "cu"):
                calls.append((f"ev_num({m}{i}({a}, {b}));", ok, f"{result(a, b)},", f"ctmacro:{m};{con} ({a}, {b})"))
    import os

    # an @ensure is reported where the contract is: a compilation for each call
    def one(a):
        k, x = a
        path = os.path.join(c.dir, f"ct{k}.c3")
        with open(path, "w") as f:
            f.write("module t;\n" + pre + PRE + f"fn void c{k}() {{ {x[0]} }}\n")
        code, out = c.run([c.c3c, "compile-only", "-C", "--use-stdlib=no", path], 20)
        os.unlink(path)
        return [] if code == 0 else [c.errors(out.decode("utf-8", "replace")) or f"exit {code}"]
    errs = c.pmap(one, list(enumerate(calls)))
    for (code, ok, exp, desc), er in zip(calls, errs):
        if ok == bool(er):
            c.violation(desc.split(";")[0], f"{desc}: " + (f"rejected: {er[0]}" if er else "accepted"), {"prelude": pre, "code": code})
    c.run_cases("ctrun", pre, [(x[0], x[2], x[3]) for x, er in zip(calls, errs) if x[1] and not er])
    return len(calls)


def directions(c, opts):
    """[in] is not written, [out] not read, & not null."""
    decls, exp = [], []
    bodies = {  # statement -> (reads, writes)
        "int z = *p;": (1, 0), "*p = 1;": (0, 1), "*p += 1;": (1, 1), "(*p)++;": (1, 1), "p[0] = 1;": (0, 1), "int z = p[0];": (1, 0), "int z = p[1] + 2;": (1, 0), "p[1] = 3;": (0, 1),
        "if (*p > 1) {}": (1, 0), "return;": (0, 0), "if (!p) return;": (0, 0), "p[0] -= 1;": (1, 1), "*p ^= *p;": (1, 1), "int* q = null; q = q;": (0, 0),
    }
    for d in ("in", "out", "inout"):
        for nul in ("", "&"):
            for b, (r, w) in bodies.items():
                k = len(decls)
                decls.append((f"<*\n @param [{nul}{d}] p\n*>\nfn void dd{k}(int* p) {{ {b} }}"))
                ok = not (d == "in" and w) and not (d == "out" and r and not w)
                exp.append(None if d == "out" and r and w else ok)
    return decls, exp


def run(c):
    full = c.tier == "thorough"
    opts = ("-O0", "-O1") if full else ("-O0",)
    n = 0
    for bname, prelude, cases, consts in programs(full):
        cases = [(fix(b), e, d) for b, e, d in cases]
        c.run_cases(f"con{bname}", prelude, cases, opts, shards=24)
        n += len(cases)
        if consts:
            consts = [(fix(b), e, d) for b, e, d in consts]
            errs = c.verdicts(f"const{bname}", prelude, [f"fn void c{k}(void* z_) {{ {b} }}" for k, (b, _, _) in enumerate(consts)], shards=24)
            keep = []
            for (b, e, d), er in zip(consts, errs):
                if er and isinstance(e, str):
                    c.violation(f"const:rejected:{d.split(';')[0]}", f"{d}: the contract holds but the call is rejected: {er[0]} | {b}", {"prelude": prelude, "body": b})
                elif not er:
                    keep.append((b, e, d))
            c.add(const_calls=len(consts), const_rejected=len(consts) - len(keep))
            c.run_cases(f"cok{bname}", prelude, keep, opts, shards=24)
            n += len(keep)
    n += ctmacros(c)
    n += typed(c, ("-O0", "-O1"))
    decls, exp = directions(c, opts)
    import os

    def one(a):
        k, d = a
        path = os.path.join(c.dir, f"dir{k}.c3")
        with open(path, "w") as f:
            f.write("module t;\n" + d + "\n")
        return c.run([c.c3c, "compile-only", "-C", "--use-stdlib=no", path], 20)
    for d, ok, (code, out) in zip(decls, exp, c.pmap(one, list(enumerate(decls)))):
        if ok is not None and (code == 0) != ok or code not in (0, 1):
            c.violation(f"direction:{d.split('[')[1].split(']')[0]}:{d.split('{')[1].strip(' }')}", f"{d}: exit {code}, want {'accepted' if ok else 'rejected'}: {out.decode()[-200:]}", {"source": d})
    npre = "\n".join(f"<*\n @param [&{d}] p\n*>\nfn void nn_{d}(int* p) {{ evt('b'); }}\nalias NnF{d} = fn void(int*);\nstruct Ns{d} {{ int x; }}\n<*\n @param [&{d}] p\n*>\nfn void Ns{d}.m(&self, int* p) {{ evt('b'); }}\n<*\n @param [&{d}] p\n*>\nmacro void nm_{d}(int* p) {{ evt('b'); }}" for d in ("in", "out", "inout"))
    ncases = []
    for d in ("in", "out", "inout"):
        for p, ok in (("&x", 1), ("q", 0), ("r", 1)):
            for way, code in (("fn", f"nn_{d}({p});"), ("pointer", f"NnF{d} f = &nn_{d}; f({p});"), ("method", f"Ns{d} s; s.m({p});"), ("macro", f"nm_{d}({p});"), ("defer", f"defer nn_{d}({p});")):
                ncases.append((f"int x = 1; int* q = null; int* r = &x; {code}", "b" if ok else ("", "trap"), f"null:{way}:{d};{p}"))
    c.run_cases("null", npre, ncases, ("-O0", "-O1"))
    c.add(directions=len(decls))
    c.set(rule="a violated @require panics before the body, a violated @ensure after it, otherwise nothing changes; a rejected constant call violates", exhaustive=True)
    c.sample("@require a >= 0; @require b >= 0; @require a + b != 3; p = &f; p(1, 2) panics before the body")


def fix(b):
    import re
    # functions and aliases of the module fns are named with it; types and macros with @ are not ambiguous
    return re.sub(r"(?<![\w@:.])((?:al)?[foudmix]\d+|ni\d+|ret[fo]\d+|oid|id)\b(?=\s*[(;,\s)}])", r"fns::\1", re.sub(r"@am(\d+)", r"fns::@am\1", re.sub(r"\bggf(\d+)\{", r"genm::ggf\1{", b)))
