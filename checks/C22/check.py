"""Compile-time execution: every bounded sequence of compile-time list / string / scalar operations and every bounded
nesting of compile-time control flow, against a value-semantics interpreter."""

import itertools
import os
import re

from vlib.check import PRE as EV

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive exploration of compile-time programs executed by the real compiler: all operation sequences up to a depth over compile-time "
             "lists in every internal representation, strings, scalars and control-flow nestings, against a value-semantics interpreter")
NOTE = ("The compiler is the implementation under exploration: each generated program runs inside it ($-variables, $if/$switch/$for/$foreach, folding), "
        "its observations are printed by the compiled program and compared with a Python interpreter of the same program. Bounds: depth and alphabet below.")

OBS = """
macro @obs($v) { evt('['); $foreach $e : $v: ev_num((int)$e); $endforeach; evt(']'); }
macro @obs2($v) { evt('<'); $for var $i = 0; $i < $v.len; $i++: @obs($v[$i]); $endfor; evt('>'); }
macro @obsi($v) { evt('{'); $foreach $i, $e : $v: ev_num((int)$i * 1000 + (int)$e); $endforeach; evt('}'); }
struct St { int a; int[3] arr; }
const int[3] CA = { 11, 12, 13 };
const int[4] CS = { [2] = 9 };
const int[2] CZ = {};
const int[2][3] CM = { { 1, 2 }, { 3, 4 }, { 5, 6 } };
const St CT = { 7, { 21, 22, 23 } };
const St CU = { .arr = { [1] = 8 } };
macro @alter($x) { $x[0] = 91; @obs($x); }
macro @grow($x) { $x = $x +++ 4; @obs($x); }
"""
ALL = "@obs(CA); @obs(CS); @obs(CZ); @obs2(CM); @obs(CT.arr); @obs(CU.arr);"


def obs(l):
    return "[" + "".join(f"{x}," for x in l) + "]"


def obs2(l):
    return "<" + "".join(obs(x) for x in l) + ">"


ALLV = obs([11, 12, 13]) + obs([0, 0, 9, 0]) + obs([0, 0]) + obs2([[1, 2], [3, 4], [5, 6]]) + obs([21, 22, 23]) + obs([0, 8, 0])

# name: (expression, value, kind) with kind a(rray) s(lice) u(ntyped) v(ector)
STARTS = {
    "zero": ("(int[3]){}", [0, 0, 0], "a"), "sparse": ("(int[4]){ [1] = 5 }", [0, 5, 0, 0], "a"), "full": ("(int[2]){ 1, 2 }", [1, 2], "a"),
    "slice": ("(int[]){ 3, 4 }", [3, 4], "s"), "untyped": ("{ 7, 8 }", [7, 8], "u"), "constfull": ("CA", [11, 12, 13], "a"),
    "constsparse": ("CS", [0, 0, 9, 0], "a"), "constzero": ("CZ", [0, 0], "a"), "constslice": ("CA[1..2]", [12, 13], "s"), "sparseslice": ("CS[1..3]", [0, 9, 0], "s"),
    "emptyslice": ("(int[]){}", [], "s"), "vec": ("(int[<2>]){ 5, 6 }", [5, 6], "v"), "vecsparse": ("(int[<3>]){ [2] = 4 }", [0, 0, 4], "v"),
    "empty": ("{}", [], "u"), "row": ("CM[1]", [3, 4], "a"), "member": ("CT.arr", [21, 22, 23], "a"), "sparsemember": ("CU.arr", [0, 8, 0], "a"),
    "range": ("(int[5]){ [1..3] = 6 }", [0, 6, 6, 6, 0], "a"),
}


def ops(v):
    """(name, statement, new value, extra events) for the list value v of $x"""
    n = len(v)
    o = [("app", "$x = $x +++ 9;", v + [9], "")]
    for k, (t, w, _) in STARTS.items():
        o += [("cat." + k, f"$x = $x +++ {t};", v + w, ""), ("pre." + k, f"$x = {t} +++ $x;", w + v, "")]
    o += [("dup", "$x = $x +++ $x;", v + v, "")]
    if n >= 2:
        o += [("s1", "$x = $x[1..];", v[1:], ""), ("s2", "$x = $x[..0];", v[:1], ""), ("s3", "$x = $x[1:1];", v[1:2], ""), ("s4", "$x = $x[^1..];", v[-1:], ""),
              ("s5", "$x = $x[:1];", v[:1], ""), ("s6", "$x = $x[..^2];", v[:n - 1], ""), ("s7", "$x = $x[0..1];", v[:2], ""), ("s0", "$x = $x[1:0];", [], ""),
              ("set", "$x[1] = 77;", [v[0], 77] + v[2:], ""), ("add", "$x[0] += 3;", [v[0] + 3] + v[1:], ""), ("inc", "$x[1]++;", [v[0], v[1] + 1] + v[2:], ""),
              ("predec", "ev_num(--$x[1]);", [v[0], v[1] - 1] + v[2:], f"{v[1] - 1},"),
              ("dec", "ev_num($x[1]--);", [v[0], v[1] - 1] + v[2:], f"{v[1]},"), ("setl", "$x[^1] = 66;", v[:-1] + [66], ""),
              ("mac", "@alter($x);", v, obs([91] + v[1:])), ("grow", "@grow($x);", v, obs(v + [4])), ("mul", "$x[1] *= -2;", [v[0], v[1] * -2] + v[2:], "")]
    return o


def lists(c):
    cases = []
    seen2 = 0
    deep = []
    for k, (t, v, kind) in STARTS.items():
        for nm, s, w, ev in ops(v):
            obsi = "{" + "".join(f"{i * 1000 + x}," for i, x in enumerate(w)) + "}"
            deep.append((f"var $x = {t}; var $y = $x; {s} @obs($x); @obs($y); ev_num((int)$x.len); @obsi($x); {ALL}", ev + obs(w) + obs(v) + f"{len(w)}," + obsi + ALLV, f"list1:{k}:{nm}"))
    cases += deep
    # the second operation after each first one; the starting values are a subset in quick
    firsts = list(STARTS) if c.thorough else ["zero", "sparse", "full", "slice", "untyped", "constfull", "constsparse", "vec", "row"]
    for k in firsts:
        t, v, kind = STARTS[k]
        for n1, s1, v1, e1 in ops(v):
            if not c.thorough and n1[:4] in ("cat.", "pre.") and n1[4:] not in ("zero", "sparse", "full", "slice", "untyped", "constsparse", "emptyslice"):
                continue
            for n2, s2, v2, e2 in ops(v1):
                if not c.thorough and n2[:4] in ("cat.", "pre.") and n2[4:] not in ("zero", "constsparse", "full"):
                    continue
                cases.append((f"var $x = {t}; {s1} var $y = $x; {s2} @obs($x); @obs($y); {ALL if seen2 % 16 == 0 else ''}", e1 + e2 + obs(v2) + obs(v1) + (ALLV if seen2 % 16 == 0 else ""), f"list2:{k}:{n1}:{n2}"))
                seen2 += 1
    return cases



# --- strings and byte arrays ---
def esc(b):
    return "".join(chr(x) if 32 <= x < 127 and x not in (34, 92) else f"\\x{x:02x}" if x < 128 else None for x in b)


STR = {"e": ('""', b"", 0), "ab": ('"ab"', b"ab", 0), "u": ('"h\\u00e9"', "h\u00e9".encode(), 0), "nul": ('"a\\0b"', b"a\0b", 0), "raw": ("`q\\`", b"q\\", 0), "const": ("SC", b"const", 0),
       "b": ("x'00ff'", b"\0\xff", 1), "bc": ("BC", b"\1\2\3\4", 1), "b64": ("b64'aGk='", b"hi", 1)}
SPRE = """const String SC = "const"; const char[*] BC = x'01020304';
macro @obs($v) { evt('['); $foreach $e : $v: ev_num((int)$e); $endforeach; evt(']'); }
macro @run($v, int $n) { char[] q = $v; evt('{'); for (int i = 0; i < $n; i++) ev_num(q[i]); evt('}'); }
"""


def sops(v, isb):
    n = len(v)
    o = [("ap", "$x = $x +++ 'z';", v + b"z"), ("uni", "$x = $x +++ 233;", v + (b"\xe9" if isb else "\u00e9".encode())), ("dup", "$x = $x +++ $x;", v + v)]
    for k, (t, w, b) in STR.items():
        o.append(("cat." + k, f"$x = $x +++ {t};", v + w))
        if b == isb:
            o.append(("pre." + k, f"$x = {t} +++ $x;", w + v))
    if not isb:
        o.append(("wide", "$x = $x +++ 0x1F600;", v + "\U0001F600".encode()))
    if n >= 2:
        o += [("s1", "$x = $x[1..];", v[1:]), ("s2", "$x = $x[:1];", v[:1]), ("s3", "$x = $x[^1..];", v[-1:]), ("s4", "$x = $x[..^2];", v[:-1]), ("s5", "$x = $x[0..1];", v[:2]),
              ("set", "$x[1] = 'Q';", v[:1] + b"Q" + v[2:]), ("setl", "$x[^1] = 'R';", v[:-1] + b"R"), ("inc", "$x[0]++;", bytes([(v[0] + 1) & 255]) + v[1:])]
    return o


def strings(c):
    cases = []
    bo = lambda b: "[" + "".join(f"{x}," for x in b) + "]"
    fin = bo(b"const") + bo(b"\1\2\3\4")
    for k, (t, v, isb) in STR.items():
        for n1, s1, v1 in sops(v, isb):
            if not v1: continue
            cases.append((f"var $x = {t}; var $y = $x; {s1} @obs($x); @obs($y); ev_num((int)$x.len); @run($x, {len(v1)}); @obs(SC); @obs(BC);",
                          bo(v1) + bo(v) + f"{len(v1)}," + "{" + "".join(f"{x}," for x in v1) + "}" + fin, f"str1:{k}:{n1}"))
            for n2, s2, v2 in sops(v1, isb):
                if not v2: continue
                cases.append((f"var $x = {t}; {s1} var $y = $x; {s2} @obs($x); @obs($y); @run($x, {len(v2)});", bo(v2) + bo(v1) + "{" + "".join(f"{x}," for x in v2) + "}", f"str2:{k}:{n1}:{n2}"))
    return cases


# --- scalars: the same statements on a $-variable and on a run-time one ---
TY = {"ichar": (8, 1), "char": (8, 0), "short": (16, 1), "ushort": (16, 0), "int": (32, 1), "uint": (32, 0), "long": (64, 1), "ulong": (64, 0), "int128": (128, 1), "uint128": (128, 0)}


def wrap(v, t):
    w, s = TY[t]
    v &= (1 << w) - 1
    return v - (1 << w) if s and v >> (w - 1) else v


def scalars(c):
    """Pairs (body, expected): every sequence of <=2 updates from the edge values of every integer type."""
    cases = []
    upd = [("+= 1", lambda v, t: v + 1), ("-= 1", lambda v, t: v - 1), ("*= 3", lambda v, t: v * 3), ("<<= 3", lambda v, t: v << 3), (">>= 2", lambda v, t: v >> 2),
           ("|= 5", lambda v, t: v | 5), ("&= 6", lambda v, t: v & 6), ("^= 9", lambda v, t: v ^ 9), ("/= 3", lambda v, t: (abs(v) // 3) * (1 if v >= 0 else -1)),
           ("%= 7", lambda v, t: (abs(v) % 7) * (1 if v >= 0 else -1)), ("++", lambda v, t: v + 1), ("--", lambda v, t: v - 1)]
    for t, (w, s) in TY.items():
        small = w < 32
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        for st in sorted({lo, lo + 1, hi, hi - 1, 0, 1, 42 & hi}):
            lit = f"({t})" + (f"({st + 1} - 1)" if st == lo and s else str(st))
            if w == 128:
                lit = f"{t}.max" if st == hi else f"({t}.max - ({t})1)" if st == hi - 1 else f"({t}.min + ({t})1)" if st == lo + 1 and s else lit
            if st == lo and s:
                lit = f"{t}.min"
            U = [(x if len(x) == 2 else f"{x[:x.index(' ')]} ({t})({x[x.index(' ') + 1:]})", f) for x, f in upd if not small or x in ("++", "--")]
            for (a, fa) in U:
                va = wrap(fa(st, t), t)
                for (b, fb) in U if c.thorough or t in ("ichar", "char", "int", "uint", "long") else U[:1]:
                    vb = wrap(fb(va, t), t)
                    hi64 = (vb >> 64) if w == 128 else 0
                    o = f"ev_long((long)$x);" + (" ev_long((long)($x >> 64));" if w == 128 else "")
                    cases.append((f"{t} $x = {lit}; $x {a}; $x {b}; {o} {t} r = {lit}; r {a}; r {b}; ev_num((int)(r == $x));".replace(" ++", "++").replace(" --", "--"),
                                  f"{wrap(vb, 'long')}," + (f"{wrap(hi64, 'long')}," if w == 128 else "") + "1,", f"scalar:{t}:{st}:{a} {b}"))
    return cases


# --- control flow ---
class Gen:
    """Statements as trees; each is rendered as compile-time C3 and interpreted."""

    def __init__(self):
        self.n = 0


CONDS = [("$a > 2", lambda e: e["a"] > 2), ("$a % 2 == 0", lambda e: e["a"] % 2 == 0), ("$defined(zz)", lambda e: False), ("$a == 1 || $b", lambda e: e["a"] == 1 or e["b"]), ("!$b && $a < 4", lambda e: (not e["b"]) and e["a"] < 4)]


def leaf():
    yield "ev_num($a);", lambda e, o: o.append(f"{e['a']},")
    yield "$a = $a + 1;", lambda e, o: e.__setitem__("a", e["a"] + 1)
    yield "$a += 2; $b = !$b;", lambda e, o: e.update(a=e["a"] + 2, b=not e["b"])


def seq2(a, b):
    return a[0] + " " + b[0], lambda e, o: (a[1](e, o), b[1](e, o))


def ifs(body, alt, cond):
    def f(e, o):
        (body if cond[1](e) else alt)[1](e, o) if alt or cond[1](e) else None
    return f"$if {cond[0]}: {body[0]} " + (f"$else {alt[0]} " if alt else "") + "$endif", f


def fors(body, d):
    def f(e, o):
        for i in range(3):
            e[f"i{d}"] = i
            o.append(f"{i},")
            body[1](e, o)
    return f"$for var $i{d} = 0; $i{d} < 3; $i{d}++: ev_num($i{d}); {body[0]} $endfor", f


def foreachs(body, d):
    def f(e, o):
        for i, x in enumerate((4, 0, 2)):
            o.append(f"{i * 10 + x},")
            e["a"] += x
            body[1](e, o)
    return f"$foreach $k{d}, $v{d} : {{ 4, 0, 2 }}: ev_num($k{d} * 10 + $v{d}); $a += $v{d}; {body[0]} $endforeach", f


def switches(b1, b2, b3):
    def f(e, o):
        if e["a"] == 1: b1[1](e, o)
        elif e["a"] in (2, 3): b2[1](e, o)
        elif b3: b3[1](e, o)
    return f"$switch $a: $case 1: {b1[0]} $case 2: $case 3: {b2[0]} " + (f"$default: {b3[0]} " if b3 else "") + "$endswitch", f


def switchb(b1, b2):
    def f(e, o):
        if e["a"] < 2: b1[1](e, o)
        elif e["b"]: b2[1](e, o)
        else: o.append("d")
    return f"$switch: $case $a < 2: {b1[0]} $case $b: {b2[0]} $default: evt('d'); $endswitch", f


def control(c):
    L = list(leaf())
    out = []
    lv = lambda n: ("evt('%s');" % n, lambda e, o: o.append(n))
    A, B, D = lv("p"), lv("q"), lv("r")
    pr, up, fl = L

    def layer(inner, d):
        """every construct around every inner statement"""
        for x in inner:
            for cnd in CONDS:
                yield ifs(x, None, cnd)
                yield ifs(up, x, cnd)
                yield ifs(x, pr, cnd)
            yield fors(x, d)
            yield foreachs(x, d)
            yield switches(x, up, None)
            yield switches(up, x, pr)
            yield switches(A, B, x)
            yield switchb(x, fl)
            yield switchb(up, x)
    d0 = [seq2(pr, up), seq2(up, fl), seq2(fl, pr), pr]
    d1 = list(layer(d0, 1))
    d2 = list(layer(d1, 2))
    progs = d1 + d2
    # a $for variable lives on after its loop, so the second of a pair uses other names
    pairs = [seq2(x, y) for x in d1 for y in layer(d0, 4)]
    progs += pairs if c.thorough else pairs[::3]
    if c.thorough:
        progs += list(layer(d2[::5], 3))
    cases = []
    for i, (src, f) in enumerate(progs):
        for a0 in ((0, 1, 3) if c.thorough else (i % 4,)):
            e, o = {"a": a0, "b": False}, []
            f(e, o)
            if len(o) > 400: continue
            exp = "".join(o) + f"{e['a']},{int(e['b'])},"
            cases.append((f"var $a = {a0}; var $b = false; {src} ev_num($a); ev_num((int)$b);", exp, f"flow:{i}:{a0}"))
    return cases


# --- reading members and elements of constants ---
def consts(c):
    pre = """struct In { int p; int[2] q; }
struct Un { union u { int ui; uint uu; } int t; }
bitstruct Bi : uint { int lo : 0..7; uint hi : 8..15; bool f : 20; }
struct Ou { In a; In[2] b; int[2][2] m; int[<2>] v; String s; Bi bi; char[3] by; Un un; }
enum En : int (int w, String n) { ONE = { 10, "one" }, TWO = { 20, "two" } }
"""
    vals = [({"a": None, "b": None, "m": None, "v": None, "s": None, "bi": None, "by": None, "un": None}, "{}"),
            ({"a": (1, (2, 3)), "b": ((4, (5, 6)), (7, (8, 9))), "m": ((10, 11), (12, 13)), "v": (14, 15), "s": "xyz", "bi": (-3, 200, 1), "by": (1, 2, 3), "un": (16, 17)},
             '{ { 1, { 2, 3 } }, { { 4, { 5, 6 } }, { 7, { 8, 9 } } }, { { 10, 11 }, { 12, 13 } }, { 14, 15 }, "xyz", { -3, 200, true }, x\'010203\', { { 16 }, 17 } }'),
            ({"a": (0, (0, 3)), "b": (None, (7, None)), "m": (None, (0, 13)), "v": (0, 15), "s": "q", "bi": (0, 9, 0), "by": (0, 0, 5), "un": (0, 4)},
             '{ .a.q[1] = 3, .b[1].p = 7, .m[1][1] = 13, .v[1] = 15, .s = "q", .bi = { .hi = 9 }, .by = { [2] = 5 }, .un.t = 4 }')]
    cases = []

    def g(v, *path):
        for k in path:
            if v is None: return 0
            v = v[k]
        return 0 if v is None else v
    paths = [(".a.p", ("a", 0)), (".a.q[0]", ("a", 1, 0)), (".a.q[1]", ("a", 1, 1))]
    for i in range(2):
        paths += [(f".b[{i}].p", ("b", i, 0)), (f".b[{i}].q[0]", ("b", i, 1, 0)), (f".b[{i}].q[1]", ("b", i, 1, 1)), (f".m[{i}][0]", ("m", i, 0)), (f".m[{i}][1]", ("m", i, 1)), (f".v[{i}]", ("v", i))]
    paths += [(".bi.lo", ("bi", 0)), (".bi.hi", ("bi", 1)), (".bi.f", ("bi", 2)), (".by[0]", ("by", 0)), (".by[2]", ("by", 2)), (".un.u.ui", ("un", 0)), (".un.t", ("un", 1)), (".v.x", ("v", 0)), (".v.y", ("v", 1)),
              (".by[1]", ("by", 1))]
    for n, (val, txt) in enumerate(vals):
        pre += f"const Ou K{n} = {txt};\n"
        for p, path in paths:
            x = g(val, *path)
            nm = f"K{n}{p}"
            rn = f"R{n}_{len(cases)}" if ".bi." not in p else nm
            if rn != nm:
                pre += f"const int {rn} = (int)({nm});\n"
            if rn == nm:  # bitstruct members only fold when the bitstruct itself is the constant
                cases.append((f"Ou o = K{n}; ev_num((int)o{p}); ev_num((int){nm});", f"{x}," * 2, f"const:{nm}"))
                continue
            cases.append((f"var $x = (int){nm}; ev_num($x); ev_num((int){nm}); ev_num((int){rn}); Ou o = K{n}; ev_num((int)o{p});", f"{x}," * 4, f"const:{nm}"))
            if ".un.u" not in p and ".b[" not in p:
              cases.append((f"var $k = K{n}; ev_num((int)$k{p}); $if (int)$k{p} == {x}: evt('y'); $else evt('n'); $endif", f"{x},y", f"ctvar:{nm}"))
        s = val["s"] or ""
        cases.append((f"ev_num((int)K{n}.s.len); ev_num((int)K{n}.m.len); ev_num((int)K{n}.b[1].q.len);", f"{len(s)},2,2,", f"const:len{n}"))
        for i, ch in enumerate(s):
            cases.append((f"var $c = K{n}.s[{i}]; ev_num($c); ev_num(K{n}.s[^{len(s) - i}]);", f"{ord(ch)}," * 2, f"const:str{n}:{i}"))
    for e, w, s in (("ONE", 10, "one"), ("TWO", 20, "two")):
        cases.append((f"ev_num(En.{e}.w); var $e = En.{e}; ev_num($e.w); ev_num((int)$e.n.len); ev_num((int)$e.ordinal); ev_num($e.n[0]);", f"{w},{w},3,{int(e == 'TWO')},{ord(s[0])},", f"const:enum:{e}"))
    return pre, cases


def misc():
    """one-line facts about the compile-time functions"""
    pre = """
struct Pt { int x; int y; }
const int[4] FG = { 1, 2, 3, 4 };
int[] gslice = FG[1..2];
fn int Pt.sum(&self) { return self.x + self.y; }
fn int ff(int a, int b) { return a * b; }
int glob = 7;
macro @count($n) { $if $n == 0: return 0; $else return 1 + @count($n - 1); $endif }
macro fib($n) { $if $n < 2: return $n; $else return fib($n - 1) + fib($n - 2); $endif }
macro @type_of(#x) => $typeof(#x).nameof;
macro String @str(#x) => $stringify(#x);
macro int @twice(#x) { return #x + #x; }
macro @ev(String $s) { $foreach $c : $s: evt($c); $endforeach evt(','); }
macro bool @def(#x) => $defined(#x);
macro bool @def2(#x) => @def(#x);
macro bool @def3(#x) => @def2(#x);
int cnt;
fn int bump() { cnt++; return cnt; }
macro @acc(...) { var $s = 0; $for var $i = 0; $i < $vacount; $i++: $s = $s * 10 + $vaconst[$i]; $endfor return $s; }
macro int @ifdef($n) { $if $defined(Pt.sum): return $n; $else return -$n; $endif }
"""
    b = lambda e: f"ev_num((int)({e}));"
    cs = [
        ("$defined(Pt.x)", "", b("$defined(Pt.x)"), "1,"), ("$defined(Pt.z)", "", b("$defined(Pt.z)"), "0,"), ("$defined(Pt.sum)", "", b("$defined(Pt.sum)"), "1,"),
        ("$defined(local)", "int q = 1;", b("$defined(q)") + b("$defined(qq)"), "1,0,"), ("$defined type", "", b("$defined(Pt)") + b("$defined(Qt)"), "1,0,"),
        ("$defined expr", "int q; Pt p;", b("$defined(q + 1)") + b("$defined(p.x)") + b("$defined(p.zz)") + b("$defined(q.x)"), "1,1,0,0,"),
        ("$defined call", "", b("$defined(ff)") + b("$defined(ff(1, 2))") + b("$defined(nof)"), "1,1,0,"),
        ("$eval", "", "ev_num($eval(\"glob\")); $eval(\"glob\") = 9; ev_num(glob); glob = 7;", "7,9,"),
        ("$eval concat", "int ab = 5;", "ev_num($eval(\"a\" +++ \"b\"));", "5,"), ("$eval member", "Pt p = { 3, 4 };", "ev_num(p.$eval(\"x\")); ev_num(p.$eval(\"y\"));", "3,4,"),
        ("$evaltype", "", "$evaltype(\"int\") z = 5; ev_num(z); ev_num((int)$evaltype(\"Pt\").sizeof);", "5,8,"),
        ("$eval function", "", "ev_num($eval(\"ff\")(3, 4));", "12,"),
        ("$stringify", "", b("$stringify(a  +  b).len") + b("$stringify(ff(1,2)) == \"ff(1,2)\"") + b("@str(1 + 2) == \"1 + 2\""), "7,1,1,"),
        ("$typeof", "int q; char r; long s;", b("$typeof(q + r).typeid == int.typeid") + b("$typeof(q + s).typeid == long.typeid") + b("$typeof(&q).typeid == (int*).typeid") if False else b("$typeof(&q).nameof == \"int*\"") + b("@type_of(q) == \"int\""), "1,1,"),
        ("$typeof no eval", "", "cnt = 0; $typeof(bump()) z = 4; ev_num(z); ev_num(cnt);", "4,0,"),
        ("$sizeof no eval", "", "cnt = 0; ev_num((int)$sizeof(bump())); ev_num(cnt);", "4,0,"), ("$defined no eval", "", "cnt = 0; " + b("$defined(bump())") + "ev_num(cnt);", "1,0,"),
        ("#expr twice", "", "cnt = 0; ev_num(@twice(bump())); ev_num(cnt);", "3,2,"), ("recursion", "", b("@count(20)") + b("fib(10)"), "20,55,"),
        ("$vaarg", "", b("@acc(1, 2, 3)") + b("@acc()"), "123,0,"), ("ifdef", "", b("@ifdef(4)"), "4,"),
        ("ternary", "", "var $x = 4; var $y = $x > 3 ? 10 : 20; ev_num($y);", "10,"), ("elvis", "", "var $x = 0; var $y = $x ?: 6; ev_num($y);", "6,"),
        ("lazy or", "", "var $x = true || (1 / 1 == 2); " + b("$x"), "1,"), ("$assert", "", "$assert 1 + 1 == 2; $assert true : \"msg\"; evt('k');", "k"),
        ("$stringify then", "", "@ev($stringify(ab) +++ \"c\"); @ev($stringify(ab) /* x */ +++ \"c\"); @ev( $stringify( ff(1, 2)) ); @ev($stringify (x+y)  );" + b("$stringify(ab) == \"ab\""), "abc,abc, ff(1, 2),x+y,1,"),
        ("string compare", "", b("\"a\\0b\" == \"a\\0c\"") + b("\"a\\0b\" != \"a\\0c\"") + b("\"a\\0b\" == \"a\\0b\"") + b("\"ab\" == \"abc\"") + b("x'0102' == x'0102'") + b("x'0102' == x'0103'"), "0,1,1,0,1,0,"),
        ("$defined #expr", "int loc;", b("@def(loc)") + b("@def2(loc)") + b("@def3(loc)") + b("@def(nope)") + b("@def2(nope)") + b("@def3(nope)") + b("@def2(loc + 1)") + b("@def2(Pt.zz)") + b("@def3(loc.zz)"), "1,1,1,0,0,0,1,0,0,"),
        ("$defined list", "int loc;", b("$defined(loc, nope)") + b("$defined(nope, loc)") + b("$defined(loc, glob)"), "0,0,1,"),
        ("global slice", "int[4] l = FG;", "ev_num(gslice[1]); ev_num(l[0]); ev_num(l[1]);", "3,1,2,"),
        ("$nameof", "", b("$nameof(glob) == \"glob\"") + b("Pt.nameof == \"Pt\""), "1,1,"),
        ("$offsetof", "", b("Pt.y.offsetof") + b("$sizeof(glob)"), "4,4,"),
        ("type var", "", "var $Tx = int; $Tx z = 3; $Tx = long; $Tx w = 4; " + b("$Tx.sizeof") + "ev_num(z + (int)w);", "8,7,"),
        ("type array", "", "var $n = 0; $foreach $t : { int.typeid, long.typeid, Pt.typeid }: $n += (int)$typefrom($t).sizeof; $endforeach ev_num($n);", "20,"),
        ("$switch type", "", "$switch $typeof(glob): $case long: evt('l'); $case int: evt('i'); $default: evt('d'); $endswitch", "i"),
        ("$switch string", "", "var $s = \"b\"; $switch $s: $case \"a\": evt('a'); $case \"b\": evt('b'); $default: evt('d'); $endswitch", "b"),
        ("$switch range miss", "", "$switch 5: $case 1: evt('a'); $case 2: evt('b'); $endswitch evt('z');", "z"),
        ("float", "", "var $f = 1.5; $f *= 4; $f -= 0.5; " + b("$f * 2"), "11,"), ("bool list", "", "var $l = { true, false }; " + b("$l[0]") + b("$l[1]"), "1,0,"),
        ("mixed list", "", "var $l = { 1, \"ab\", 2.5, 'c' }; " + b("$l[0]") + b("$l[1].len") + b("$l[2] * 2") + b("$l[3]") + b("$l.len"), "1,2,5,99,4,"),
        ("list of lists", "", "var $l = { { 1, 2 }, { 3 } }; " + b("$l[0].len") + b("$l[1][0]") + "$l[0] = { 7 }; " + b("$l[0][0]"), "2,3,7,"),
        ("scope", "", "var $x = 1; $if true: var $y = 2; $x = $x + $y; $endif ev_num($x);", "3,"), ("for scope", "", "$for var $i = 0; $i < 2; $i++: var $z = $i * 2; ev_num($z); $endfor", "0,2,"),
        ("runtime in $for", "", "int s = 0; $for var $i = 0; $i < 4; $i++: s += $i; $endfor ev_num(s);", "6,"),
        ("equality", "", b("{ 1, 2 } == { 1, 2 }") if False else b("\"a\" == \"a\"") + b("\"a\" == \"b\"") + b("\"a\" +++ \"b\" == \"ab\""), "1,0,1,"),
        ("array eq", "", b("(int[2]){ 1, 2 } == (int[2]){ 1, 2 }") + b("(int[2]){ 1, 2 } == (int[2]){ 1, 3 }") + b("(int[2]){} == (int[2]){ [1] = 0 }"), "1,0,1,"),
        ("and and", "", b("$and(true, 1 == 1, false)") if False else "", ""),
    ]
    return pre, [(a + " " + s, e, f"misc:{n}") for n, a, s, e in cs if s]


REJECT = [
    ("assign run-time value", "fn void f(int a) { var $x = 1; $x = a; }"), ("init run-time value", "fn void f(int a) { var $x = a; }"), ("list of run-time", "fn void f(int a) { var $x = { a, 1 }; var $y = $x[0]; $assert $y == 1; }"),
    ("index past end", "fn void f() { var $x = { 1, 2 }; $x[2] = 1; }"), ("read past end", "fn void f() { var $x = (int[2]){ 1, 2 }; int y = $x[2]; }"), ("slice past end", "fn void f() { var $x = (int[2]){ 1, 2 }; var $y = $x[1..2]; }"),
    ("negative index", "fn void f() { var $x = (int[2]){ 1, 2 }; $x[-1] = 3; }"), ("false assert", "fn void f() { $assert 1 == 2; }"), ("assert after steps", "fn void f() { var $x = 1; $x += 1; $assert $x == 1; }"),
    ("$error", 'fn void f() { $error "no"; }'), ("not constant $if", "fn void f(int a) { $if a: $endif }"), ("endless recursion", "macro m($x) { return m($x + 1); } fn void f() { int a = m(1); }"),
    ("endless $for", "fn void f() { $for var $i = 0; true; $i++: $endfor }"), ("division by zero", "fn void f() { var $x = 1; $x /= 0; }"), ("remainder by zero", "fn void f() { var $x = 1; $x %= 0; }"),
    ("wrong type element", 'fn void f() { var $x = (int[2]){ 1, 2 }; $x[0] = "a"; }'), ("out of scope", "fn void f() { $if true: var $x = 1; $endif int y = $x; }"), ("undefined", "fn void f() { int y = $x; }"),
    ("type as value", "fn void f() { var $x = 1; $x = int; }"), ("value as type", "fn void f() { var $Ty = int; $Ty = 1; }"), ("$eval of nothing", 'fn void f() { int y = $eval("nosuch"); }'), ("$evaltype of nothing", 'fn void f() { $evaltype("Nosuch") y; }'),
    ("literal too big", "fn void f() { char $x = 256; }"), ("concat number", "fn void f() { var $x = 1 +++ 2; }"), ("duplicate $case", "fn void f() { $switch 1: $case 1: $case 1: $endswitch }") ,
    ("$foreach variable after the loop", "fn void f() { $foreach $i : { 1, 2 }: $endforeach int y = $i; }"), ("case variable outside", "fn void f() { $switch 1: $case 1: var $j = 3; $default: $endswitch int y = $j; }"),
    ("hash outside", "fn void f(int #a) { }"), ("assert in dead code of macro", "macro m() { $assert false; } fn void f() { m(); }"), ("error in taken $if", "fn void f() { $if true: nosuch(); $endif }"), ("error in unrolled body", "fn void f() { $for var $i = 0; $i < 2; $i++: $assert $i == 0; $endfor }"),
]
ACCEPT = [
    ("error in untaken $if", "fn void f() { $if false: nosuch(); $endif }"), ("error in untaken case", "fn void f() { $switch 2: $case 1: nosuch(); $case 2: f(); $endswitch }"), ("zero iterations", "fn void f() { $for var $i = 0; $i < 0; $i++: nosuch(); $endfor $foreach $x : {}: nosuch(); $endforeach }"),
    ("two $foreach loops", "fn void f() { $foreach $i : { 1 }: $endforeach $foreach $i : { 1 }: $endforeach }"),
    ("unused macro", "macro m() { nosuch(); } fn void f() { }"), ("$defined guards", "fn void f() { $if $defined(nosuch): nosuch(); $endif }"), ("top level $assert", "$assert 1 + 1 == 2; fn void f() { }"),
]


def run(c):
    opts = ("-O0", "-O3") if c.thorough else ("-O0",)
    n = 0
    for name, pre, cases, sh in (("lists", OBS, lists(c), 16), ("strings", SPRE, strings(c), 8), ("scalars", "", scalars(c), 8), ("control", "", control(c), 16), ("consts", *consts(c), 1), ("misc", *misc(), 1)):
        c.run_cases(name, pre, cases, opts, shards=sh * (3 if c.thorough else 1))
        n += len(cases)
        c.sample(f"{name}: {cases[len(cases) // 2][0]} -> {cases[len(cases) // 2][1]}")
    def verdict(a):
        i, src = a
        path = os.path.join(c.dir, f"v{i}.c3")
        with open(path, "w") as f:
            f.write("module v;\n" + src + "\n")
        code, out = c.run([c.c3c, "compile-only", "-C", "--use-stdlib=no", path], 60)
        return code, out.decode("utf-8", "replace")
    tests = [(True, n, s) for n, s in REJECT] + [(False, n, s) for n, s in ACCEPT]
    for (bad, nm, s), (code, txt) in zip(tests, c.pmap(verdict, [(i, t[2]) for i, t in enumerate(tests)])):
        if code != (1 if bad else 0) or "unexpected error" in txt or (bad and "Error: " not in txt):
            c.violation(f"verdict:{nm}", f"{'has to be rejected' if bad else 'is valid'}, but the exit status was {code}: {s}: {txt[-300:]}", {"source": s, "output": txt})
    c.add(evaluations=len(REJECT) + len(ACCEPT))
    c.set(rule="an evaluation is one generated compile-time program executed by the compiler whose printed observations were compared with the interpreter; distinct counts distinct programs",
          exhaustive=True, programs=n)
