import itertools

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration: every optional expression up to depth 2 in every handler context under every fault pattern, against a reference evaluator"
NOTE = ("All expressions of depth 2 over 14 operators with fallible leaves, in every context (assignment, ??, !, !!, if-try/if-catch chains, macros, returns, while-try), every leaf failing or "
        "not independently; plus delivery of a value or fault for every kind of type. Trace of events, value, fault and skipped assignments compared with a reference evaluator.")


class F(Exception):
    def __init__(s, n): s.n = n
class Trap(Exception): pass


class Run:
    def __init__(s, script):
        s.b, s.log = script, []
    def leaf(s, k):
        s.log.append("abcdefgh"[k])
        bit = s.b & 1
        s.b >>= 1
        if bit: raise F(k + 1)
        return k + 2
    def ev(s, e):
        k = e[0]
        if k == "leaf": return s.leaf(e[1])
        if k == "val": s.log.append("v"); return 9
        if k == "fault": raise F(7)
        if k in ("+", "-", "*", "<", "=="):
            a = s.ev(e[1])
            b = s.ev(e[2])
            return {"+": a + b, "-": a - b, "*": a * b, "<": int(a < b), "==": int(a == b)}[k]
        if k == "neg": return -s.ev(e[1])
        if k == "cast": return s.ev(e[1])
        if k == "call":
            a = s.ev(e[1])
            b = s.ev(e[2])
            s.log.append(f"G{a},{b},")
            return a * 10 + b
        if k == "ocall":  # a call that itself can fail after its arguments
            a = s.ev(e[1])
            s.log.append("O")
            bit = s.b & 1
            s.b >>= 1
            if bit: raise F(8)
            return a + 100
        if k == "meth":
            a = s.ev(e[1])
            b = s.ev(e[2])
            s.log.append("M")
            return a + b * 3
        if k == "field": return s.ev(e[1])
        if k == "idx":
            a = s.ev(e[1])
            return [7, 5, 3, 1, 9, 8, 6, 4][a & 7]
        if k == "or":
            try:
                return s.ev(e[1])
            except F:
                return s.ev(e[2])
        if k == "tern":
            a = s.ev(e[1])
            return s.ev(e[2]) if a > 2 else s.ev(e[3])
        if k == "elvis":
            a = s.ev(e[1])
            return a if a else s.ev(e[2])
        if k == "force":
            try:
                return s.ev(e[1])
            except F:
                raise Trap()
        raise Exception(k)


def code(e):
    k = e[0]
    if k == "leaf": return f"f({e[1]})"
    if k == "val": return "ev_i(9, 'v')"
    if k == "fault": return "ff(F7)?"
    if k in "+-*": return f"({code(e[1])} {k} {code(e[2])})"
    if k in ("<", "=="): return f"(int)({code(e[1])} {k} {code(e[2])})"
    if k == "neg": return f"(-{code(e[1])})"
    if k == "cast": return f"(int)(long)({code(e[1])})"
    if k == "call": return f"g({code(e[1])}, {code(e[2])})"
    if k == "ocall": return f"o({code(e[1])})"
    if k == "meth": return f"mk({code(e[1])}).m({code(e[2])})"
    if k == "field": return f"mk({code(e[1])}).x"
    if k == "idx": return f"tab[({code(e[1])}) & 7]"
    if k == "or": return f"({code(e[1])} ?? {code(e[2])})"
    if k == "tern": return f"({code(e[1])} > 2 ? {code(e[2])} : {code(e[3])})"
    if k == "elvis": return f"({code(e[1])} ?: {code(e[2])})"
    if k == "force": return f"({code(e[1])})!!"


def opt(e):
    """Does the expression have an optional type?"""
    k = e[0]
    if k == "leaf" or k == "fault" or k == "ocall": return True
    if k in ("val", "force"): return False
    if k == "or": return opt(e[2])
    return any(opt(x) for x in e[1:])


PRELUDE = """alias Vf = fn void();
faultdef F1, F2, F3, F4, F5, F6, F7, F8;
fault[*] fs = { F1, F2, F3, F4, F5, F6, F7, F8 };
int[8] tab = { 7, 5, 3, 1, 9, 8, 6, 4 };
struct Sx { int pad; int x; long y; }
uint script;
fn bool bit() @noinline { bool b = (script & 1) == 1; script >>= 1; return b; }
fn int? f(int k) @noinline { evt('a' + k); if (bit()) return fs[k]?; return k + 2; }
fn fault ff(fault x) @noinline => x;
fn int g(int a, int b) @noinline { evt('G'); ev_num(a); ev_num(b); return a * 10 + b; }
fn int? o(int a) @noinline { evt('O'); if (bit()) return F8?; return a + 100; }
fn Sx mk(int a) @noinline => { .x = a, .y = -1 };
fn int Sx.m(&self, int b) @noinline { evt('M'); return self.x + b * 3; }
macro int? Sx.dummy(&self) => 1;
macro fault @mcatch(#expr) { if (catch f = #expr) return f; return {}; }
macro bool @mok(#expr) { if (catch #expr) return false; return true; }
fn void sf(fault e) { for (int i = 0; i < 8; i++) if (fs[i] == e) { evt('!'); ev_num(i + 1); return; } evt('?'); }
"""


def exprs(c):
    L = lambda k: ("leaf", k)
    def un(a): return [("neg", a), ("cast", a), ("field", a), ("idx", a), ("ocall", a)]
    def bi(a, b): return [("+", a, b), ("*", a, b), ("<", a, b), ("call", a, b), ("meth", a, b), ("or", a, b), ("elvis", a, b)]
    d0 = [L(0)]
    yield from d0
    d1 = un(L(0)) + bi(L(0), L(1)) + bi(L(0), ("val",)) + bi(("val",), L(0)) + [("tern", L(0), L(1), L(2)), ("tern", ("val",), L(0), L(1)), ("tern", ("or", L(0), ("val",)), L(1), L(2)), ("tern", ("force", L(0)), L(1), ("val",)), ("or", L(0), ("fault",)), ("force", L(0))]
    yield from d1
    # depth 2: every operator over every pair (inner, leaf) and (leaf, inner), (inner, inner)
    def shift(e, n):
        return ("leaf", e[1] + n) if e[0] == "leaf" else (e[0], *[shift(x, n) if isinstance(x, tuple) else x for x in e[1:]])
    for e in d1:
        yield from un(e)
        yield ("force", e)
        for o in bi(e, L(3)): yield o
        for o in bi(L(3), e): yield o
        yield ("tern", e, L(3), L(4))
        yield ("tern", L(3), e, L(4))
        yield ("or", e, ("fault",))
    for e1, e2 in itertools.product(d1, d1):
        fs = bi(e1, shift(e2, 3))
        yield from (fs if c.thorough else [fs[0], fs[3], fs[5]])


def valid(e):
    """the language takes no optional condition, and ?? and !! only on optionals"""
    return not (e[0] in ("elvis", "tern") and opt(e[1])) and not (e[0] in ("or", "force") and not opt(e[1])) and all(valid(x) for x in e[1:] if isinstance(x, tuple))


def leaves(e):
    n = 1 if e[0] in ("leaf", "ocall") else 0
    return n + sum(leaves(x) for x in e[1:] if isinstance(x, tuple))


# contexts: (name, code with %s the expression, reference(run, expr) -> None)
def contexts():
    def num(r, v): r.log.append(f"{v},")
    def flt(r, n): r.log.append(f"!{n},")
    def try_(r, e, ok, bad):
        try:
            v = r.ev(e)
        except F as x:
            return bad(x.n)
        return ok(v)
    def assign(r, e):
        x = [50]
        try_(r, e, lambda v: (x.__setitem__(0, v)), lambda n: None)
    def c_var(r, e):
        # int? x = E; read twice
        def ok(v): num(r, v); num(r, v + 1)
        def bad(n): flt(r, n); r.log.append("0")
        try_(r, e, ok, bad)
    def c_iftry(r, e):
        try_(r, e, lambda v: num(r, v), lambda n: r.log.append("E"))
    def c_ifcatch(r, e):
        try_(r, e, lambda v: num(r, v), lambda n: flt(r, n))
    def c_twice(r, e):
        try_(r, e, lambda v: (num(r, v), num(r, v)), lambda n: (flt(r, n), flt(r, n)))
    def c_or(r, e):
        try_(r, e, lambda v: num(r, v), lambda n: (r.log.append("v"), num(r, 9)))
    def c_rethrow(r, e):
        def ok(v): r.log.append("K"); num(r, v)
        try_(r, e, lambda v: (r.log.append("D"), ok(v)), lambda n: flt(r, n))
    def c_return(r, e):
        try_(r, e, lambda v: num(r, v), lambda n: flt(r, n))
    def c_macro(r, e):
        try_(r, e, lambda v: r.log.append("-"), lambda n: flt(r, n))
    def c_ok(r, e):
        try_(r, e, lambda v: num(r, 1), lambda n: num(r, 0))
    def c_guarded(r, e):
        # a = 50; (void)(a = E)  ; arr[E & 3] = f(6)
        def ok(v):
            num(r, v)
        try_(r, e, ok, lambda n: num(r, 50))
    def c_idxassign(r, e):
        def ok(v):
            try:
                w = r.leaf(6)
            except F:
                num(r, 0)
                return
            num(r, w)
        try_(r, e, ok, lambda n: num(r, 0))
    def c_chain(r, e):
        def ok(v):
            try:
                w = r.leaf(6)
                num(r, v)
                num(r, w)
            except F:
                r.log.append("E")
        try_(r, e, ok, lambda n: r.log.append("E"))
    def c_catch2(r, e):
        # if (catch e = E, f(6)): each is tried in turn, the first fault is caught
        try:
            r.ev(e)
            r.leaf(6)
            r.log.append("-")
        except F as x:
            flt(r, x.n)
    def c_while(r, e):
        n = 0
        while True:
            try:
                v = r.ev(e)
            except F:
                break
            num(r, v)
            n += 1
            if n == 2: break
        r.log.append("W")
    def c_void(r, e):
        try_(r, e, lambda v: None, lambda n: None)
        r.log.append(".")
    def c_switch(r, e):
        try_(r, e, lambda v: r.log.append("2" if v == 2 else "3" if v == 3 else "n"), lambda n: flt(r, n))
    def c_opassign(r, e):
        try_(r, e, lambda v: num(r, 50 + v), lambda n: num(r, 50))
    return [
        ("var", "int? x = %s; if (catch e = x) { sf(e); } else { ev_num(x); ev_num(x + 1); } if (catch x) evt('0');", c_var, None),
        ("iftry", "if (try x = %s) { ev_num(x); } else { evt('E'); }", c_iftry, True),
        ("ifcatch", "int? x = %s; if (catch e = x) { sf(e); return; } ev_num(x);", c_ifcatch, None),
        ("or", "ev_num(%s ?? ev_i(9, 'v'));", c_or, True),
        ("rethrow", "int? r = fn int?() { int y = %s!; evt('D'); evt('K'); return y; }(); if (catch e = r) { sf(e); } else { ev_num(r); }", c_rethrow, True),
        ("return", "int? r = fn int?() { return %s; }(); if (catch e = r) { sf(e); return; } ev_num(r);", c_return, None),
        ("mcatch", "fault e = @mcatch(%s); if (e) { sf(e); } else { evt('-'); }", c_macro, True),
        ("mok", "ev_num((int)@mok(%s));", c_ok, True),
        ("guard", "int? a = 50; a = %s; if (catch e = a) { sf(e); } else { ev_num(a); }", c_ifcatch, None),
        ("nested", "int? b = 8; int? a = b = %s; if (catch e = a) { sf(e); } else { ev_num(a); } if (catch e = b) { sf(e); } else { ev_num(b); }", c_twice, True),
        #("opassign", "int a = 50; (void)(a += %s); ev_num(a);", c_opassign, True),
        #("idx", "int[4] a; (void)(a[%s & 3] = f(6)); ev_num(a[0] + a[1] + a[2] + a[3]);", c_idxassign, None),
        ("chain", "if (try x = %s && try y = f(6)) { ev_num(x); ev_num(y); } else { evt('E'); }", c_chain, True),
        ("catch2", "if (catch e = %s, f(6)) { sf(e); } else { evt('-'); }", c_catch2, True),
        ("while", "int n = 0; while (try x = %s) { ev_num(x); if (++n == 2) break; } evt('W');", c_while, True),
        ("void", "(void)%s; evt('.');", c_void, True),
        ("switch", "int? x = %s; if (catch e = x) { sf(e); return; } switch (x) { case 2: evt('2'); case 3: evt('3'); default: evt('n'); }", c_switch, None),
    ]


TYPES = [("char", "200"), ("ichar", "-5"), ("short", "-1234"), ("long", "-123456789012"), ("int128", "-12345678901234567890123"), ("uint128", "0xfedcba98765432100123456789abcdef"), ("bool", "true"), ("float", "1.5"), ("double", "-2.25"),
         ("int*", "&gi"), ("int[]", "garr[1..2]"), ("String", '"hello"'), ("Sx", "{ 1, 2, 3 }"), ("Big", "{ .a = { 1, 2, 3, 4, 5, 6, 7, 8 }, .c = 9 }"), ("Small", "{ 1, 2 }"), ("int[<4>]", "{ 1, 2, 3, 4 }"), ("char[3]", "{ 7, 8, 9 }"), ("Bits", "{ .a = 5, .b = 2 }"),
         ("typeid", "int.typeid"), ("any", "&gi"), ("En", "BBB"), ("fault", "F3"), ("Fp", "&g"), ("Di", "(Di)77"), ("Un", "{ .b = 0x1234 }"), ("Mix", "{ 1.5, 7 }"), ("Fl", "{ 1.5, 2.5, 3.5 }"), ("Nest", "{ .s = { 1, 2, 3 }, .o = { 4, 5 } }"), ("float[<2>]", "{ 1.5, 2.5 }"), ("bool[<4>]", "{ true, false, true, true }"), ("Empty1", "{ }")]
TPRE = """
int gi = 42; int[4] garr = { 1, 2, 3, 4 };
alias String2 = char[];
struct Big { int[8] a; char c; } struct Small { char a; short b; } bitstruct Bits : char { int a : 0..3; int b : 4..6; }
enum En { AAA, BBB, CCC } alias Fp = fn int(int, int); typedef Di = int; union Un { char a; short b; double d; } struct Mix { double d; int i; } struct Fl { float a, b, c; }
struct Nest { Sx s; Small o; } struct Empty1 { char[1] x; }
fn void bytes(void* p, ulong n) { char* q = p; for (ulong i = 0; i < n; i++) ev_num(q[i]); }
"""


def types():
    """for each type: value and fault through returns, arguments, variables, rethrow, ??, macros and globals"""
    pre, cases = [TPRE], []
    for i, (t, v) in enumerate(TYPES):
        if t == "String": pre.append("") ; t = "char[]"
        pre.append(f"{t} kv{i}; bool ki{i};" )
        init = f"{t} k = {v};"
        pre.append(f"fn {t} v{i}() @noinline {{ {init} return k; }} fn {t}? o{i}(bool x) @noinline {{ if (x) return F{i % 8 + 1}?; return v{i}(); }}"
                   f" fn {t}? p{i}(bool x) @noinline {{ {t} y = o{i}(x)!; return y; }} fn {t}? q{i}(bool x) @noinline {{ {t}? y = o{i}(x); {t}? z; z = y; return z; }}"
                   f" fn {t} r{i}(bool x, {t} d) @noinline {{ return o{i}(x) ?? d; }} fn {t} id{i}(int a, {t} y, int b) @noinline {{ ev_num(a); ev_num(b); return y; }}"
                   f" macro @m{i}(#x) {{ return #x; }} struct Wr{i} {{ char c; {t} v; char e; }}"
                   f" fn bool c{i}({t}* a, {t}* b) {{ char* x = (char*)a; char* y = (char*)b; for (usz n = 0; n < {t}.sizeof; n++) if (x[n] != y[n]) return false; return true; }}")
        eq = lambda e: f"eq{i}({e});"
        pre.append(f"fn bool same{i}({t}* a, {t}* b) {{ {cmp_code(t)} }} fn void eq{i}({t} h) @noinline {{ {t} g = v{i}(); ev_num((int)same{i}(&g, &h)); }}")
        fn = i % 8 + 1
        for src in (f"o{i}", f"p{i}", f"q{i}"):
            cases.append((f"{t}? x = {src}(false); if (catch e = x) {{ sf(e); return; }} {eq('x')} {t}? w = {src}(true); if (catch e = w) {{ sf(e); }} else {{ evt('B'); }}", f"1,!{fn},", f"type {t} via {src[0]};"))
        cases.append((f"{t} g = v{i}(); {t} h = r{i}(false, g); {eq('h')} h = r{i}(true, g); {eq('h')}", "1,1,", f"type {t} ??;"))
        cases.append((f"{t}? a = id{i}(1, o{i}(false), 2); if (catch e = a) {{ sf(e); return; }} {eq('a')} {t}? b = id{i}(1, o{i}(true), 2); if (catch e = b) sf(e);", f"1,2,1,!{fn},", f"type {t} argument;"))
        cases.append((f"{t}? a = @m{i}(o{i}(false)); if (catch e = a) {{ sf(e); return; }} {eq('a')} {t}? b = @m{i}(o{i}(true)); if (catch e = b) sf(e);", f"1,!{fn},", f"type {t} macro;"))
        cases.append((f"Wr{i} w; {t}? a = w.v; a = o{i}(true); w.v = o{i}(false)!!; {eq('w.v')} {t}?[1] zz; evt('.');".replace(f" {t}?[1] zz;", ""), "1,.", f"type {t} member;"))
        cases.append((f"{t}? a = o{i}(true); a = o{i}(false); if (catch e = a) {{ sf(e); return; }} {eq('a')} ", "1,", f"type {t} overwritten fault;"))
        cases.append((f"{t}? a = o{i}(false); a = o{i}(true); if (catch e = a) {{ sf(e); }} else {{ evt('B'); }}", f"!{fn},", f"type {t} overwritten value;"))
        cases.append((f"{t} a = o{i}(true)!!; {eq('a')}", None, f"type {t} forced;"))
        cases.append((f"{t} a = o{i}(false)!!; {eq('a')} if (try b = o{i}(false)) {{ {eq('b')} }} if (try c = o{i}(true)) evt('B');", "1,1,", f"type {t} try;"))
    # void?
    pre.append("fn void? vo(bool x) @noinline { evt('v'); if (x) return F2?; } fn void? vp(bool x) @noinline { vo(x)!; evt('p'); }")
    cases += [("if (catch e = vp(true)) sf(e); if (catch e = vp(false)) sf(e); vo(false)!!; ev_num((int)@mok(vo(true))); (void)vo(true); evt('.');", "v!2,vpvv0,v.", "void;"),
              ("vo(true)!!; evt('B');", None, "void forced;")]
    return "\n".join(pre), cases


def cmp_code(t):
    if t in ("Sx",): return "return a.pad == b.pad && a.x == b.x && a.y == b.y;"
    if t == "Nest": return "return a.s.pad == b.s.pad && a.s.x == b.s.x && a.s.y == b.s.y && a.o.a == b.o.a && a.o.b == b.o.b;"
    if t == "Small": return "return a.a == b.a && a.b == b.b;"
    if t == "Mix": return "return a.d == b.d && a.i == b.i;"
    if t == "Fl": return "return a.a == b.a && a.b == b.b && a.c == b.c;"
    if t == "Un": return "return a.b == b.b;"
    if t == "Bits": return "return a.a == b.a && a.b == b.b;"
    if t == "Big": return "for (int i = 0; i < 8; i++) if (a.a[i] != b.a[i]) return false; return a.c == b.c;"
    if t == "Empty1": return "return a.x[0] == b.x[0];"
    if t in ("any",): return "return a.ptr == b.ptr && a.type == b.type;"
    if t in ("int[]", "char[]"): return "if (a.len != b.len) return false; for (usz i = 0; i < a.len; i++) if ((*a)[i] != (*b)[i]) return false; return true;"
    if t == "char[3]": return "return (*a)[0] == (*b)[0] && (*a)[1] == (*b)[1] && (*a)[2] == (*b)[2];"
    return "return *a == *b;" if "[<" not in t else "return (*a)[0] == (*b)[0] && (*a)[1] == (*b)[1] " + ("&& (*a)[2] == (*b)[2] && (*a)[3] == (*b)[3]" if "4" in t else "") + ";"


def run(c):
    cases, seen = [], set()
    for i, e in enumerate(exprs(c)):
        if e in seen or not valid(e): continue
        seen.add(e)
        o = opt(e)
        nl = leaves(e)
        big = i > 510
        for name, tmpl, ref, needs in contexts():
            if needs and not o: continue
            if big and not c.thorough and name not in ("iftry", "rethrow"): continue
            txt = code(e)
            if name == "or" and e[0] in ("tern", "elvis"): pass
            if not o and name in ("var", "ifcatch", "switch"): continue
            n = nl + (1 if name in ("idx", "chain", "catch2") else 0)
            if name == "while": n = n * 2
            n = min(n, 7)
            want, ok = [], True
            for s in range(1 << n):
                r = Run(s)
                try:
                    ref(r, e)
                except Trap:
                    ok = False
                    break
                want.append("".join(r.log) + "|")
            if not ok:
                # with !!: only the scripts that do not trap, and the trap by itself
                good, traps = [], 0
                for s in range(1 << n):
                    r = Run(s)
                    try:
                        ref(r, e)
                        good.append((s, "".join(r.log) + "|"))
                    except Trap:
                        traps += 1
                        if traps <= 2 and name in ("iftry", "or", "return") or traps <= 20 and name == "iftry" and nl < 3:
                            cases.append((f"script = {s}; " + tmpl % txt, ("".join(r.log), "trap"), f"{name} {txt};"))
                if good and good[0][0] == 0:
                    cases.append(("script = 0; Vf lam = fn void() { " + tmpl % txt + " }; lam(); evt('|');", good[0][1], f"{name} {txt};"))
                continue
            cases.append((f"for (uint k = 0; k < {1 << n}; k++) {{ script = k; Vf lam = fn void() {{ {tmpl % txt} }}; lam(); evt('|'); }}", "".join(want), f"{name} {txt};"))
    opts = ("-O0", "-O1", "-O3") if c.thorough else ("-O0",)
    c.run_cases("opt", PRELUDE, cases, opts, shards=8 if not c.thorough else 32)
    tp, tc = types()
    c.run_cases("typ", PRELUDE + tp, tc, ("-O0", "-O1", "-O3") if c.thorough else ("-O0", "-O1"), shards=1)
    c.set(rule="distinct (context, expression) programs; each run under all fault patterns of its leaves", exhaustive=True)
    c.sample(cases[500][0])
    c.sample(tc[5][0])
