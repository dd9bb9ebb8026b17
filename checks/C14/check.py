"""Macros and generics: every bounded macro body x parameter kind x argument form x call context, trailing blocks with every
jump, variadic forms, and every pair of instantiations of a generic module, against a substitution-semantics interpreter."""

import itertools
import re

from vlib.check import PRE as EV

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive exploration of generated macro and generic programs: all parameter kinds x argument forms x bodies of up to two operations x call contexts, "
             "all trailing blocks x jumps x macros, all pairs of generic instantiations, executed by the compiled program and compared with an interpreter of the expansion semantics")
NOTE = ("The real compiler expands each program; the compiled program's event trace is compared with a Python interpreter (by-value arguments once and first, "
        "#expressions per use in the caller's scope, own names for the macro). Generic code is also compared with the same text with the parameters written in. "
        "Exhaustive within the stated alphabets; larger bodies are outside the bound.")

PRE = """
int gv;
int[3] garr;
const int KC = 4;
fn int g(int k) { evt('g'); ev_num(k); return k; }
fn int gi(int k) { evt('i'); ev_num(k); return k; }
fn bool zf() { evt('z'); return false; }
fn int one() { evt('o'); return 1; }
fn int h2(int a, int b) { ev_num(a); ev_num(b); return a; }
macro @inner(x) { int t = 100; int lx = 7; t += x; ev_num(t); return t + lx; }
macro @innerh(#x) { int t = 100; int lx = 7; t += #x; evt('/'); t += #x; return t + lx; }
macro @innerr(#x) { int t = 100; int lx = 7; int* p = &#x; *p += t; return *p + lx; }
macro @pass(#e) { int t = 1000; int lx = 2000; ev_num(#e + t); ev_num(lx); ev_num(t); }
macro @pass2(#e) { int t = 1; @pass(#e); t += #e; ev_num(t); }
"""


class St:
    """a run of the generated function"""

    def __init__(self):
        self.ev = []
        self.v = {"lx": 1, "t": 2}
        self.gv = 30
        self.arr = [40, 41, 42]

    def num(self, x):
        self.ev.append(f"{x},")

    def e(self, s):
        self.ev.append(s)


# argument forms: text, evaluate, place (get address once -> (read, write)), const
def local(n):
    return lambda s: ((lambda: s.v[n]), (lambda w: s.v.__setitem__(n, w)))


def arr(s):
    s.e("i1,")
    return (lambda: s.arr[1]), (lambda w: s.arr.__setitem__(1, w))


def glob(s):
    return (lambda: s.gv), (lambda w: setattr(s, "gv", w))


def ginc(s):
    s.v["lx"] += 1
    return s.v["lx"] - 1


def gcall(s):
    s.e("g3,")
    return 3


ARGS = {
    "g": ("g(3)", gcall, None, False), "lx": ("lx", None, local("lx"), False), "t": ("t", None, local("t"), False), "inc": ("lx++", ginc, None, False),
    "const": ("KC + 1", lambda s: 5, None, True), "sum": ("lx + t", lambda s: s.v["lx"] + s.v["t"], None, False), "gv": ("gv", None, glob, False),
    "elem": ("garr[gi(1)]", None, arr, False), "mac": ("@inner(t)", lambda s: inner(s, s.v["t"]), None, False),
}


def inner(s, x):
    s.num(100 + x)
    return 107 + x


def ev_arg(s, k):
    a = ARGS[k]
    return a[1](s) if a[1] else a[2](s)[0]()


class Par:
    def __init__(self, s, kind, k):
        self.s, self.kind, self.k = s, kind, k
        if kind in "VT":
            self.val = ev_arg(s, k)
        elif kind == "R":
            self.place = ARGS[k][2](s)
        elif kind == "C":
            self.val = ev_arg(s, k)

    def read(self):
        if self.kind in "VTC":
            return self.val
        return self.place[0]() if self.kind == "R" else ev_arg(self.s, self.k)

    def write(self, w):
        """w is evaluated before the place is addressed or after: only used with constants"""
        if self.kind in "VT":
            self.val = w
        elif self.kind == "R":
            self.place[1](w)
        else:
            ARGS[self.k][2](self.s)[1](w)

    def bump(self, n):
        if self.kind == "H":
            r, w = ARGS[self.k][2](self.s)
            w(r() + n)
        else:
            self.write(self.read() + n)


class Ret(Exception):
    pass


def o_use(s, m, p): m["t"] = m["t"] * 3 + p.read()
def o_two(s, m, p):
    m["t"] = p.read()
    m["t"] += p.read() * 2
def o_cond(s, m, p):
    if m["lx"] == 20: m["t"] += p.read()
def o_never(s, m, p): pass
def o_inner(s, m, p): m["t"] += inner(s, p.read())
def o_innerh(s, m, p):
    x = 100 + p.read()
    s.e("/")
    x += p.read()
    m["t"] += x + 7
def o_innerr(s, m, p):
    if p.kind == "H":
        r, w = ARGS[p.k][2](s)
    else:
        r, w = p.read, p.write
    w(r() + 100)
    m["t"] += r() + 7
def o_loop(s, m, p):
    for _ in range(2): m["t"] += p.read()
def o_defer(s, m, p): m["defer"].append(lambda: s.num(p.read()))
def o_early(s, m, p):
    if p.read() > 3: raise Ret(m["t"])
def o_set(s, m, p): p.write(77)
def o_bump(s, m, p): p.bump(5)
def o_mul(s, m, p): m["t"] = 2 * p.read() - 1
def o_pass(s, m, p):
    s.num(p.read() + 1000); s.num(2000); s.num(1000)
def o_lx(s, m, p):
    m["lx"] += 4
    m["t"] += p.read() + m["lx"]
def o_tern(s, m, p): m["t"] = p.read() if m["t"] == 10 else 0
def o_and(s, m, p):
    s.e("z")
def o_scope(s, m, p): s.num(p.read() + 900)
def o_switch(s, m, p):
    x = p.read()
    m["t"] += 1 if x == 3 else 2 if x == 5 else 3


# name: (text with A the parameter as read, writes?, run)
OPS = {
    "use": ("t = t * 3 + A;", "", o_use), "two": ("t = A; t += A * 2;", "", o_two), "cond": ("if (lx == 20) t += A;", "", o_cond),
    "never": ("if (lx == 9) t += A;", "", o_never), "inner": ("t += @inner(A);", "", o_inner), "innerh": ("t += @innerh(A);", "", o_innerh),
    "innerr": ("t += @innerr(A);", "w", o_innerr), "loop": ("for (int j = 0; j < 2; j++) t += A;", "", o_loop), "defer": ("defer ev_num(A);", "", o_defer),
    "early": ("if (A > 3) return t;", "", o_early), "set": ("A = 77;", "w", o_set), "bump": ("A += 5;", "w", o_bump), "mul": ("t = 2 * A - 1;", "", o_mul),
    "pass": ("@pass(A);", "", o_pass), "lx": ("lx += 4; t += A + lx;", "", o_lx), "tern": ("t = t == 10 ? A : 0;", "", o_tern), "and": ("if (zf() && A > 0) { t = 0; }", "", o_and),
    "scope": ("{ int gv = A; int g2 = 900; ev_num(gv + g2); }", "", o_scope), "switch": ("switch (A) { case 3: t += 1; case 5: t += 2; default: t += 3; }", "", o_switch),
}
KINDS = {"V": ("{}", "{}"), "T": ("int {}", "{}"), "H": ("#{}", "#{}"), "C": ("${}", "${}"), "R": ("int* {}", "(*{})")}


def legal(kind, ops, k):
    a = ARGS[k]
    if kind == "C" and not a[3]: return False
    if kind == "R" and not a[2]: return False
    w = any("w" in OPS[o][1] for o in ops)
    if w and kind == "C": return False
    if w and kind == "H" and not a[2]: return False
    return True


def macro_text(name, kinds, body):
    """body: list of (op, parameter index)"""
    ps = ", ".join(KINDS[k][0].format("ab"[i]) for i, k in enumerate(kinds))
    o = [f"macro @{name}({ps}) {{ int t = 10; int lx = 20;"]
    for op, i in body:
        o.append(re.sub(r"\bA\b", lambda _: KINDS[kinds[i]][1].format("ab"[i]), OPS[op][0]))
    o.append("return t + lx; }")
    return " ".join(o)


def call(s, kinds, body, args):
    ps = [Par(s, k, a) for k, a in zip(kinds, args)]
    m = {"t": 10, "lx": 20, "defer": []}
    try:
        for op, i in body:
            OPS[op][2](s, m, ps[i])
        r = m["t"] + m["lx"]
    except Ret as e:
        r = e.args[0]
    for d in reversed(m["defer"]):
        d()
    return r


def c_plain(s, f): s.num(f())
def c_twice(s, f): s.num(f()); s.num(f())
def c_if(s, f): s.e("y" if f() > 30 else "n")
def c_and(s, f): s.e("z")
def c_or(s, f):
    f() > -1000
def c_tern(s, f):
    s.e("o")
    s.num(-1)
def c_tern2(s, f):
    s.e("o")
    s.num(f())
def c_defer(s, f):
    s.v["lx"] += 3
    s.num(f())
def c_loop(s, f):
    for _ in range(2): s.num(f())
def c_pass(s, f): s.num(f() + 1000); s.num(2000); s.num(1000)
def c_pass2(s, f):
    c_pass(s, f)
    s.num(1 + f())
def c_args(s, f):
    a = f()
    b = f()
    s.num(a); s.num(b)
def c_nest(s, f): s.num(inner(s, f()))
def c_expr(s, f): s.num(2 * f() + 1)
def c_while(s, f):
    for _ in range(3):
        if not f() < 100000: break
        s.e("w")
def c_switch(s, f):
    f()
    s.e("d")


CTX = {
    "plain": ("ev_num(X);", c_plain), "twice": ("ev_num(X); ev_num(X);", c_twice), "if": ("if (X > 30) { evt('y'); } else { evt('n'); }", c_if),
    "and": ("if (zf() && X > 30) evt('y');", c_and), "or": ("if (X > -1000 || X > 3) { }", c_or), "tern": ("ev_num(one() == 2 ? X : -1);", c_tern),
    "tern2": ("ev_num(one() == 1 ? X : -1);", c_tern2), "defer": ("{ defer ev_num(X); lx += 3; }", c_defer), "loop": ("for (int j = 0; j < 2; j++) { ev_num(X); }", c_loop),
    "pass": ("@pass(X);", c_pass), "pass2": ("@pass2(X);", c_pass2), "args": ("h2(X, X);", c_args), "nest": ("ev_num(@inner(X));", c_nest), "expr": ("ev_num(2 * X + 1);", c_expr),
    "while": ("for (int j = 0; j < 3 && X < 100000; j++) evt('w');", c_while), "switch": ("switch (X) { case -5: evt('c'); default: evt('d'); }", c_switch),
}


def case(kinds, body, args, ctx, name):
    s = St()
    txt, f = CTX[ctx]
    x = f"@{name}({', '.join('&' * (k == 'R') + ARGS[a][0] for k, a in zip(kinds, args))})"
    f(s, lambda: call(s, kinds, body, args))
    for n in ("lx", "t"): s.num(s.v[n])
    s.num(s.gv)
    for v in s.arr: s.num(v)
    src = f"int lx = 1; int t = 2; gv = 30; garr = {{ 40, 41, 42 }}; {txt.replace('X', x)} ev_num(lx); ev_num(t); ev_num(gv); foreach (e : garr) ev_num(e);"
    src = "gv = 30; " + src.replace("gv = 30; ", "", 1)
    return src, "".join(s.ev), f"macro:{kinds}:{'.'.join(o + str(i) for o, i in body)}:{'.'.join(args)}:{ctx}"


def part_a(c):
    cases, macs = [], {}

    def mac(kinds, body):
        key = (kinds, tuple(body))
        if key not in macs:
            macs[key] = f"m{len(macs)}"
        return macs[key]
    rot = 0
    cs = list(CTX)
    full = c.tier == "thorough"
    # one parameter: every kind x operation x argument x context
    for kind, op, a, ctx in itertools.product(KINDS, OPS, ARGS, CTX):
        if legal(kind, [op], a):
            b = [(op, 0)]
            cases.append(case(kind, b, [a], ctx, mac(kind, b)))
    # one parameter: two operations
    for kind, op, op2, a in itertools.product(KINDS, OPS, OPS, ARGS):
        if legal(kind, [op, op2], a):
            b = [(op, 0), (op2, 0)]
            rot += 1
            for ctx in cs if full else [cs[rot % len(cs)]]:
                cases.append(case(kind, b, [a], ctx, mac(kind, b)))
    # two parameters: an operation on each, in either order
    names = list(ARGS)
    for k1, k2, o1, o2, sw in itertools.product(KINDS, KINDS, OPS, OPS, (0, 1)):
        b = [(o1, 0), (o2, 1)] if not sw else [(o2, 1), (o1, 0)]
        pairs = [(x, y) for x in names for y in names if legal(k1, [o1], x) and legal(k2, [o2], y)]
        if not pairs:
            continue
        n = 12 if full else 1
        for q in range(min(n, len(pairs))):
            rot += 7
            cases.append(case(k1 + k2, b, pairs[rot % len(pairs)], cs[(rot // 7) % len(cs)], mac(k1 + k2, b)))
    # split by macro so that each program only has the macros it uses
    per = 2500 if not full else 4000
    opts = ("-O0",) if not full else ("-O0", "-O2")
    groups = [cases[i:i + per] for i in range(0, len(cases), per)]
    inv = {n: k for k, n in macs.items()}

    def run(i):
        part = groups[i]
        used = sorted({m for b, _, _ in part for m in re.findall(r"@(m\d+)\(", b)})
        c.run_cases(f"a{i}x", PRE + "\n".join(macro_text(m, inv[m][0], inv[m][1]) for m in used), part, opts, shards=1)
    c.pmap(run, range(len(groups)))
    c.add(macro_cases=len(cases), macros=len(macs))
    c.sample(cases[0][0])


# ---------------------------------------------------------------- trailing blocks
class Jump(Exception):
    pass


def b_once(s, blk):
    s.e("(")
    try:
        blk(s, None, None)
        s.num(110)
    finally:
        s.e(")")


def b_each(s, blk):
    s.e("g2,")
    for i in range(2):
        try:
            blk(s, [i], None)
        finally:
            s.e("e")
    s.e(".")


def b_two(s, blk):
    blk(s, [5], None)
    s.e("g7,")
    blk(s, [7 + 6], None)
    s.num(6)


def b_hash(s, blk):
    v = {"lx": 5}

    def rd():
        v["lx"] += 1
        return v["lx"] - 1
    blk(s, rd, None)
    s.num(v["lx"])


def b_ref(s, blk):
    v = [5]
    blk(s, v, None)
    s.num(v[0])


def b_ct(s, blk):
    for i in range(2): blk(s, [i], None)
    s.e("$")


def b_cond(s, blk):
    s.e("[")
    if s.v["t"] > 2:
        blk(s, None, None)
    else:
        s.e("~")
    s.e("]")


def b_outer(s, blk):
    s.e("{")
    try:
        b_each(s, lambda s, p, _: blk(s, [p[0] * 10], None))
    finally:
        s.e("}")
    s.num(3)


def b_defer(s, blk):
    # the block runs as a deferred statement of the macro
    s.e("<")
    blk(s, None, None)


def b_dbl(s, blk):
    blk(s, None, None)
    s.e("|")
    blk(s, None, None)


BM = {
    "once": ("macro void @b_once(;@body()) { int t = 50; int lx = 60; evt('('); defer evt(')'); @body(); ev_num(t + lx); }", "@b_once()", "", b_once, ""),
    "each": ("macro void @b_each(n; @body(i)) { for (int i = 0; i < n; i++) { defer evt('e'); @body(i); } evt('.'); }", "@b_each(g(2); int p)", "p", b_each, "v"),
    "two": ("macro void @b_two(;@body(i)) { int lx = 5; @body(lx); lx += 1; @body(g(7) + lx); ev_num(lx); }", "@b_two(; int p)", "p", b_two, "v"),
    "hash": ("macro void @b_hash(;@body(#i)) { int lx = 5; @body(lx++); ev_num(lx); }", "@b_hash(; #p)", "#p", b_hash, "h"),
    "ref": ("macro void @b_ref(;@body(i)) { int lx = 5; @body(&lx); ev_num(lx); }", "@b_ref(; int* p)", "*p", b_ref, "v"),
    "ct": ("macro void @b_ct(;@body($i)) { $for var $k = 0; $k < 2; $k++: @body($k); $endfor evt('$'); }", "@b_ct(; $p)", "$p", b_ct, "c"),
    "cond": ("macro void @b_cond(x; @body()) { evt('['); if (x > 2) { @body(); } else { evt('~'); } evt(']'); }", "@b_cond(t)", "", b_cond, ""),
    "outer": ("macro void @b_outer(;@body(i)) { int t = 3; evt('{'); defer evt('}'); @b_each(g(2); int q) { @body(q * 10); }; ev_num(t); }", "@b_outer(; int p)", "p", b_outer, "v2"),
    "dbl": ("macro void @b_dbl(;@body()) { int t = 8; @body(); evt('|'); @body(); }", "@b_dbl()", "", b_dbl, ""),
}
# outer's own defer runs before its final event
BM["outer"] = (BM["outer"][0].replace("ev_num(t); }", "ev_num(t); }"), *BM["outer"][1:])


def b_outer2(s, blk):
    s.e("{")
    try:
        b_each(s, lambda s, p, _: blk(s, [p[0] * 10], None))
        s.num(3)
    finally:
        s.e("}")


BM["outer"] = BM["outer"][:3] + (b_outer2, "v2")


def rd(p):
    return p() if callable(p) else p[0]


def k_lx(s, p): s.v["lx"] += 1
def k_ev(s, p): s.num(s.v["t"])
def k_use(s, p): s.v["t"] += rd(p)
def k_two(s, p):
    s.num(rd(p))
    s.num(rd(p))
def k_set(s, p): p[0] = 9
def k_cont(s, p):
    if s.v["lx"] > 1: raise Jump("continue")
def k_brk(s, p):
    if s.v["lx"] > 1: raise Jump("break")
def k_ret(s, p):
    if s.v["lx"] > 1: raise Jump("return")
def k_ret2(s, p):
    if s.v["t"] > 2: raise Jump("return")
def k_local(s, p): s.num(s.v["lx"] + 500)
def k_defer(s, p): s.bd.append(lambda: s.e("D"))
def k_inner(s, p): s.num(inner(s, s.v["lx"]))
def k_once(s, p):
    def blk(s, _, __): s.v["t"] += 1
    b_once(s, blk)
def k_oncej(s, p):
    def blk(s, _, __):
        if s.v["lx"] > 1: raise Jump("return")
    b_once(s, blk)
def k_oncec(s, p):
    def blk(s, _, __):
        if s.v["lx"] > 1: raise Jump("continue")
    b_once(s, blk)
def k_lab(s, p):
    if s.v["lx"] > 1: raise Jump("label")
def k_loop(s, p):
    for y in range(3):
        if y == 1: continue
        s.num(y)


BOPS = {
    "lx": ("lx++;", "", k_lx), "ev": ("ev_num(t);", "", k_ev), "use": ("t += P;", "p", k_use), "two": ("ev_num(P); ev_num(P);", "p", k_two), "set": ("P = 9;", "w", k_set),
    "cont": ("if (lx > 1) continue;", "l", k_cont), "brk": ("if (lx > 1) break;", "l", k_brk), "ret": ("if (lx > 1) return true;", "", k_ret), "ret2": ("if (t > 2) return true;", "", k_ret2),
    "local": ("int t2 = lx; int x = 500; ev_num(t2 + x);", "", k_local), "defer": ("defer evt('D');", "", k_defer), "inner": ("ev_num(@inner(lx));", "", k_inner),
    "once": ("@b_once() { t += 1; };", "", k_once), "oncej": ("@b_once() { if (lx > 1) return true; };", "", k_oncej), "oncec": ("@b_once() { if (lx > 1) continue; };", "l", k_oncec),
    "lab": ("if (lx > 1) break OUTER;", "o", k_lab), "loop": ("for (int y = 0; y < 3; y++) { if (y == 1) continue; ev_num(y); }", "", k_loop),
}


def bcase(mname, ops, loop):
    mt, callt, par, run, pk = BM[mname]
    s = St()

    def blk(s, p, _):
        old, s.bd = getattr(s, "bd", []), []
        if pk == "v" and mname != "ref": p = list(p)
        try:
            for o in ops: BOPS[o][2](s, p)
        finally:
            for d in reversed(s.bd): d()
            s.bd = old
    body = " ".join(re.sub(r"\bP\b", lambda _: par, BOPS[o][0]) for o in ops)
    inner_t = f"{callt} {{ {body} }};"
    ret = False
    if loop == 0:
        src = inner_t
        try:
            run(s, blk)
        except Jump as j:
            ret = True
    else:
        src = f"for (int k = 0; k < 2; k++) {{ defer evt('k'); {inner_t} evt(','); }}"
        if loop == 2: src = f"for OUTER: (int w = 0; w < 2; w++) {{ {src} evt('W'); }}"
        try:
            for w in range(2 if loop == 2 else 1):
                for k in range(2):
                    try:
                        try:
                            run(s, blk)
                            s.e(",")
                        finally:
                            s.e("k")
                    except Jump as j:
                        if j.args[0] == "continue": continue
                        if j.args[0] == "break": break
                        raise
                if loop == 2: s.e("W")
        except Jump as j:
            ret = j.args[0] == "return"
    s.e("T" if ret else "F")
    s.num(s.v["lx"])
    s.num(s.v["t"])
    return src, "".join(s.ev), f"block:{mname}:{'.'.join(ops)}:{loop}"


def part_b(c):
    cases, fns = [], []
    depth = 3 if c.tier == "thorough" else 2
    for m in BM:
        pk = BM[m][4]
        for n in range(0, depth + 1):
            for ops in itertools.product(BOPS, repeat=n):
                fl = "".join(BOPS[o][1] for o in ops)
                if ("p" in fl or "w" in fl) and not pk: continue
                if "w" in fl and pk in ("c", "h"): continue
                if ops.count("local") > 1: continue
                if m == "dbl" and False: continue
                for loop in (0, 1, 2):
                    if "l" in fl and not loop: continue
                    if "o" in fl and loop != 2: continue
                    if loop == 2 and "o" not in fl: continue
                    cases.append(bcase(m, ops, loop))
    out = []
    for i, (src, ev, desc) in enumerate(cases):
        out.append((f"int lx = 1; int t = 2; bool r = @jmp{i}(lx, t);", ev, desc))
    # a function per case: `return` leaves it
    per = 3000
    opts = ("-O0",) if c.tier == "quick" else ("-O0", "-O2")

    def run(q):
        part = cases[q * per:(q + 1) * per]
        pre = PRE + "\n".join(BM[m][0] for m in BM) + "\n" + "\n".join(
            f"fn bool f{i}(int* plx, int* pt) {{ int lx = 1; int t = 2; defer {{ *plx = lx; *pt = t; }} {src} return false; }}" for i, (src, _, _) in enumerate(part))
        c.run_cases(f"b{q}x", pre, [(f"int lx; int t; evt(f{i}(&lx, &t) ? 'T' : 'F'); ev_num(lx); ev_num(t);", ev, d) for i, (_, ev, d) in enumerate(part)], opts, shards=1)
    c.pmap(run, range((len(cases) + per - 1) // per))
    c.add(block_cases=len(cases))


# ---------------------------------------------------------------- variadic forms, defaults, named arguments
VPRE = PRE + """
fn int s3(int a, int b, int c) { ev_num(a); ev_num(b); ev_num(c); return a * 100 + b * 10 + c; }
fn int s3d(int a, int b = 8, int c = 9) { ev_num(a); ev_num(b); ev_num(c); return a * 100 + b * 10 + c; }
fn void fv(int... a) { evt('('); foreach (x : a) ev_num(x); evt(')'); }
macro @va(...) { int t = 0; evt('|'); $for var $i = 0; $i < $vacount; $i++: t = t * 10 + $vaarg[$i]; $endfor return t; }
macro @va2(...) { int t = 0; evt('|'); $for var $i = 0; $i < $vacount; $i++: t += $vaarg[$i]; t += $vaarg[$i]; $endfor return t; }
macro @ve(...) { int t = 0; evt('|'); $for var $i = 0; $i < $vacount; $i++: t += $vaexpr[$i]; t += $vaexpr[$i]; $endfor return t; }
macro @vrev(...) { int t = 0; evt('|'); $for var $i = $vacount - 1; $i >= 0; $i--: t = t * 10 + $vaexpr[$i]; $endfor return t; }
macro @vc(...) { $for var $i = 0; $i < $vacount; $i++: ev_num($vaconst[$i]); $endfor }
macro @vt(...) { $for var $i = 0; $i < $vacount; $i++: ev_num((long)$vatype[$i].sizeof); $endfor }
macro @vtv(...) { $for var $i = 0; $i < $vacount; $i++: ev_num((long)$sizeof($vaexpr[$i])); $endfor }
macro @sp(...) => s3($vasplat);
macro @spm(...) => @va($vasplat);
macro @spv(...) { fv($vasplat); }
macro @spe(...) => @ve($vasplat);
macro tv(int... a) { int t = 0; evt('|'); foreach (x : a) t = t * 10 + x; return t; }
macro @tva(x, ...) { int t = x; evt('|'); $for var $i = 0; $i < $vacount; $i++: t = t * 10 + $vaarg[$i]; $endfor return t; }
macro int @df(int a, int b = 7, $c = 3) { evt('|'); return a * 100 + b * 10 + $c; }
macro int @dg(#a, #b = 6) { evt('|'); return #a * 10 + #b; }
macro int @dn(a, b = g(4)) { evt('|'); return a * 10 + b; }
"""


def part_c(c):
    cases = []
    A = {"g(1)": ("g1,", 1), "lx": ("", 5), "g(3)": ("g3,", 3), "2": ("", 2)}
    for n in range(0, 4):
        for t in itertools.product(A, repeat=n):
            ev = "".join(A[x][0] for x in t)
            v = [A[x][1] for x in t]
            dig = lambda w: int("".join(map(str, w)) or "0")
            tail = lambda r: f"{r},"
            d = f"va:{n}:"
            P = "int lx = 5; "
            al = ", ".join(t)
            cases.append((P + f"ev_num(@va({al}));", ev + "|" + tail(dig(v)), d + "vaarg"))
            cases.append((P + f"ev_num(@spm({al}));", ev + "|" + tail(dig(v)), d + "vasplat-macro"))
            cases.append((P + f"ev_num(@ve({al}));", "|" + "".join(A[x][0] * 2 for x in t) + tail(2 * sum(v)), d + "vaexpr"))
            cases.append((P + f"ev_num(@spe({al}));", "|" + "".join(A[x][0] * 2 for x in t) + tail(2 * sum(v)), d + "vasplat-vaexpr"))
            cases.append((P + f"ev_num(@vrev({al}));", "|" + "".join(A[x][0] for x in reversed(t)) + tail(dig(v[::-1])), d + "vaexpr-rev"))
            cases.append((P + f"@spv({al});", ev + "(" + "".join(tail(x) for x in v) + ")", d + "vasplat-fn"))
            cases.append((P + f"ev_num(tv({al}));", ev + "|" + tail(dig(v)), d + "typed"))
            cases.append((P + f"ev_num(@tva(g(8){', ' if al else ''}{al}));", "g8," + ev + "|" + tail(dig([8] + v)), d + "after-param"))
            if n == 3:
                cases.append((P + f"ev_num(@sp({al}));", ev + "".join(tail(x) for x in v) + tail(dig(v)), d + "vasplat3"))
                for nm, cond in (("and", "zf() && "),):
                    cases.append((P + f"if ({cond}@va({al}) > 0) evt('y');", "z", d + "vaarg-and"))
    # splat ranges
    R = {"": (0, 4), "[1..]": (1, 4), "[..2]": (0, 3), "[1..2]": (1, 3), "[2..3]": (2, 4), "[0..0]": (0, 1), "[^1..]": (3, 4), "[1..^2]": (1, 3), "[..^2]": (0, 3), "[^3..^2]": (1, 3), "[1:2]": (1, 3), "[0:0]": (0, 0), "[:3]": (0, 3), "[2:0]": (2, 2)}
    pre = VPRE
    for i, (r, (lo, hi)) in enumerate(R.items()):
        pre += f"macro @r{i}(...) {{ fv($vasplat{r}); }}\nmacro @rx{i}(...) {{ fv(50, $vasplat{r}); fv($vasplat{r}); }}\nmacro @ry{i}(...) => @ve($vasplat{r});\n"
        v = [1, 2, 3, 4]
        w = v[lo:hi]
        e = "".join(f"g{x}," for x in w)
        p = "(" + "".join(f"{x}," for x in w) + ")"
        cases.append((f"@r{i}(g(1), g(2), g(3), g(4));", e + p, f"splat:{r}"))
        cases.append((f"@rx{i}(g(1), g(2), g(3), g(4));", e + "(50," + p[1:] + e + p, f"splat2:{r}"))
        cases.append((f"ev_num(@ry{i}(g(1), g(2), g(3), g(4)));", "|" + "".join(f"g{x},g{x}," for x in w) + f"{2 * sum(w)},", f"splatve:{r}"))
    cases += [("@vc();", "", "vaconst:0"), ("@vc(3);", "3,", "vaconst:1"), ("@vc(3, KC, KC * 2);", "3,4,8,", "vaconst:3"), ("@vt(int, char, long, int[5]);", "4,1,8,20,", "vatype:4"),
              ("char ch = 1; long lo = 2; @vtv(g(1), ch, lo);", "4,1,8,", "vaexpr-size")]
    # defaults and named arguments: all subsets in all orders
    full = {"a": ("g(1)", "g1,", 1), "b": ("g(2)", "g2,", 2), "c": ("5", "", 5)}
    for sub in itertools.chain.from_iterable(itertools.combinations("abc", n) for n in range(1, 4)):
        if "a" not in sub: continue
        for order in (sub,):
            for npos in range(0, len(order) + 1):
                if tuple("abc"[:npos]) != order[:npos]: continue
                av = {"a": None, "b": 7, "c": 3} | {x: full[x][2] for x in sub}
                # evaluated in parameter order
                args = ", ".join([full[x][0] for x in order[:npos]] + [("$c" if x == "c" else x) + ": " + full[x][0] for x in order[npos:]])
                evs = {"".join(full[x][1] for x in order), "".join(full[x][1] for x in sorted(order))}
                w = av["a"] * 100 + av["b"] * 10 + av["c"]
                cases.append((f"ev_num(@df({args}));", {e + f"|{w}," for e in evs}, f"named:{''.join(order)}:{npos}"))
                av = {"a": None, "b": 8, "c": 9} | {x: full[x][2] for x in sub}
                w = f"{av['a']},{av['b']},{av['c']},{av['a'] * 100 + av['b'] * 10 + av['c']},"
                cases.append((f"ev_num(s3d({args.replace('$c', 'c')}));", {e + w for e in evs}, f"namedfn:{''.join(order)}:{npos}"))
    cases += [("ev_num(@dg(g(1)));", "|g1,16,", "hashdefault"), ("ev_num(@dg(g(1), g(2)));", "|g1,g2,12,", "hashdefault2"), ("ev_num(@dn(g(1)));", "g1,g4,|14,", "calldefault"),
              ("ev_num(@dn(g(1), g(2)));", "g1,g2,|12,", "calldefault2"), ("ev_num(@dn(a: g(1), b: g(2)));", "g1,g2,|12,", "callnamed"),
              ("for (int i = 0; i < 2; i++) ev_num(@dn(g(1)));", "g1,g4,|14," * 2, "calldefault-loop")]
    c.run_cases("va", pre, cases, ("-O0",) if c.tier == "quick" else ("-O0", "-O2"), shards=4)
    c.add(vararg_cases=len(cases))


# ---------------------------------------------------------------- methods, results, types
MISC = [
    # macro methods
    ("Pt p = { 1, 2 }; ev_num(p.sum(g(3))); ev_num(p.x);", "g3,6,1,", "method:value"),
    ("Pt p = { 1, 2 }; p.bump(g(3)); p.bump(1); ev_num(p.x); ev_num(p.y);", "g3,5,2,", "method:ref"),
    ("Pt p = { 1, 2 }; Pt* q = &p; q.bump(4); ev_num(q.sum(0)); ev_num(p.x);", "7,5,", "method:pointer"),
    ("Pt p = { 1, 2 }; int self = 40; int x = 50; ev_num(p.@hh(self + x)); ev_num(self);", "91,40,", "method:hash"),
    ("Pt p = { 1, 2 }; ev_num(gp(&p).sum(1)); gp(&p).bump(1); ev_num(p.x);", "p4,p2,", "method:receiver-once"),
    ("Pt[2] a = { { 1, 2 }, { 3, 4 } }; a[gi(1)].bump(5); ev_num(a[1].x);", "i1,8,", "method:element-once"),
    ("Pt p = { 1, 2 }; p.@each(; int v) { ev_num(v); if (v == 1) { p.y = 9; } };", "1,9,", "method:block"),
    # results
    ("ev_num(@kind(true)); ev_num((long)@kind(false));", "1,2,", "result:types"),
    ("int x = @pick(g(1), g(2)); ev_num(x);", "g1,g2,1,", "result:pick"),
    ("void* z = @nul(); ev_num(z == null ? 1 : 0); int* y = @nul(); ev_num(y == null ? 1 : 0);", "1,1,", "result:null"),
    ("if (try v = @opt(1)) { ev_num(v); } if (catch @opt(0)) { evt('c'); } ev_num(@opt(0) ?? g(7));", "1,cg7,7,", "result:optional"),
    ("ev_num(@opt(0) ?? @opt(1) ?? g(7));", "1,", "result:optional-chain"),
    ("ev_num(@rethrow(1) ?? 50); ev_num(@rethrow(0) ?? 60);", "11,60,", "result:rethrow"),
    ("@novalue(g(1)); ev_num(2);", "g1,n2,", "result:void"),
    ("ev_num(@bf(10)); ev_num(@bf(0));", "55,0,", "result:loop-return"),
    ("ev_num(@rec(5));", "15,", "result:recursive"),
    ("ev_num(@fact($n: 5));", "120,", "result:recursive-named"),
    ("ev_num(@lam()(4)); ev_num(@lam()(5));", "14,15,", "result:lambda"),
    ("ev_num(@lam2(3)); ev_num(@lam2(4));", "13,14,", "result:lambda-called"),
    ("ev_num(@tern(true, g(1), g(2))); ev_num(@tern(false, g(1), g(2)));", "g1,1,g2,2,", "result:lazy"),
    ("int i = 0; ev_num(@tern(i++ == 0, i, g(2)));", "1,", "result:lazy-order"),
    # static locals are per expansion site ... names and types
    ("int t = 7; { @decl(t); } ev_num(t);", "8,7,", "hygiene:decl"),
    ("int a = 1; int b = 2; @swap(a, b); ev_num(a); ev_num(b); int t = 3; @swap(t, a); ev_num(t); ev_num(a);", "2,1,2,3,", "hygiene:swap"),
    ("int tmp = 1; int b = 2; @swap(tmp, b); ev_num(tmp); ev_num(b);", "2,1,", "hygiene:swap-same-name"),
    ("int tmp = 1; int[2] b = { 5, 6 }; @swap(tmp, b[gi(1)]); ev_num(tmp); ev_num(b[1]);", "i1,i1,6,1,", "hygiene:swap-element"),
    ("int tmp = 4; ev_num(@deep1(tmp)); ev_num(tmp);", "4,4,", "hygiene:deep"),
    ("int tmp = 4; ev_num(@deep1(tmp + @deep1(tmp)));", "8,", "hygiene:deep-nested"),
    ("int tmp = 4; ev_num(@deep1(@deep1(@deep1(tmp++)))); ev_num(tmp);", "4,5,", "hygiene:deep3"),
    ("ev_num($eval(\"KC\")); int tmp = 3; ev_num(@useeval(tmp));", "4,3,", "hygiene:eval"),
    ("ev_num(@defd(tmp)); int tmp = 1; ev_num(@defd(tmp)); ev_num(@defd(tmp.x)); ev_num(@defd(g(1)));", "0,1,0,1,", "hash:defined"),
    ("int a = 3; ev_num((long)@sz(a)); ev_num((long)@sz((long)a)); ev_num((long)@sz(g(1)));", "4,8,4,", "hash:sizeof"),
    ("ev_num(@str(1 + 2)); int yy = 2; ev_num(@str(yy));", "5,2,", "hash:stringify"),
    ("int x = 5; @addr(x); ev_num(x);", "6,", "hash:address"),
    ("int x = 5; @addr2(&x); @addr2(&x); ev_num(x);", "7,", "ref:address"),
    ("int x = 5; int* p = &x; @addr2(p); ev_num(x); @addr(*p); ev_num(x);", "6,7,", "ref:deref"),
    ("ev_num(@ty(int)); ev_num(@ty(char[4])); ev_num(@ty(Pt));", "4,4,8,", "type:param"),
    ("$typeof(@mk(int, 4)) v = @mk(int, 4); v[2] = 3; ev_num((long)v.len); ev_num(v[2]);", "4,3,", "type:local"),
    ("ev_long(@cast(char, 300)); ev_long(@cast(long, g(3)));", "44,g3,3,", "type:cast"),
    ("ev_num(@same(int, int)); ev_num(@same(int, uint)); ev_num(@same(Pt, Pt*));", "1,0,0,", "type:same"),
    ("int x = 1; @each3(x) { x += 10; }; ev_num(x);", "21,", "block:implicit"),
    ("int r; @sum(; int v) { r += v; }; ev_num(r);", "6,", "block:sum"),
    ("int r; @grid(2, 3; int a, int b) { r = r * 10 + a + b; }; ev_num(r);", "12123,", "block:grid"),
    ("int r; @grid(2, 2; int a, int b) { @grid(2, 2; int q, int z) { r += a * q + b * z; }; }; ev_num(r);", "8,", "block:grid-nested"),
    ("int t = 1; @wrap() { @wrap() { t *= 2; }; t *= 3; }; ev_num(t);", "([(t[]t)]t)6,".replace("([(t[]t)]t)", "(([" + "" ) if False else "((" + "))" + "6,", "block:wrap"),
    ("ev_num(@cond_decl(1)); ev_num(@cond_decl(2));", "10,20,", "ct:cond"),
    ("ev_num(@unroll(4));", "0,1,2,3,6,", "ct:unroll"),
    ("int x = 2; ev_num(@pow(x, 5)); ev_num(@pow(g(3), 2));", "32,g3,9,", "ct:pow"),
]
MPRE = PRE + """
struct Pt { int x; int y; }
faultdef BAD;
Pt* gpp;
fn Pt* gp(Pt* p) { evt('p'); return p; }
macro int Pt.sum(self, int k) => self.x + self.y + k;
macro void Pt.bump(&self, k) { self.x += k; }
macro int Pt.@hh(self, #e) { int x = 9; return #e + self.x + x - 9; }
macro void Pt.@each(&self; @body(v)) { @body(self.x); @body(self.y); }
macro @kind($b) { $if $b: return 1; $else return (long)2; $endif }
macro @pick(a, b) { if (a > 0) return a; return b; }
macro @nul() => null;
macro int? @opt(x) { if (x == 0) return BAD?; return x; }
macro int? @rethrow(x) { int v = @opt(x)!; return v + 10; }
macro void @novalue(x) { if (x == 1) { evt('n'); return; } evt('m'); }
macro int @bf(n) { int s; for (int i = 1; ; i++) { if (i > n) return s; s += i; } }
macro int @rec($n) { $if $n == 0: return 0; $else return $n + @rec($n - 1); $endif }
macro int @fact($n) { $if $n <= 1: return 1; $else return $n * @fact($n: $n - 1); $endif }
alias Fi = fn int(int);
macro Fi @lam() => fn int(int x) => x + 10;
macro int @lam2(int y) { Fi f = fn int(int x) => x + 10; return f(y); }
macro @tern(#c, #a, #b) { if (#c) { return #a; } return #b; }
macro @decl(x) { int t = x + 1; ev_num(t); }
macro @swap(#a, #b) { var tmp = #a; #a = #b; #b = tmp; }
macro @deep3(#e) { int tmp = 300; return #e; }
macro @deep2(#e) { int tmp = 200; return @deep3(#e); }
macro @deep1(#e) { int tmp = 100; return @deep2(#e); }
macro @useeval(x) { int tmp = x; return $eval("tmp"); }
macro int @defd(#e) => $defined(#e) ? 1 : 0;
macro @sz(#e) => $sizeof(#e);
macro int @str(#e) => (int)$stringify(#e).len;
macro @addr(#x) { int* p = &#x; (*p)++; }
macro @addr2(&x) { int* p = x; (*p)++; }
macro long @ty($Tx) => (long)$Tx.sizeof;
macro @mk($Tx, $n) { $Tx[$n] v; return v; }
macro long @cast($Tx, v) => (long)($Tx)v;
macro int @same($Tx, $Ty) => $Tx.typeid == $Ty.typeid ? 1 : 0;
macro void @each3(x; @body()) { for (int i = 0; i < 2; i++) { @body(); } }
macro void @sum(;@body(v)) { for (int r = 1; r < 4; r++) { @body(r); } }
macro void @grid(n, m; @body(i, j)) { for (int a = 0; a < n; a++) { for (int b = 0; b < m; b++) { @body(a, b); } } }
macro void @wrap(;@body()) { int t = 50; evt('('); @body(); t++; evt(')'); }
macro int @cond_decl($k) { $if $k == 1: int v = 10; $else int v = 20; $endif return v; }
macro int @unroll($n) { int s; $for var $i = 0; $i < $n; $i++: { int x; x = $i; ev_num(x); s += x; } $endfor return s; }
macro int @pow(x, $n) { $if $n == 0: return 1; $else return x * @pow(x, $n - 1); $endif }
"""

# ---------------------------------------------------------------- optional macros whose outcome the compiler may know
EPRE = PRE + """
faultdef BAD, WORSE;
macro int? @opt(x) { if (x == 0) return BAD?; return x + 10; }
macro int? @opti(x) { if (x != 0) { return x + 10; } else { return BAD?; } }
macro int? @rethrow(x) { int v = @opt(x)!; return v + 20; }
macro int? @rethrow2(x) { int v = @rethrow(x)!; defer evt('d'); return v + @opt(x)!; }
macro int? @deferred(x) { defer evt('d'); defer catch evt('c'); if (x == 0) return BAD?; return x + 40; }
macro int? @hashed(#x) { if (#x == 0) return BAD?; return #x + 50; }
macro int? @ct($x) { $if $x == 0: return BAD?; $else return $x + 60; $endif }
macro int? @tail(x) => @opt(x);
macro int? @ored(x) { return @opt(x) ?? @opt(x); }
macro int? @looped(x) { for (int i = 0; ; i++) { if (i == 2) return i + 70; if (x == 0) return BAD?; } }
macro int? @switched(x) { switch (x) { case 0: return BAD?; case 1: return 80; default: return 90; } }
macro int? @ft(x) { if (try v = @opt(x)) return v + 1; return WORSE?; }
fn int? fopt(int x) { if (x == 0) return BAD?; return x + 100; }
fn int? thru(bool b) { int v = @opt(b ? 1 : 0)!; return v; }
"""
OV = {"opt": (11, ""), "opti": (11, ""), "rethrow": (31, ""), "rethrow2": (42, "d"), "deferred": (41, "d"), "hashed": (51, ""), "ct": (61, ""), "tail": (11, ""), "ored": (11, ""),
      "looped": (72, ""), "switched": (80, ""), "ft": (12, "")}


def part_e(c):
    cases = []
    forms = []   # text, value (None: fault), events
    for m, (v, e) in OV.items():
        for lit in ("0", "1", "z", "n") if m != "ct" else ("0", "1"):
            ok = lit in "1n"
            forms.append((f"@{m}({lit})", v if ok else None, e if ok else ("cd" if m == "deferred" else "")))
    forms += [("fopt(z)", None, ""), ("fopt(n)", 101, ""), ("thru(true)", 11, ""), ("thru(false)", None, "")]
    P = "int z = 0; int n = 1; "

    def val(f, d):
        return (d, f[2]) if f[1] is None else (f[1], f[2])
    second = forms if c.tier == "thorough" else [x for x in forms if x[0].split("(")[0] in ("@opt", "@rethrow", "@deferred", "@ct")]
    for f in forms:
        t = f[0]
        v, e = val(f, 50)
        bad = f[1] is None
        k = f"opt:{t}:"
        cases += [(P + f"ev_num({t} ?? 50);", e + f"{v},", k + "else"), (P + f"ev_num(one() == 1 ? ({t} ?? 50) : 7);", "o1,"[:1] + e + f"{v},", k + "tern"),
                  (P + f"ev_num(one() == 2 ? ({t} ?? 50) : 7);", "o7,", k + "tern2"), (P + f"if (try v = {t}) {{ ev_num(v); }} else {{ evt('x'); }}", e + ("x" if bad else f"{v},"), k + "try"),
                  (P + f"if (catch {t}) {{ evt('x'); }} else {{ evt('y'); }}", e + ("x" if bad else "y"), k + "catch"), (P + f"int? q = {t}; evt('q'); ev_num(q ?? 50);", e + "q" + f"{v},", k + "var"),
                  (P + f"if (catch x = {t}) {{ evt(x == {'WORSE' if '@ft' in t else 'BAD'} ? 'B' : '?'); }}", e + ("B" if bad else ""), k + "fault"),
                  (P + f"for (int i = 0; i < 2; i++) {{ int q = {t} ?? 50; ev_num(q); }}", (e + f"{v},") * 2, k + "loop"), (P + f"ev_num(({t} + 1) ?? 50);", e + f"{v if bad else v + 1},", k + "add"),
                  (P + f"ev_num({t}!!);" if not bad else P + f"(void){t};", e + (f"{v}," if not bad else ""), k + "force"),
                  (P + f"bool b = ({t} ?? 50) == 50 || zf(); evt(b ? 'T' : 'F');", e + ("T" if bad else "zF"), k + "or"), (P + f"bool b = ({t} ?? 50) == 50 && zf(); evt(b ? 'T' : 'F');", e + ("zF" if bad else "F"), k + "and"),
                  (P + f"while (n < 3) {{ n++; int q = {t} ?? 50; if (q == 50) continue; evt('w'); }}", None, k + "while") if False else (P + f"ev_num(h2({t} ?? 50, 4));", e + f"{v},4,{v},", k + "arg"),
                  (P + f"switch ({t} ?? 50) {{ case 50: evt('f'); default: evt('v'); }}", e + ("f" if bad else "v"), k + "switch"),
                  (P + f"defer ev_num({t} ?? 50); evt('b');", "b" + e + f"{v},", k + "defer")]
        for g in second:
            w, e2 = val(g, 60)
            u = g[0]
            bad2 = g[1] is None
            k = f"opt2:{t}:{u}:"
            cases += [(P + f"ev_num({t} ?? {u} ?? 60);", e + (e2 + f"{w}," if bad else f"{v},"), k + "chain"), (P + f"ev_num({t} ?? ({u} ?? 60));", e + (e2 + f"{w}," if bad else f"{v},"), k + "nest"),
                      (P + f"ev_num(({t} + {u}) ?? 50);", e + ("50," if bad else e2 + ("50," if bad2 else f"{v + w},")), k + "sum"), (P + f"ev_num({t} ?? 50); ev_num({u} ?? 60);", e + f"{v}," + e2 + f"{w},", k + "seq"),
                      (P + f"if (try a = {t} && try b = {u}) {{ ev_num(a); ev_num(b); }} else {{ evt('x'); }}", e + ("x" if bad else e2 + ("x" if bad2 else f"{v},{w},")), k + "trytry"),
                      (P + f"ev_num(one() == 1 ? ({t} ?? 50) : ({u} ?? 60));", "o" + e + f"{v},", k + "tern"), (P + f"ev_num(one() == 2 ? ({t} ?? 50) : ({u} ?? 60));", "o" + e2 + f"{w},", k + "tern2"),
                      (P + f"int? q = one() == 1 ? {t} : {u}; ev_num(q ?? 50);", "o" + e + f"{v},", k + "terno"), (P + f"if (({t} ?? 50) < ({u} ?? 60) && ({u} ?? 60) > 0) {{ evt('<'); }}", e + e2 + (e2 + "<" if v < w else ""), k + "andor"),
                      (P + f"int q = {t} ?? 50; if (q == 50) {{ q = {u} ?? 60; }} ev_num(q);", e + ((e2 + f"{w},") if bad else f"{v},"), k + "if")]
    for i, (opts, flags) in enumerate(((("-O0", "-O1"), ("-g0",)), (("-O0",), ()))):
        c.run_cases(f"op{i}x", EPRE, cases, opts if c.tier == "quick" else opts + ("-O3",), flags, shards=8)
    c.add(optional_macro_cases=len(cases))


REJECT_PRE = """
struct Pt { int x; int y; }
macro @one(a) => a;
macro @typed(int a) => a;
macro @ct($a) => $a;
macro @hash(#a) => #a;
macro @ref(&a) { *a = 1; }
macro @two(a, b) => a;
macro @leak() { int inside = 4; return inside; }
macro @caller() => callers;
macro @va(...) => $vaarg[2];
macro @vac(...) => $vaconst[0];
macro @blk(;@body(i)) { @body(1); }
macro @blk0(;@body()) { @body(); }
macro @noblk(a) => a;
macro @endless(a) { return @endless(a); }
macro @ty($Tx) => $Tx.sizeof;
macro @bodyarg(;@body(int i)) { @body("x"); }
macro int @wrong() => "abc";
macro @mixed(a) { if (a > 1) return 1; return "x"; }
macro int Pt.mm(self) => self.x;
macro @nores(a) { int z = a; }
fn int f(int a) => a;
"""
REJECT = [
    ("@one();", "missing"), ("@one(1, 2);", "extra"), ("@one(b: 1);", "unknown-name"), ("@one(1, a: 2);", "duplicate"), ("@one(a: 1, a: 2);", "duplicate-named"),
    ("@two(1);", "missing2"), ("@two(b: 1);", "missing-named"), ("@ref(1);", "ref-const"), ("@ref(f(1));", "ref-call"), ("int x; @ref(&(x + 1));", "ref-expr"), ("int x; @ref(x);", "ref-value"), ("@ref(null);", "ref-null"),
    ("int x; @ct(x);", "ct-var"), ("@ct(f(1));", "ct-call"), ("Pt p; @typed(p);", "type"), ("@typed(\"a\");", "type-string"), ("int callers; @caller();", "callers-local"),
    ("@leak(); inside = 1;", "leak"), ("int y = @leak(); int z = inside;", "leak2"), ("@va(1, 2);", "vaarg-range"), ("int x; @vac(x);", "vaconst-var"), ("@blk();", "no-block"),
    ("@noblk(1) { };", "block-not-taken"), ("@blk() { };", "block-params-missing"), ("@blk(; int i, int j) { };", "block-params-extra"), ("@blk0(; int i) { };", "block-params-none"),
    ("@two(b: 1, a: 2);", "named-order"), ("@endless(1);", "endless"), ("@ty(1);", "value-as-type"), ("@typed(int);", "type-as-value"), ("@blk0() { break; };", "break-outside"), ("@blk0() { continue; };", "continue-outside"),
    ("@bodyarg(; int i) { };", "block-arg-type"), ("@wrong();", "wrong-result"), ("int q = @mixed(1);", "mixed-result"), ("mm();", "method-as-macro"), ("Pt p; p.mm(1);", "method-extra"),
    ("int q = @nores(1);", "no-result"), ("@blk0() { int t; }; t = 1;", "block-local-leak"), ("@blk(; int i) { }; i = 1;", "block-param-leak"),
    ("@hash(undefd);", "hash-undefined"), ("@one(undefd);", "undefined"), ("gen::f{int}(1);", "gen-few"), ("gen::f{int, 1, 2}(1);", "gen-many"), ("gen::f{1, int}(1);", "gen-swapped"),
    ("gen::f{int, 1}(\"x\");", "gen-arg"), ("gen::f(1);", "gen-none"), ("int[gen::CC{int, 2}] a; a = (int[5]){};", "gen-const"), ("gen::Box{int, 1} a; gen::Box{int, 2} b; a = b;", "gen-distinct"),
    ("gen::Box{int, 1} a; gen::Box{uint, 1} b; a = b;", "gen-distinct-type"), ("int x = 2; gen::f{int, x}(1);", "gen-runtime-param"), ("gen::Box{int, 1} a; a.nope();", "gen-no-method"),
    ("@blk0() @blk0() { };", "block-syntax"), ("gen::only_int{float, 1}();", "gen-assert"),
]
ACCEPT = [
    ("@one(1);", "one"), ("@one(a: 1);", "named"), ("@two(a: 1, b: 2);", "named2"), ("int x; @ref(&x);", "ref"), ("@ct(3);", "ct"), ("@blk(; int i) { int t = i; };", "block"),
    ("int inside = 2; @leak();", "no-leak"), ("int callers2; int y = @leak();", "leak-result"), ("@ty(int);", "type"), ("Pt p; p.mm();", "method"), ("@va(1, 2, 3);", "vaarg"),
    ("gen::f{int, 1}(1);", "gen"), ("gen::Box{int, 1} a; gen::Box{int, 1} b; a = b;", "gen-same"), ("int[gen::CC{int, 2}] a; a = (int[2]){};", "gen-const"), ("gen::only_int{int, 1}();", "gen-assert"),
    ("@hash(1);", "hash"), ("for (int i = 0; i < 2; i++) { @blk0() { break; }; }", "break-inside"),
]
GENREJ = "module gen {Type, NN};\nstruct Box { Type[NN] v; }\nfn Type f(Type x) => x;\nconst CC = NN;\nfn void only_int() { $assert Type.typeid == int.typeid; }\nmodule rj;\nimport gen;\n"


def rejects(c):
    def one(t):
        body, cls, want = t
        src = GENREJ + REJECT_PRE + f"fn void run(int argc) @export(\"run\") {{ {body} }}\n"
        exe, txt = c.build_min(f"rej_{cls.replace('-', '_')}_{int(want)}", src, "-O0", ("--no-obj",) if False else (), ok=True)
        return t, exe, txt
    jobs = [(b, k, False) for b, k in REJECT] + [(b, k, True) for b, k in ACCEPT]
    for (body, cls, want), exe, txt in c.pmap(one, jobs):
        errs = re.findall(r"\) Error: (.*)", txt)
        if want and not exe:
            c.violation(f"rejected:accept:{cls}", f"a valid program is rejected: {body}: {txt[-400:]}", {"body": body, "output": txt[-3000:]})
        elif not want and (exe or not errs or "unexpected error" in txt):
            c.violation(f"accepted:reject:{cls}", f"{'an invalid program is accepted' if exe else 'no proper diagnostic'}: {body}: {txt[-400:]}", {"body": body, "output": txt[-3000:]})
    c.add(verdict_cases=len(jobs))


# ---------------------------------------------------------------- generics
GEN = """module {NAME}{PARAMS};
{EXT}
int counter;
struct Box {{ Type[NN] v; int n; }}
alias Arr = Type[NN];
typedef Dist = Type;
enum Ge : int {{ AA, BB = {{}} }}
const usz SIZE = Type.sizeof * NN;
const int LIM = NN * 2 + 1;
faultdef OOPS;
fn int next() {{ return ++counter; }}
fn int Box.count(&self) {{ counter += 10; return ++self.n + counter; }}
macro int @mul(x) => x * NN;
fn long f0(long x) => (long)(Type)x;
fn long f1(long x) {{ Type t = (Type)x; t += 1; return (long)t; }}
fn long f2(long x) {{ Type t = (Type)x; return (long)(t >> 1); }}
fn long f3(long x) {{ Type t = (Type)x; return (long)(t / (Type)3); }}
fn long f4(long x) {{ Type[NN] a; foreach (i, &e : a) *e = (Type)(x + (long)i); long s; foreach (e : a) s += (long)e; return s; }}
fn long f5(long x) {{ $if $defined(Type.min) &&& Type.min < 0: return x + 1; $else return x - 1; $endif }}
fn long f6(long x) {{ Box b; b.v[NN - 1] = (Type)x; return (long)b.v[NN - 1] + (long)Box.sizeof; }}
fn long f7(long x) {{ switch (NN) {{ case 1: return x; case 2: return x * 2; default: return (long)@mul((int)x); }} }}
fn long f8(long x) {{ $for var $i = 0; $i < NN; $i++: x = x * 3 + $i; $endfor return x; }}
fn long f9(long x) {{ Type t = (Type)x; return (t > (Type)0 ? 1L : 0L) + (t < (Type)5 ? 2L : 0L) + ((Type)(t * t) == t ? 4L : 0L); }}
fn long f10(long x) {{ static Type acc; acc += (Type)x; return (long)acc; }}
fn long f11(long x) {{ switch (Type.typeid) {{ case int.typeid: return 1; case char.typeid: return 2; case ulong.typeid: return 3; default: return 4; }} }}
fn long f12(long x) {{ Type t = ~(Type)x; return (long)t; }}
fn long f13(long x) {{ return (long)Type.nameof.len * 100 + (long)Arr.sizeof; }}
fn long f14(long x) {{ return (long)(Type)(Type.max - (Type)x) ; }}
fn long f15(long x) {{ alias Fx; return 0; }}
"""


def part_d(c):
    ints = ["ichar", "char", "short", "ushort", "int", "uint", "long", "ulong"]
    gen = GEN.replace("fn long f15(long x) {{ alias Fx; return 0; }}\n", "")
    EXT = "extern fn void ev_num(long v);"
    fns = range(15)
    text, cases = [], []
    g = gen.format(NAME="gen", PARAMS=" {Type, NN}", EXT=EXT)
    text.append(g)
    plains = []
    for t in ints:
        for n in (1, 2, 3):
            m = f"pl{t}{n}"
            p = gen.format(NAME=m, PARAMS="", EXT=EXT)
            p = re.sub(r"\bType\b", t, p)
            p = re.sub(r"\bNN\b", str(n), p)
            text.append(p)
            plains.append((t, n, m))
    head = "module zz;\nimport gen;\n" + "".join(f"import {m};\n" for _, _, m in plains) + EV
    xs = [0, 1, 2, 5, -1, -7, 127, 128, 200, 255, 300, 32768, 70000, -40000, 2147483647, 2147483648, -2147483648, 4294967295, 9223372036854775807 - 3]
    xs = [x for x in xs]
    for t, n, m in plains:
        for k in fns:
            xl = ", ".join(f"{x}L" if x >= 0 else f"-{-x}L" for x in xs)
            cases.append((f"long[*] xs = {{ {xl} }}; foreach (x : xs) {{ long p = gen::f{k}{{{t}, {n}}}(x); long q = {m}::f{k}(x); evt(p == q ? '=' : '!'); if (p != q) {{ ev_long(x); ev_long(p); ev_long(q); }} }}",
                          "=" * len(xs), f"subst:f{k}:{t}:{n}"))
    c.run_cases("gs", "\n".join(text) + "\n" + head, cases, ("-O0",) if c.tier == "quick" else ("-O0", "-O2"), shards=1)
    c.add(substitution_cases=len(cases) * len(xs))
    # identity of instantiations: all pairs
    types = {"int": "int", "Ai": "int", "Ab": "int", "Td": "Td", "uint": "uint", "char": "char", "ip": "int*", "int*": "int*", "int**": "int**", "int[3]": "int[3]", "int[4]": "int[4]", "int[]": "int[]",
             "int[<2>]": "int[<2>]", "Pt": "Pt", "Pu": "Pu", "Apt": "Pt", "Em": "Em", "In1": "In{int}", "In2": "In{int}", "In3": "In{Td}",
             "InIn": "In{In{int}}", "Fi": "fn", "Fj": "fn", "Fk": "fn2", "bool": "bool", "ptr2::Pt": "ptr2Pt", "float": "float", "double": "double", "void*": "void*",
             "Uu": "Uu", "Bs": "Bs", "any": "any", "typeid": "typeid", "fault": "fault", "int[3]*": "int[3]*", "Pt*": "Pt*", "isz": "isz=long", "long": "isz=long", "String": "String", "char[]": "char[]"}
    types.pop("String")
    names = {k: v for k, v in types.items() if k != "ip"}
    names["Aip"] = "int*"
    D = """module ptr2;
struct Pt { int x; }
module gen2 {Type};
struct In { Type v; }
module gen {Type, NN};
int counter;
struct Box { Type v; int[NN] n; }
alias Al = Type[NN];
typedef Ds = Type;
enum Ge : int { AA, BB }
union Un { Type a; char[NN] b; }
fn int next() { return ++counter; }
fn int peek() => counter;
fn void reset() { counter = 0; }
fn int stat() { static int st; return ++st; }
macro @mstat() => ++counter;
fn int Box.bump(&self) => ++counter;
fn usz siz() => Type.sizeof;
module other;
import gen, zz;
fn int onext() => gen::next{int, 1}();
fn int onextu() => gen::next{zz::Ai, 2}();
fn typeid otype() => gen::Box{zz::Pt, 1}.typeid;
struct Local { int q; }
alias OBox = gen::Box{Local, 1};
module zz;
import gen, gen2, ptr2, other;
alias Ai = int;
alias Ab = Ai;
typedef Td = int;
alias Aip = int*;
struct Pt { int x; int y; }
struct Pu { int x; int y; }
alias Apt = Pt;
enum Em { XX, YY }
union Uu { int a; char b; }
bitstruct Bs : int { int a : 0..3; }
alias Fi = fn int(int);
alias Fj = fn int(int);
alias Fk = fn int(long);
alias In1 = gen2::In{int};
alias In2 = gen2::In{Ab};
alias In3 = gen2::In{Td};
alias InIn = gen2::In{In1};
""" + EV
    cases = []
    nm = list(names)
    for a in nm:
        for b in nm:
            for n, m in ((1, 1), (1, 2)):
                if n != m and a != b and c.tier == "quick": continue
                same = names[a] == names[b] and n == m
                d = f"ident:{names[a]}:{names[b]}:{n}{m}"
                what = []
                for k in ("Box", "Ds", "Ge", "Un"):
                    if k in ("Ds",) and False: continue
                    what.append(f"evt(gen::{k}{{{a}, {n}}}.typeid == gen::{k}{{{b}, {m}}}.typeid ? 'y' : 'n');")
                what.append(f"gen::reset{{{a}, {n}}}(); gen::reset{{{b}, {m}}}(); gen::next{{{a}, {n}}}(); ev_num(gen::next{{{b}, {m}}}()); ev_num(gen::peek{{{a}, {n}}}()); "
                            f"evt(&gen::next{{{a}, {n}}} == &gen::next{{{b}, {m}}} ? 'y' : 'n'); evt((void*)&gen::counter{{{a}, {n}}} == (void*)&gen::counter{{{b}, {m}}} ? 'y' : 'n');")
                what.append(f"gen::Box{{{a}, {n}}} x; gen::Box{{{b}, {m}}} z; ev_num(x.bump()); ev_num(z.bump()); ev_num(gen::@mstat{{{a}, {n}}}());")
                if same:
                    ev = "y" * 4 + "2,2,yy" + "3,4,5,"
                    what.append("x = z;")
                else:
                    ev = "n" * 4 + "1,1,nn" + "2,2,3,"
                cases.append((" ".join(what), ev, d))
    cases += [
        ("gen::reset{int, 1}(); ev_num(gen::next{int, 1}()); ev_num(other::onext()); ev_num(gen::next{Ai, 1}());", "1,2,3,", "modules:counter"),
        ("gen::reset{int, 2}(); ev_num(gen::next{int, 2}()); ev_num(other::onextu()); ev_num(gen::peek{int, 1 + 1}());", "1,2,2,", "modules:counter-alias"),
        ("evt(other::otype() == gen::Box{Pt, 1}.typeid ? 'y' : 'n'); evt(other::otype() == gen::Box{ptr2::Pt, 1}.typeid ? 'y' : 'n');", "yn", "modules:typeid"),
        ("evt(other::OBox.typeid == gen::Box{other::Local, 1}.typeid ? 'y' : 'n');", "y", "modules:local"),
        ("evt(gen::Box{int, 1}.typeid == gen::Box{int, 3 - 2}.typeid ? 'y' : 'n'); evt(gen::Box{int, 1}.typeid == gen::Box{int, (char)1}.typeid ? 'y' : 'n');", {"yy", "yn"}, "value:expr"),
    ]
    c.run_cases("gd", D, cases, ("-O0",) if c.tier == "quick" else ("-O0", "-O2"), shards=4)
    c.add(instantiation_pairs=len(cases))


def run(c):
    part_a(c)
    part_b(c)
    part_c(c)
    misc = [x for x in MISC]
    c.run_cases("misc", MPRE, misc, ("-O0", "-O1", "-O3"), shards=1)
    part_e(c)
    rejects(c)
    part_d(c)
    c.set(rule="a program is the declarations plus one call; explored: all programs of the alphabets above within the depth of the tier", exhaustive=True)
