import itertools

from vlib.check import PRE
from vlib.flow import Brk, Cont, Ret, Next, Fuel

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration: every nesting of two constructs over all leaf jumps, verdict against reachability on the control flow graph, accepted functions run under every decision script"
NOTE = ("Every function body built from two nested constructs out of 17 (if forms, constant conditions, all loops, integer/enum/bool switches with and without default), every combination of leaf "
        "statements (return, labelled and plain break/continue, nextcase, noreturn call, conditional return) in their arms, as function and as macro: rejected if the end is reachable, accepted if it is not "
        "(loops with an open condition are taken to possibly end); accepted ones are run under all 4-bit decision scripts and give the interpreter's trace and value.")

# constructs: name -> number of arms
ARMS = {"blk": 1, "if": 1, "ifelse": 2, "iftrue": 1, "iffalse": 2, "while": 1, "wtrue": 1, "for": 1, "forever": 1, "do": 1, "dotrue": 1, "once": 1,
        "foreach": 1, "swd": 2, "swn": 2, "enum": 2, "bool": 2}
LOOPS = {"while", "wtrue", "for", "forever", "do", "dotrue", "foreach", "once"}
SWITCH = {"swd", "swn", "enum", "bool"}


def emit(s):
    k = s[0]
    if k == "leaf":
        j = s[1]
        s = s + (None,)
        return {"": "", "ev": f"evt('{s[2]}');", "ret": "return ev_i(%d, 'r');" % s[2] if j == "ret" else "", "die": "die();",
                "cret": "if (bit('q')) return 9;", "break": f"break {s[2] or ''};", "continue": f"continue {s[2] or ''};", "nextcase": "nextcase;",
                "cbreak": f"if (bit('k')) break {s[2] or ''};"}[j]
    _, lab, arms = s
    b = [" ".join(emit(x) for x in a) for a in arms]
    ch = lab[0].lower()
    l = f" {lab}:" if uses(arms, lab) else ""
    return {"blk": lambda: f"{{ {b[0]} }}", "if": lambda: f"if{l} (bit('{ch}')) {{ {b[0]} }}",
            "ifelse": lambda: f"if{l} (bit('{ch}')) {{ {b[0]} }} else {{ {b[1]} }}", "iftrue": lambda: f"if{l} (true) {{ {b[0]} }}",
            "iffalse": lambda: f"if{l} (false) {{ {b[0]} }} else {{ {b[1]} }}", "while": lambda: f"while{l} (bit('{ch}')) {{ {b[0]} }}",
            "wtrue": lambda: f"while{l} (true) {{ {b[0]} }}", "for": lambda: f"for{l} (; bit('{ch}'); evt('u')) {{ {b[0]} }}",
            "forever": lambda: f"for{l} (;;evt('u')) {{ {b[0]} }}", "do": lambda: f"do{l} {{ {b[0]} }} while (bit('{ch}'));",
            "dotrue": lambda: f"do{l} {{ {b[0]} }} while (true);", "once": lambda: f"do{l} {{ {b[0]} }};",
            "foreach": lambda: f"foreach{l} (x_{ch} : two) {{ evt(x_{ch}); {b[0]} }}",
            "swd": lambda: f"switch{l} (sel('{ch}')) {{ case 1: {b[0] or 'break;'} default: {b[1]} }}",
            "swn": lambda: f"switch{l} (sel('{ch}')) {{ case 1: {b[0] or 'break;'} case 0: {b[1]} }}",
            "enum": lambda: f"switch{l} (En.from_ordinal(bit('{ch}') ? 1 : 0)) {{ case AAA: {b[0] or 'break;'} case BBB: {b[1]} }}",
            "bool": lambda: f"switch{l} (bit('{ch}')) {{ case true: {b[0] or 'break;'} case false: {b[1]} }}"}[k]()


def uses(arms, lab):
    return any((x[0] == "leaf" and x[1] in ("break", "continue", "cbreak") and x[2] == lab) or (x[0] != "leaf" and uses(x[2], lab)) for a in arms for x in a)


def seq(stmts, strict, stack):
    """the outcomes a statement list can have: F (reaches its end), ('B'|'C', label)"""
    outs, live = set(), True
    for s in stmts:
        if not live and strict: break
        o = outcomes(s, strict, stack)
        outs |= o - {"F"}
        if "F" not in o: live = False
    if live: outs.add("F")
    return outs


def target(lab, kind, stack):
    if lab: return lab
    for k, l in reversed(stack):
        if kind == "C" and k in LOOPS or kind == "B" and (k in LOOPS or k in SWITCH): return l


def outcomes(s, strict, stack):
    k = s[0]
    if k == "leaf":
        j = s[1]
        if j in ("", "ev", "cret"): return {"F"}
        if j in ("ret", "die", "nextcase"): return set()
        t = ("C" if j == "continue" else "B", target(s[2], "C" if j == "continue" else "B", stack))
        return {t, "F"} if j == "cbreak" else {t}
    _, lab, arms = s
    st = stack + [(k, lab)]
    a = [seq(x, strict, st) for x in arms]
    B, C = ("B", lab), ("C", lab)
    u = set().union(*a)
    far = u - {"F", B, C}
    if k == "blk": return a[0]
    if k == "if": return far | {"F"}
    if k == "ifelse": return far | ({"F"} if u & {"F", B} else set())
    if k == "iftrue": return (a[0] - {B}) | ({"F"} if B in a[0] else set())
    if k == "iffalse":
        if not strict: return far | ({"F"} if a[1] & {"F"} or B in u else set())
        return (a[1] - {B}) | ({"F"} if B in a[1] else set())
    if k in ("while", "for", "foreach"): return far | {"F"}
    if k in ("wtrue", "forever", "dotrue"): return far | ({"F"} if B in u else set())
    if k in ("do", "once"):
        if strict: return far | ({"F"} if u & {"F", B, C} else set())
        return far | {"F"}
    if k == "swd" or k == "enum": return far | ({"F"} if u & {"F", B} or not arms[0] else set())
    if k == "swn": return far | {"F"}
    if k == "bool":
        if strict: return far | ({"F"} if u & {"F", B} or not arms[0] else set())
        return far | {"F"}


class Run:
    def __init__(self, script): self.s, self.log, self.n = script, [], 0
    def tick(self):
        self.n += 1
        if self.n > 60: raise Fuel()
    def ev(self, c):
        self.tick()
        self.log.append(c)
    def bit(self, c):
        self.ev(c)
        b = self.s & 1
        self.s >>= 1
        return b
    def block(self, l):
        for s in l: self.stmt(s)
    def arm(self, lab, l, loop=False):
        """runs it; True if the construct is left"""
        try:
            self.block(l)
        except Brk as e:
            if e.l != lab: raise
            return True
        except Cont as e:
            if e.l != lab: raise
        return False
    def stmt(self, s):
        self.tick()
        k = s[0]
        if k == "leaf":
            j = s[1]
            if j == "ev": self.ev(s[2])
            elif j == "ret":
                self.ev("r")
                raise Ret(s[2], False)
            elif j == "die": raise Fuel()
            elif j == "cret":
                if self.bit("q"): raise Ret(9, False)
            elif j == "break": raise Brk(target(s[2], "B", self.stack))
            elif j == "cbreak":
                if self.bit("k"): raise Brk(target(s[2], "B", self.stack))
            elif j == "continue": raise Cont(target(s[2], "C", self.stack))
            elif j == "nextcase": raise Next(None, None)
            return
        _, lab, arms = s
        ch = lab[0].lower()
        self.stack = getattr(self, "stack", []) + [(k, lab)]
        try:
            if k == "blk": self.block(arms[0])
            elif k == "if":
                if self.bit(ch): self.arm(lab, arms[0])
            elif k == "ifelse": self.arm(lab, arms[0] if self.bit(ch) else arms[1])
            elif k == "iftrue": self.arm(lab, arms[0])
            elif k == "iffalse": self.arm(lab, arms[1])
            elif k in SWITCH:
                v = (self.bit(ch) | self.bit(ch) << 1) if k in ("swd", "swn") else self.bit(ch)
                if k == "bool": i = 0 if v else 1
                elif k == "enum": i = v
                elif k == "swd": i = 0 if v == 1 else 1
                else: i = {1: 0, 0: 1}.get(v)
                while i is not None:
                    try:
                        self.arm(lab, arms[i])
                        break
                    except Next:
                        i += 1
            else:
                first, n = True, 0
                while True:
                    self.tick()
                    if k in ("while", "for") or k == "do" and not first:
                        if not self.bit(ch): break
                    if k == "once" and not first: break
                    if k == "foreach":
                        if n == 2: break
                        self.ev("12"[n])
                        n += 1
                    first = False
                    if self.arm(lab, arms[0]): break
                    if k in ("for", "forever"): self.ev("u")
        finally:
            self.stack = self.stack[:-1]


def leaves(inner, outer, arm, thorough):
    """the statement lists possible in arm `arm` of construct `inner` (None: directly in an arm of outer)"""
    yield []
    yield [("leaf", "ev", "x")]
    yield [("leaf", "ret", 3 + arm)]
    yield [("leaf", "die")]
    yield [("leaf", "cret")]
    st = [(outer, "OUT")] + ([(inner, "INN")] if inner else [])
    if target(None, "B", st): yield [("leaf", "break", None)]
    if target(None, "C", st): yield [("leaf", "continue", None)]
    for k, l in st:
        if k != "blk": yield [("leaf", "break", l)]
        if k in LOOPS: yield [("leaf", "continue", l)]
    if inner in SWITCH and arm == 0: yield [("leaf", "nextcase")]
    if inner and target(None, "B", st): yield [("leaf", "cbreak", None), ("leaf", "ret", 7)]
    if outer != "blk": yield [("leaf", "cbreak", "OUT"), ("leaf", "ret", 8)]


TAILS = {"": [], "ret": [("leaf", "ret", 6)], "break": [("leaf", "break", "OUT")]}


def programs(thorough):
    for outer, inner in itertools.product(ARMS, ARMS):
        for la in itertools.product(*(list(leaves(inner, outer, i, thorough)) for i in range(ARMS[inner]))):
            for tail in TAILS:
                if tail == "break" and outer == "blk": continue
                for pos in range(ARMS[outer]):
                    for other in ([None] if ARMS[outer] == 1 else ["ret", "ev"] if not thorough else ["", "ev", "ret", "break"]):
                        node = [(inner, "INN", [list(x) for x in la])] + TAILS[tail]
                        o = {"": [], "ev": [("leaf", "ev", "o")], "ret": [("leaf", "ret", 2)], "break": [("leaf", "break", "OUT")]}.get(other)
                        arms = [node] if ARMS[outer] == 1 else ([node, o] if pos == 0 else [o, node])
                        if ARMS[inner] == 2 and not thorough and tail and ARMS[outer] == 2 and other == "ev": continue
                        yield [(outer, "OUT", arms)]


PRELUDE = """extern fn void die() @noreturn @extern("abort");
char[2] two = { '1', '2' };
enum En { AAA, BBB }
tlocal uint script;
fn bool bit(int c) @noinline { evt(c); bool b = (script & 1) == 1; script >>= 1; return b; }
fn int sel(int c) @noinline { int a = bit(c) ? 1 : 0; int b = bit(c) ? 2 : 0; return a | b; }
"""


def MISS(e): return "Missing return" in e or "implicitly returns 'void'" in e


SPECIAL = [  # (declaration, must it be rejected)
    ("fn int z%d(En e, En a, En b) { switch (e) { case a: return 1; case b: return 2; } }", True),
    ("fn int z%d(En e, En a, En b) { switch (e) { case a: return 1; case b: return 2; default: return 3; } }", False),
    ("fn int z%d(En e, En a) { switch (e) { case a: return 1; } return 3; }", True),
    ("fn int z%d(En e, En a) { switch (e) { case AAA: return 1; case a: return 2; case BBB: return 3; } }", False),
    ("fn int z%d(En e) { switch (e) { case AAA..BBB: return 1; } }", False),
    ("fn int z%d(int e) { switch (e) { case int.min..0: return 1; case 1..int.max: return 2; } }", True),
    ("fn int z%d(typeid e) { switch (e) { case int: return 1; case bool: return 2; } }", True),
    ("fn int z%d(char[] s) { foreach (c : s) { return c; } }", True),
    ("fn int? z%d() { may()!; }", True),
    ("fn int? z%d() { return may()!; }", False),
    ("fn int? z%d() { if (catch e = may()) { return e?; } }", True),
    ("fn int? z%d() { int? x = may(); if (catch x) { return 1; } else { return 2; } }", False),
    ("fn int? z%d() { if (try x = may()) { return x; } }", True),
    ("fn int? z%d() { while (try x = may()) { return x; } }", True),
    ("fn void? z%d() { may()!; }", False),
    ("fn void? z%d() { }", False),
    ("fn void z%d() { while (true) { if (bit('a')) break; } }", False),
    ("fn int z%d() => 3;", False),
    ("alias Fz%d = fn int(int); Fz%d g%d = fn int(int x) { if (x) { return 1; } };", True),
    ("alias Fz%d = fn int(int); Fz%d g%d = fn int(int x) { if (x) { return 1; } return 0; };", False),
    ("struct Sz%d { int a; } fn int Sz%d.m(self) { if (self.a) { return 1; } }", True),
    ("macro int mz%d(x) { if (x) { return 1; } } fn int z%d(int q) { return mz%d(q); }", True),
    ("macro int mz%d(x) { if (x) { return 1; } else { return 2; } } fn int z%d(int q) { return mz%d(q); }", False),
    ("macro int @mz%d(;@body()) { @body(); } fn int z%d(int q) { @mz%d() { die(); }; }", False),
    ("macro @mz%d(;@body()) { while (true) { @body(); } } fn int z%d(int q) { @mz%d() { bit('a'); }; }", False),
    ("macro @mz%d(;@body()) { if (bit('a')) { @body(); } } fn int z%d(int q) { @mz%d() { die(); }; }", True),
    ("fn int z%d() { $if true: return 1; $endif }", False),
    ("fn int z%d() { $if false: return 1; $endif }", True),
    ("fn int z%d() { $for var $i = 0; $i < 2; $i++: if (bit('a')) return $i; $endfor }", True),
    ("fn int z%d() { $for var $i = 0; $i < 2; $i++: if (bit('a')) return $i; $endfor return 9; }", False),
    ("fn int z%d() { $foreach $x : { 1, 2 }: return $x; $endforeach }", False),
    ("fn int z%d() { $switch 1: $case 1: return 3; $default: $endswitch }", False),
    ("fn int z%d() { $switch 2: $case 1: return 3; $default: $endswitch }", True),
    ("fn int z%d() { defer evt('a'); return 1; }", False),
    ("fn int z%d() { defer evt('a'); }", True),
    ("fn int z%d() { while (true) { defer { if (bit('a')) { evt('b'); } } if (bit('k')) return 1; } }", False),
    ("fn int z%d() { while (true) { while LAB: (true) { if (bit('k')) break LAB; } } }", False),
    ("fn int z%d() { while LAB: (true) { while (true) { if (bit('k')) break LAB; } } }", True),
    ("fn int z%d() { while LAB: (true) { Fv f = fn void() { while (true) { break; } }; f(); } }", False),
    ("fn int z%d() { switch { case bit('a'): return 1; default: return 2; } }", False),
    ("fn int z%d() { switch { case bit('a'): return 1; case bit('b'): return 2; } }", True),
    ("fn int z%d() { switch (bit('a')) { case true: nextcase; default: return 2; } }", False),
    ("fn int z%d(int x) { switch (x) { case 1: nextcase 2; case 2: nextcase 1; default: nextcase 2; } }", False),
    ("fn int z%d(int x) { switch (x) { case 1: nextcase 2; case 2: if (x) { break; } nextcase 1; default: nextcase 2; } }", True),
    ("fn int z%d(int x) { switch OUT: (x) { case 1: switch (x) { case 1: break; default: return 1; } default: return 3; } }", True),
    ("fn int z%d(int x) { switch OUT: (x) { case 1: switch (x) { case 1: break OUT; default: return 1; } default: return 3; } }", True),
    ("fn int z%d(int x) { switch OUT: (x) { case 1: switch (x) { case 1: nextcase OUT: 2; default: return 1; } case 2: return 5; default: return 3; } }", False),
]


def run(c):
    pre = PRE + "\n" + PRELUDE + "fn int? may() { return 1; }\nalias Fv = fn void();\n"
    prog = list(programs(c.thorough))
    decls, kind = [], []
    for i, p in enumerate(prog):
        code = " ".join(emit(s) for s in p)
        mac = i % 7 == 3  # also as the body of a macro
        decls.append(f"macro int m{i}() {{ {code} }} fn int f{i}() {{ return m{i}(); }}" if mac else f"fn int f{i}() {{ {code} }}")
    errs = c.verdicts("flowret", pre, decls, shards=16)
    bad = acc = either = 0
    ok = []
    for p, d, e in zip(prog, decls, errs):
        s, l = "F" in seq(p, True, []), "F" in seq(p, False, [])
        missing = any(MISS(x) for x in e)
        key = " ".join(sorted({x[0] for x in p} | {x[0] for x in p[0][2][0] + p[0][2][-1]} - {"leaf"}))
        if any(not MISS(x) for x in e):
            c.violation(f"other:{[x for x in e if not MISS(x)][0][:60]}", f"rejected with {e}: {d}", {"decl": d, "errors": e})
        elif s and not missing:
            c.violation(f"accepted:{key}", f"accepted although its end is reachable: {d}", {"prelude": pre, "decl": d})
        elif not l and missing:
            c.violation(f"rejected:{key}", f"rejected although its end is unreachable: {d}", {"prelude": pre, "decl": d})
        if not e and not s: ok.append(p)
        bad += s
        acc += not l
        either += l and not s
    c.add(evaluations=len(decls), distinct_nontrivial=len(decls))
    c.set(must_reject=bad, must_accept=acc, either_verdict=either)
    SP = [x for x in SPECIAL if not x[1]] + [x for x in SPECIAL if x[1]]
    sp = [s.replace("%d", str(i)) for i, (s, _) in enumerate(SP)]
    ver = []
    for name, part in (("lambda", [d for d in sp if "alias" in d and "return 0" not in d]), ("special", [d for d in sp if "alias" not in d or "return 0" in d])):
        ver += zip(part, c.verdicts(name, pre, part))
    ver = dict(ver)
    for (s, rej), d, e in zip(SP, sp, [ver[d] for d in sp]):
        if bool(e) != rej or any(not MISS(x) and "not handled in the switch" not in x for x in e):
            c.violation(f"special:{s}", f"{'accepted' if not e else 'rejected: ' + str(e)}: {d}", {"decl": d, "errors": e})
    # run what is accepted
    bits = 5 if c.thorough else 4
    cases = []
    step = 1 if c.thorough else 2
    for p in ok[::step]:
        mask, want = 0, []
        for k in range(1 << bits):
            r = Run(k)
            try:
                r.block(p)
            except Ret as x:
                mask |= 1 << k
                want.append("".join(r.log) + f"{x.v},|")
            except Fuel:
                continue
            else:
                raise Exception(emit(p[0]))
        if not mask: continue
        code = " ".join(emit(s) for s in p)
        cases.append((f"for (uint k = 0; k < {1 << bits}; k++) {{ if ((({mask}UL >> k) & 1) == 0) continue; script = k; ev_num(fn int() {{ {code} }}()); evt('|'); }}",
                      "".join(want), code[:300] + ";"))
    c.run_cases("flowrun", PRELUDE, cases, ("-O0", "-O1", "-O3") if c.thorough else ("-O0",), shards=8 if not c.thorough else 32)
    c.set(rule="distinct function bodies", exhaustive=True)
    c.sample(decls[len(decls) // 2])
    c.sample(decls[len(decls) // 5])
