import itertools

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration: every operator sequence up to length 3 (thorough 4) compiled and run, values and evaluation order against a reference grammar"
NOTE = ("Every sequence of up to 3 binary operators out of 18 over operands with side effects, with every parenthesized subrange and every unary prefix, plus ternary, elvis, ??, "
        "assignment, postfix, cast and call forms; value, evaluation order and acceptance compared with an independent parser and evaluator.")

PREC = {"*": 7, "/": 7, "%": 7, "<<": 6, ">>": 6, "&": 5, "|": 5, "^": 5, "+": 4, "-": 4,
        "<": 3, ">": 3, "<=": 3, ">=": 3, "==": 3, "!=": 3, "&&": 2, "||": 1, "?:": 0, "?": 0}
UNCLEAR = {5: 1, 3: 2, 6: 3}
OPS = ["*", "/", "%", "<<", ">>", "&", "|", "^", "+", "-", "<", ">", "<=", ">=", "==", "!=", "&&", "||"]


class Bad(Exception): pass
class Maybe(Exception): pass
class Undef(Exception): pass


def strict(t, env):
    """every operand is defined even if it is not needed (a constant expression must be)"""
    try:
        ev(t, env, [])
        return all(strict(x, env) for x in t[1:] if isinstance(x, tuple))
    except Undef:
        return False


def w32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


def parse(toks):
    """toks: leaves (str name), '(' , ')', operators, prefix operators as 'u-' etc. -> tree"""
    pos = 0
    def prim():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t[0] == "u":
            return ("un", t[1:], prim())
        if t == "(":
            e = expr(-1)
            assert toks[pos] == ")"
            pos += 1
            return ("group", e)
        return ("leaf", t)
    def expr(minp):
        nonlocal pos
        l = prim()
        while pos < len(toks) and toks[pos] in PREC and PREC[toks[pos]] >= max(minp, 0):
            op = toks[pos]
            pos += 1
            if op == "?":
                a = expr(-1)
                assert toks[pos] == ":"
                pos += 1
                l = ("ter", l, a, expr(0))
            elif op == "?:":
                l = ("elvis", l, expr(0))
            else:
                l = ("bin", op, l, expr(PREC[op] + 1))
        return l
    e = expr(-1)
    assert pos == len(toks)
    return e


def typ(t):
    k = t[0]
    if k == "leaf": return "i"
    if k == "group": return typ(t[1])
    if k == "un":
        a = typ(t[2])
        if t[1] == "!": return "b"
        if a == "b" and t[1] != "~": raise Bad("unary")
        return a
    if k == "ter":
        typ(t[1])
        a, b = typ(t[2]), typ(t[3])
        if a != b: raise Bad("ternary")
        return a
    if k == "elvis":
        a, b = typ(t[1]), typ(t[2])
        if a != b: raise Bad("elvis")
        return a
    op, l, r = t[1:]
    a, b = typ(l), typ(r)
    p = PREC[op]
    for s in (l, r):
        if s[0] == "bin" and p in UNCLEAR and PREC[s[1]] == p and not (p == 5 and s[1] == op):
            raise Maybe("unclear")
    if p in (2, 1): return "b"
    if p == 5:
        if a != b: raise Bad("bit")
        return a
    if p == 3:
        if a != b: raise Bad("rel")
        return "b"
    if a == "b" or b == "b": raise Bad("arith")
    return "i"


def ev(t, env, log):
    k = t[0]
    if k == "leaf":
        log.append(t[1])
        return env[t[1]]
    if k == "group": return ev(t[1], env, log)
    if k == "un":
        v = ev(t[2], env, log)
        if t[1] == "~" and typ(t[2]) == "b": return int(not v)
        return {"-": lambda: w32(-v), "~": lambda: ~v, "!": lambda: int(not v), "+": lambda: v}[t[1]]()
    if k == "ter": return ev(t[2], env, log) if ev(t[1], env, log) else ev(t[3], env, log)
    if k == "elvis":
        v = ev(t[1], env, log)
        return v if v else ev(t[2], env, log)
    op = t[1]
    a = ev(t[2], env, log)
    if op == "&&": return int(bool(a) and bool(ev(t[3], env, log)))
    if op == "||": return int(bool(a) or bool(ev(t[3], env, log)))
    b = ev(t[3], env, log)
    if op in "/%":
        if b == 0: raise Undef()
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        return q if op == "/" else a - q * b
    if op in ("<<", ">>"):
        if not 0 <= b < 32: raise Undef()
        return w32(a << b) if op == "<<" else a >> b
    return {"*": lambda: w32(a * b), "+": lambda: w32(a + b), "-": lambda: w32(a - b), "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
            "<": lambda: int(a < b), ">": lambda: int(a > b), "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "==": lambda: int(a == b), "!=": lambda: int(a != b)}[op]()


VALS = [(7, 2, 3, 5, 1), (1, 0, 2, 1, 3), (0, 3, 1, 2, 5), (13, 3, 1, 2, 7), (2, 1, 5, 0, 3), (6, 5, 3, 2, 1), (-9, 4, 2, 3, 1), (0, 0, 1, 4, 2), (25, 7, 4, 3, 2), (3, 3, 2, 2, 1)]


def text(toks, leaf):
    o = []
    for t in toks:
        o.append(leaf(t) if t in "abcde" and len(t) == 1 else t[1:] if t[0] == "u" and len(t) == 2 else t)
    s = ""
    for t in o:  # '- -a' is not '--a'
        s += (" " if s and not s.endswith("(") else "") + t
    return s


def sequences(c):
    n = 4 if c.thorough else 3
    reps = ["*", "%", "<<", ">>", "&", "|", "+", "-", "<", "==", "&&", "||"]
    seqs = []
    for k in range(1, n + 1):
        ops = OPS if k <= 2 else (["*", "/", "%", "<<", "&", "|", "^", "+", "-", "<", ">=", "==", "&&", "||"] if k == 3 else reps)
        for s in itertools.product(ops, repeat=k):
            seqs.append((s, None, ()))
            if k in (2, 3):
                for i in range(k + 1):
                    for j in range(i + 1, k + 1):
                        if (i, j) != (0, k) and (k == 2 or j - i == 1 and all(o in reps for o in s) and (c.thorough or "%" not in s and "|" not in s and ">>" not in s)):
                            seqs.append((s, (i, j), ()))
            if k == 2:
                for i in range(3):
                    for u in "-~!":
                        seqs.append((s, None, ((i, u),)))
            if k == 1:
                for us in itertools.product([(0, "-"), (0, "~"), (0, "!"), (1, "-"), (1, "~"), (1, "!")], repeat=2):
                    seqs.append((s, None, us))
    for s, par, us in seqs:
        toks = []
        for i in range(len(s) + 1):
            if i: toks.append(s[i - 1])
            if par and par[0] == i: toks.append("(")
            for p, u in us:
                if p == i: toks.append("u" + u)
            toks.append("abcde"[i])
            if par and par[1] == i: toks.append(")")
        yield toks


def ternaries(c):
    ops = ["+", "<<", "&", "<", "&&", "||", "*"]
    for o1, o2 in itertools.product(ops, repeat=2):
        yield ["a", o1, "b", "?", "c", o2, "d", ":", "e"]
        yield ["a", o1, "b", "?", "c", ":", "d", o2, "e"]
        yield ["a", "?", "b", o1, "c", ":", "d", o2, "e"]
        yield ["a", o1, "b", "?:", "c", o2, "d"]
        yield ["a", "?:", "b", o1, "c", "?:", "d", o2, "e"]
    yield ["a", "?", "b", "?", "c", ":", "d", ":", "e"]
    yield ["a", "?", "b", ":", "c", "?", "d", ":", "e"]
    yield ["a", "?:", "b", "?", "c", ":", "d"]
    yield ["a", "?", "b", ":", "c", "?:", "d"]
    yield ["a", "?:", "b", "?:", "c", "?:", "d"]
    yield ["(", "a", "?", "b", ":", "c", ")", "?", "d", ":", "e"]
    yield ["u!", "a", "?", "u-", "b", ":", "u~", "c"]


def others():
    """Postfix, prefix, casts, calls, assignment: hand-listed forms with every operand evaluated once, in order."""
    P = "int[5] g; int* gp(int c) { return null; }"
    return [
        ("int x = 5; int[3] a = { 1, 2, 3 }; ev_num(-a[1]); ev_num(~a[2]); ev_num(-x++); ev_num(x); ev_num(- --x); ev_num(x);", "-2,-4,-5,6,-5,5,"),
        ("int[3] a = { 10, 20, 30 }; int* p = &a; ev_num(*p++); ev_num(*p); ev_num(-*p); ev_num(*++p); ev_num(*p--); ev_num(*p); ev_num(++*p); ev_num(a[1]); ev_num((*p)++); ev_num(a[1]);", "10,20,-20,30,30,20,21,21,21,22,"),
        ("Pt q = { 3, 4 }; Pt* p = &q; ev_num(-p.x); ev_num((int)(!p.x == false)); ev_num(p.x++ * 2); ev_num(q.x); ev_num(-p.sum(1)); ev_num(~q.sum(2) + 1); int* y = &p.y; ev_num(*y); ev_num((int)(&p.x + 1 == &p.y));", "-3,1,6,4,-9,-10,4,1,"),
        ("double d = 2.75; ev_num((int)d + 1); ev_num((int)(d + 1)); ev_num((int)d * 2); ev_num(-(int)d); ev_num((int)-d); ev_num((char)300 + 1); ev_num((int)d << 2);", "3,3,4,-2,-2,45,8,"),
        ("int x; int y; x = y = 3; ev_num(x); ev_num(y); x += y *= 2; ev_num(x); ev_num(y); x -= y -= 1; ev_num(x); ev_num(y);", "3,3,9,6,4,5,"),
        ("int x = 100; x /= 3 + 2; ev_num(x); x <<= 1 + 1; ev_num(x); x = x > 3 ? 1 : 2; ev_num(x); x = 5; x *= 2 + 3; ev_num(x); x %= 7 - 2; ev_num(x); x |= 6 & 3; ev_num(x); x ^= 1 << 1; ev_num(x); x &= 6 | 1; ev_num(x); x >>= 3 - 2; ev_num(x);", "20,80,1,25,0,2,0,0,0,"),
        ("int? m = no()?; ev_num(m ?? 1 + 2 * 3); int? k = 7; ev_num(k ?? 1 + 2); ev_num(m ?? k ?? 9); ev_num(m ?? m ?? 9); ev_num((m ?? 1) + 1);", "7,7,7,9,2,"),
        ("int? k = 7; ev_num(k!! + 1); ev_num(-k!!); ev_num((k + 1)!!); ev_num(k!! * 2 - 1); if (k) ev_num(1);".replace("if (k) ev_num(1);", ""), "8,-7,8,13,"),
        # order of evaluation
        ("three(ev_i(1, 'a'), ev_i(2, 'b'), ev_i(3, 'c'));", "abc1,2,3,"),
        ("ev_num(three(ev_i(1, 'a'), three(ev_i(2, 'b'), ev_i(3, 'c'), ev_i(4, 'd')), ev_i(5, 'e')));", "abcd2,3,4,e1,234,5,"  + "2445,".replace("2445", str(1 * 100 + 234 * 10 + 5))),
        ("int[4] a = { 1, 2, 3, 4 }; ev_num(a[ev_i(1, 'a')] - a[ev_i(3, 'b')] * a[ev_i(2, 'c')]);", "abc-10,"),
        ("int[4] a; int* p = &a; pt(p, 'p')[ev_i(2, 'i')] += ev_i(5, 'v'); ev_num(a[2]); pt(p, 'q')[ev_i(2, 'j')]++; ev_num(a[2]); ev_num(pt(p, 'r')[ev_i(2, 'k')]--); ev_num(a[2]);", "piv5,qj6,rk6,5,"),
        ("int[4] a; int* p = &a; pt(p, 'p')[ev_i(1, 'i')] = ev_i(5, 'v'); ev_num(a[1]);", "piv5,"),
        ("int[4] a; int* p = &a; pt(p, 'p')[ev_i(1, 'i')] = pt(p, 'q')[ev_i(0, 'j')] = ev_i(5, 'v'); ev_num(a[1]); ev_num(a[0]);", "piqjv5,5,"),
        ("Pt q = { 3, 4 }; ev_num(qt(&q, 'o').sum(ev_i(1, 'a'))); ev_num(qt(&q, 'x').sum(qt(&q, 'y').sum(ev_i(2, 'z'))));", "oa8,xyz16,"),
        ("int[3] a = { ev_i(1, 'a'), ev_i(2, 'b'), ev_i(3, 'c') }; Pt q = { .y = ev_i(4, 'y'), .x = ev_i(5, 'x') }; ev_num(q.x); ev_num(a[0]);", "abcyx5,1,"),
        ("int[4] a = { 1, 2, 3, 4 }; int[] s = a[ev_i(1, 'a')..ev_i(2, 'b')]; ev_num(s.len); s = a[ev_i(1, 'c'):ev_i(3, 'd')]; ev_num(s.len);", "ab2,cd3,"),
        ("ev_num(ev_i(1, 'a') && ev_i(0, 'b') || ev_i(1, 'c') && ev_i(1, 'd')); ev_num(ev_i(0, 'e') && ev_i(1, 'f') || ev_i(0, 'g'));".replace("ev_num(ev", "ev_num((int)(ev").replace("; ", ";; ").replace("));", ")));").replace(";; ", "; "), "abcd1,eg0,"),
        ("if (ev_i(0, 'a') || ev_i(1, 'b') && ev_i(0, 'c')) { evt('X'); } else { evt('Y'); } while (ev_i(1, 'd') && ev_i(0, 'e')) evt('Z');", "abcYde"),
        ("int? m = no()?; int r = m ?? ev_i(4, 'a'); int? k = 3; r = k ?? ev_i(4, 'b'); ev_num(r);", "a3,"),
        ("ev_num(ev_i(1, 'a') ? ev_i(2, 'b') : ev_i(3, 'c')); ev_num(ev_i(0, 'a') ? ev_i(2, 'b') : ev_i(3, 'c')); ev_num(ev_i(4, 'a') ?: ev_i(3, 'c')); ev_num(ev_i(0, 'a') ?: ev_i(3, 'c'));", "ab2,ac3,a4,ac3,"),
        ("Func f = &three; ft(f, 'f')(ev_i(1, 'a'), ev_i(2, 'b'), ev_i(3, 'c'));", "fabc1,2,3,"),
        ("three(x: ev_i(1, 'a'), y: ev_i(2, 'b'), z: ev_i(3, 'c'));", "abc1,2,3,"),
        ("vf(ev_i(1, 'a'), ev_i(2, 'b'), ev_i(3, 'c')); int[2] a = { 8, 9 }; vf(ev_i(7, 'a'), ...a);", "abc1,2,3,a7,8,9,"),
        ("int x = 1; x = x++ + 1; ev_num(x); int y = 2; ev_num(y++ + y++ * y); ev_num(y); ev_num(y-- - --y);", "2,14,4,2,"),
        ("int i = 0; int[3] a; a[i++] = 5; a[i++] = 6; ev_num(a[0]); ev_num(a[1]); ev_num(i); a[++i - 1] += 7; ev_num(a[2]); ev_num(i);", "5,6,2,7,3,"),
    ]


PRELUDE = """faultdef NO;
struct Pt { int x; int y; }
alias Func = fn int(int, int, int);
fn int Pt.sum(&self, int k) => self.x + self.y + k;
fn fault no() => NO;
fn int three(int x, int y, int z) @noinline { ev_num(x); ev_num(y); ev_num(z); return x * 100 + y * 10 + z; }
fn int* pt(int* p, int c) @noinline { evt(c); return p; }
fn Pt* qt(Pt* p, int c) @noinline { evt(c); return p; }
fn Func ft(Func f, int c) @noinline { evt(c); return f; }
fn void vf(int x, int... r) @noinline { ev_num(x); foreach (v : r) ev_num(v); }"""


def run(c):
    good, bad, maybe = [], [], []
    for toks in itertools.chain(sequences(c), ternaries(c)):
        t = parse(toks)
        try:
            ty = typ(t)
        except Bad:
            bad.append(toks)
            continue
        except Maybe:
            maybe.append(toks)
            continue
        leaves = [x for x in toks if len(x) == 1 and x in "abcde"]
        # the operand values under which the most other groupings give something else
        seen = []
        for vs in VALS:
            env = dict(zip("abcde", vs))
            log = []
            try:
                v = ev(t, env, log)
            except Undef:
                continue
            alts = set()
            ok = 0
            for i in range(len(leaves)):
                for j in range(i + 1, len(leaves)):
                    pi, pj = toks.index(leaves[i]), toks.index(leaves[j])
                    alt = toks[:pi] + ["("] + toks[pi:pj + 1] + [")"] + toks[pj + 1:]
                    try:
                        if ev(parse(alt), env, []) != v: ok += 1
                    except (AssertionError, Undef, Bad, Maybe):
                        pass
            seen.append((ok, vs, v, "".join(log)))
        seen.sort(key=lambda x: -x[0])
        logs = set()
        for ok, vs, v, log in seen[:1] + [x for x in seen[1:] if x[3] != seen[0][3]][:1 if len(leaves) < 5 or c.thorough else 0]:
            good.append((toks, vs, v, log))
    cases = []
    for toks, vs, v, log in good:
        env = dict(zip("abcde", vs))
        e1 = text(toks, lambda x: f"ev_i({env[x]}, '{x}')")
        e2 = text(toks, lambda x: f"({env[x]})" if env[x] < 0 else str(env[x]))
        # as run-time code with side effects, and as a constant
        k = f"ev_num((int)({e2}));" if len(toks) < 8 and strict(parse(toks), env) else ""
        cases.append((f"ev_num((int)({e1})); {k}", log + f"{v}," + (f"{v}," if k else ""), f"{text(toks, str)};{vs}"))
    cases += [(b, e, "form;" + b[:60]) for b, e in others()]
    c.run_cases("prec", PRELUDE, cases, ("-O0", "-O1", "-O3") if c.thorough else ("-O0",), shards=8)
    # what does not type under the grouping is rejected (so the grouping is that one), ambiguous chains are rejected or left to right
    sub = bad if c.thorough else [t for t in bad if len(t) <= 7]
    def decl(i, t): return f"fn int x{i}(int a, int b, int c, int d, int e) => (int)({text(t, str)});"
    for t, errs in zip(sub, c.verdicts("bad", "", [decl(i, t) for i, t in enumerate(sub)])):
        if not errs:
            c.violation(f"accepted:{text(t, str)}", f"'{text(t, str)}' with int operands is accepted although its documented grouping has no type", {"expr": text(t, str)})
    for t, errs in zip(maybe, c.verdicts("maybe", "", [decl(i, t) for i, t in enumerate(maybe)])):
        if not errs:
            c.violation(f"unclear:{text(t, str)}", f"'{text(t, str)}' needs parentheses by the language's rule but is accepted", {"expr": text(t, str)})
    c.set(rule="distinct expressions that have a defined value; operand values chosen to tell other groupings apart", exhaustive=True)
    c.sample(cases[40][0])
    c.sample(cases[-1][0])
