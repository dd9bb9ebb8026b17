import itertools

from vlib.check import PRE as EVPRE

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration: all overload sets up to a size x all operand type pairs, and all element-operator subsets x lvalue forms x uses, against a reference resolution and evaluation order"
NOTE = ("Every set of one or two (thorough: three) overloads out of owner x direction (left, reversed, symmetric) x parameter type, every pair of operand types from two structs, int, short and long: accepted exactly if one overload matches "
        "(exact match first, else a single implicit conversion), calls that one with the operands in declared order, evaluated left to right once. Every operator, as function, by reference and as macro; compound assignment with any "
        "subset of {op, op=} on seven lvalue forms; every subset of [], &[], []=, len with reading, writing, updating, addresses, counting from the end and foreach in both directions; == and != derived from each other; optional operands.")

BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"]
NAMES = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod", "&": "band", "|": "bor", "^": "bxor", "<<": "shl", ">>": "shr", "==": "eq", "!=": "ne"}
SCAL = {"int": 32, "short": 16, "long": 64}

PRE = """
faultdef FLT;
fn int iv(int v, int c) @noinline { evt(c); return v; }
fn short sv(int v, int c) @noinline { evt(c); return (short)v; }
fn long lv(int v, int c) @noinline { evt(c); return v; }
"""


def decls(tag, sets):
    """the overloads of one set: (op, owner, kind, param, form)"""
    o = [f"struct A{tag}x {{ int v; }} struct B{tag}x {{ int v; }}",
         f"fn A{tag}x ea{tag}(int v, int c) @noinline {{ evt(c); return {{ v }}; }} fn B{tag}x eb{tag}(int v, int c) @noinline {{ evt(c); return {{ v }}; }}",
         f"fn A{tag}x? oa{tag}(int v, int c) @noinline {{ evt(c); if (v < 0) return FLT?; return {{ v }}; }}"]
    for n, (op, own, kind, par, form) in enumerate(sets):
        ty = {"A": f"A{tag}x", "B": f"B{tag}x"}
        pt = ty.get(par, par)
        pv = "p.v" if par in ty else "(int)p"
        attr = {"l": "@operator", "r": "@operator_r", "s": "@operator_s"}[kind]
        rt, ret = ("bool", f"return self.v == {pv};" if op == "==" else f"return self.v != {pv};") if op in ("==", "!=") else ("int", f"return self.v * 16 + {pv};")
        selfp = {"v": "self", "r": "&self", "m": "self"}[form]
        par_d = f"{pt} p" if form != "m" else f"{pt} p"
        kw = "macro" if form == "m" else "fn"
        o.append(f"{kw} {rt} {ty[own]}.m{n}({selfp}, {par_d}) {attr}({op}) {{ evt('{n}'); ev_num(self.v); ev_num({pv}); {ret} }}")
    return "\n".join(o)


def conv(frm, to):
    return frm in SCAL and to in SCAL and SCAL[to] >= SCAL[frm]


def lookup(sets, op, lt, rt):
    """index of the overload chosen and whether operands are swapped; None, or 'amb'"""
    cand = []
    if lt in "AB":
        for n, (o, own, kind, par, _) in enumerate(sets):
            if o == op and own == lt and kind in "ls":
                if par == rt: return n, False
                if conv(rt, par): cand.append((n, False))
    if rt in "AB":
        for n, (o, own, kind, par, _) in enumerate(sets):
            if o == op and own == rt and kind in "rs":
                if par == lt: return n, True
                if conv(lt, par): cand.append((n, True))
    if len(cand) > 1: return "amb"
    return cand[0] if cand else None


def resolve(sets, op, lt, rt):
    r = lookup(sets, op, lt, rt)
    if r is None and op in ("==", "!="):
        r = lookup(sets, "!=" if op == "==" else "==", lt, rt)
        return (*r, True) if isinstance(r, tuple) else r
    return (*r, False) if isinstance(r, tuple) else r


def valid(sets):
    """no two overloads of one owner, operator and parameter with a common direction"""
    for x, y in itertools.combinations(sets, 2):
        if x[0] == y[0] and x[1] == y[1] and x[3] == y[3] and (x[2] == y[2] or "s" in (x[2], y[2])): return False
    return True


def operand(t, tag, v, c):
    return {"A": f"ea{tag}({v}, '{c}')", "B": f"eb{tag}({v}, '{c}')", "int": f"iv({v}, '{c}')", "short": f"sv({v}, '{c}')", "long": f"lv({v}, '{c}')"}[t]


def binary(c):
    """all overload sets"""
    types = ["A", "B", "int", "short", "long"]
    universe = [(own, kind, par) for own in "AB" for kind in "lrs" for par in ("A", "B", "int", "long")]
    combos = [x for k in ((1, 2, 3) if c.thorough else (1, 2)) for x in itertools.combinations(universe, k)]
    # the roles of A and B are symmetric
    combos = [x for x in combos if x[0][0] == "A"]
    if c.thorough: combos = [x for i, x in enumerate(combos) if len(x) < 3 or i % 2 == 0 or x[0][1:] == x[1][1:]]
    groups, neg, dup = [], [], []
    ncase = 0
    for i, x in enumerate(combos):
        op = BIN[i % len(BIN)]
        forms = "vrm"
        sets = [(op, own, kind, par, forms[(i + n) % 3]) for n, (own, kind, par) in enumerate(x)]
        if not valid(sets):
            if len(sets) == 2: dup.append(sets)
            continue
        groups.append((f"t{i}", sets, [op]))
    for own, kind, par in universe:
        for o1, o2 in (("==", None), ("!=", None), ("==", "!=")):
            for k2 in ("l", "r", "s") if o2 else ("",):
                sets = [(o1, own, kind, par, "v")] + ([(o2, own, k2, par, "r")] if o2 else [])
                groups.append((f"q{len(groups)}", sets, ["==", "!="]))
    for op in BIN:       # every operator with each form and direction
        for form in "vrm":
            groups.append((f"w{len(groups)}", [(op, "A", "l", "A", form), (op, "A", "s", "int", form), (op, "A", "r", "B", form)], [op]))
    chunks = [groups[k::16] for k in range(16)]

    def one(k):
        pre, cases, bad = [PRE], [], []
        for tag, sets, ops in chunks[k]:
            pre.append(decls(tag, sets))
            for op in ops:
                for lt, rt in itertools.product(types, repeat=2):
                    if lt not in "AB" and rt not in "AB": continue
                    r = resolve(sets, op, lt, rt)
                    e = f"{operand(lt, tag, 5, 'a')} {op} {operand(rt, tag, 3, 'b')}"
                    desc = f"{op}:{lt},{rt}:{'+'.join(''.join(s[1:4]) for s in sets)}"
                    if not isinstance(r, tuple):
                        bad.append((f"fn void bad{len(bad)}() {{ var r = {e}; }}", desc, r))
                        continue
                    n, sw, ng = r
                    me, ot = (3, 5) if sw else (5, 3)
                    o = sets[n][0]
                    if op in ("==", "!="):
                        val = (me == ot) if o == "==" else (me != ot)
                        cases.append((f"ev_num(({e}) ? 1 : 0);", f"ab{n}{me},{ot},{int(val != ng)},", desc))
                    else:
                        cases.append((f"ev_num({e});", f"ab{n}{me},{ot},{me * 16 + ot},", desc))
        c.run_cases(f"bin{k}", "\n".join(pre), cases, ("-O0",) if not c.thorough else ("-O0", "-O2"), shards=1)
        errs = c.verdicts(f"binv{k}", EVPRE + "\n".join(pre), [b[0] for b in bad], shards=1)
        for b, er in zip(bad, errs):
            if not er:
                c.violation(f"accepted:{b[1]}", f"{b[0]} is accepted though {'two overloads match equally' if b[2] == 'amb' else 'no overload matches'} ({b[1]})", {"prelude": "\n".join(pre), "decl": b[0]})
        return len(cases) + len(bad)
    n = sum(c.pmap(one, range(len(chunks))))
    # overlapping declarations are refused
    ds = [decls(f"z{i}", s).replace("\n", " ") for i, s in enumerate(dup)]
    errs = c.verdicts("dup", EVPRE + PRE, ds)
    for s, er in zip(dup, errs):
        if not er: c.violation(f"duplicate:{s}", f"overlapping overloads {s} are accepted", {"sets": str(s)})
    return n + len(ds)


def unary_assign(c):
    """unary operators and compound assignment on every lvalue form"""
    n, cases, pre = 0, [], [PRE, "int[5] ghits; fn int ix(int i, int c) @noinline { evt(c); return i; }"]
    for op in BIN:
        for have in ("o", "a", "oa"):
            for form in "vrm":
                if form == "m" and have != "oa": continue
                t = f"U{len(pre)}x"
                g = t.lower()
                d = [f"struct {t} {{ int v; }} struct {t}h {{ int pad; {t} m; }} fn {t} mk{g}(int v, int c) @noinline {{ evt(c); return {{ v }}; }}",
                     f"{t} gv{g}; {t}h gh{g}; {t}[4] ga{g}; fn {t}* gp{g}(int c) @noinline {{ evt(c); return &gv{g}; }} fn {t}h* hp{g}(int c) @noinline {{ evt(c); return &gh{g}; }}",
                     f"fn {t}? om{g}(int v, int c) @noinline {{ evt(c); if (v < 0) return FLT?; return {{ v }}; }}"]
                sp = "&self" if form == "r" else "self"
                kw = "macro" if form == "m" else "fn"
                if "o" in have:
                    d.append(f"{kw} {t} {t}.o({sp}, {t} p) @operator({op}) {{ evt('o'); ev_num(self.v); ev_num(p.v); return {{ self.v * 16 + p.v }}; }}")
                    d.append(f"{kw} {t} {t}.oi({sp}, int p) @operator({op}) {{ evt('i'); ev_num(self.v); ev_num(p); return {{ self.v * 16 + p }}; }}")
                if "a" in have:
                    d.append(f"fn void {t}.a(&self, {t} p) @operator({op}=) {{ evt('A'); ev_num(self.v); ev_num(p.v); self.v = self.v * 32 + p.v; }}")
                    d.append(f"fn void {t}.ai(&self, int p) @operator({op}=) {{ evt('I'); ev_num(self.v); ev_num(p); self.v = self.v * 32 + p; }}")
                pre.append("\n".join(d))
                lvs = [(f"{t} x = {{ 5 }};", "x", "x", ""), (f"gv{g} = {{ 5 }};", f"*gp{g}('l')", f"gv{g}", "l"), (f"gh{g}.m = {{ 5 }};", f"gh{g}.m", f"gh{g}.m", ""),
                       (f"gh{g}.m = {{ 5 }};", f"hp{g}('l').m", f"gh{g}.m", "l"), (f"ga{g}[2] = {{ 5 }};", f"ga{g}[ix(2, 'l')]", f"ga{g}[2]", "l"),
                       (f"{t} x = {{ 5 }}; {t}* p = &x;", "*p", "x", ""), (f"{t}[] s = &ga{g}; s[^2] = {{ 5 }};", "s[^ix(2, 'l')]", f"ga{g}[2]", "l")]
                for (ini, lv, rd, pe), (rhs, rv, tagc, re) in itertools.product(lvs, ((f"mk{g}(3, 'r')", 3, "oA", "r"), ("iv(3, 'r')", 3, "iI", "r"), ("sv(3, 'r')", 3, "iI", "r"))):
                    f = 32 if "a" in have else 16
                    m = tagc[1] if "a" in have else tagc[0]
                    cases.append((f"{ini} {lv} {op}= {rhs}; ev_num({rd}.v);", {f"{pe}{re}{m}5,3,{5 * f + 3},", f"{re}{pe}{m}5,3,{5 * f + 3},"} if False else f"{pe}{re}{m}5,3,{5 * f + 3},", f"assign:{op}=:{have}:{form}:{lv.split('(')[0].replace(g, '')}:{rhs.split('(')[0].replace(g, '')}"))
                # a fault on the right leaves the variable alone and calls nothing
                for v in (3, -1) if "a" in have else ():
                    f = 32 if "a" in have else 16
                    cases.append((f"{t} x = {{ 5 }}; if (catch (x {op}= om{g}({v}, 'r'))) {{ evt('f'); }} ev_num(x.v);", f"r{'Aoo'['a' not in have]}5,3,{5 * f + 3}," if v > 0 else "rf5,", f"assignopt:{op}:{have}:{form}"))
    # unary
    for op in ("-", "~"):
        for form in "vrm":
            t = f"N{len(pre)}x"
            g = t.lower()
            sp = "&self" if form == "r" else "self"
            pre.append(f"struct {t} {{ int v; }} fn {t} mk{g}(int v, int c) @noinline {{ evt(c); return {{ v }}; }} fn {t}? om{g}(int v, int c) @noinline {{ evt(c); if (v < 0) return FLT?; return {{ v }}; }}\n"
                       f"{'macro' if form == 'm' else 'fn'} {t} {t}.neg({sp}) @operator({op}) {{ evt('n'); ev_num(self.v); return {{ self.v + 100 }}; }}" + (f"\nfn int {t}.sub(self, {t} o) @operator(-) {{ evt('s'); ev_num(self.v); ev_num(o.v); return 77; }}" if op == "-" else ""))
            cases += [(f"ev_num(({op}mk{g}(4, 'a')).v);", "an4,104,", f"unary:{op}{form}"), (f"{t} x = {{ 4 }}; ev_num(({op}x).v); ev_num(x.v);", "n4,104,4,", f"unary:{op}{form}"),
                      (f"{t} x = {{ 4 }}; ev_num(({op}({op}x)).v);", "n4,n104,204,", f"unary:{op}{op}{form}"),
                      (f"{t}? y = {op}om{g}(4, 'a'); if (try y) ev_num(y.v);", "an4,104,", f"unaryopt:{op}{form}"), (f"{t}? y = {op}om{g}(-4, 'a'); if (catch y) {{ evt('f'); }}", "af", f"unaryopt:{op}{form}")]
            if op == "-":
                cases += [(f"ev_num(mk{g}(9, 'a') - -mk{g}(4, 'b'));", "abn4,s9,104,77,", f"unary:sub{form}"), (f"ev_num((+mk{g}(9, 'a')).v);", "a9,", f"unary:plus{form}")]
    # optional operands of a binary overload
    t = "A"
    pre.append("""struct Opt { int v; } fn Opt? om(int v, int c) @noinline { evt(c); if (v < 0) return FLT?; return { v }; }
fn int Opt.add(self, Opt p) @operator(+) { evt('+'); ev_num(self.v); ev_num(p.v); return self.v * 16 + p.v; }
fn int Opt.addi(self, int p) @operator_s(*) { evt('*'); ev_num(self.v); ev_num(p); return self.v * 16 + p; }
fn bool Opt.eqq(self, Opt p) @operator(==) { evt('='); ev_num(self.v); ev_num(p.v); return self.v == p.v; }
fn int? oi(int v, int c) @noinline { evt(c); if (v < 0) return FLT?; return v; }""")
    for x, y in itertools.product((5, -1), repeat=2):
        for e, ev in ((f"om({x}, 'a') + om({y}, 'b')", ("+", x, y, x * 16 + y)), (f"om({x}, 'a') * oi({y}, 'b')", ("*", x, y, x * 16 + y)), (f"oi({x}, 'a') * om({y}, 'b')", ("*", y, x, y * 16 + x))):
            want = "af" if x < 0 else "abf" if y < 0 else f"ab{ev[0]}{ev[1]},{ev[2]},{ev[3]},"
            cases.append((f"int? r = {e}; if (catch r) {{ evt('f'); return; }} ev_num(r);", want, f"opt:{ev[0]}"))
        for op in ("==", "!="):
            want = "af" if x < 0 else "abf" if y < 0 else f"ab={x},{y},{int((x == y) == (op == '=='))},"
            cases.append((f"bool? r = om({x}, 'a') {op} om({y}, 'b'); if (catch r) {{ evt('f'); return; }} ev_num(r ? 1 : 0);", want, f"opt:{op}"))
    c.run_cases("asg", "\n".join(pre), cases, ("-O0",) if not c.thorough else ("-O0", "-O2"), shards=8)
    return len(cases)


def elements(c):
    """[] &[] []= len in every subset, every use of them"""
    pre, cases, bad = [PRE, "fn int ix(int i, int c) @noinline { evt(c); return i; } struct Fld { int f; int g; }"], [], []
    uses = 0
    for have in itertools.chain.from_iterable(itertools.combinations("gras", k) for k in range(1, 5)):
        # g: [] by value, r: &[], a: []=, s: len
        for opt in (False,):
            for ity in ("int", "usz", "char"):
                have = set(have)
                t = f"E{len(pre)}x"
                g = t.lower()
                d = [f"struct {t} {{ int[5] d; }} struct {t}o {{ {t} m; {t}* q; }} struct {t}i {{ inline {t} z; int pad; }}",
                     f"{t} gv{g}; {t}o go{g}; {t}i gi{g}; fn {t}* gp{g}(int c) @noinline {{ evt(c); return &gv{g}; }} fn {t} mk{g}(int c) @noinline {{ evt(c); return {{ .d = {{ 10, 11, 12, 13, 14 }} }}; }}",
                     f"fn void init{g}() {{ gv{g} = {{ .d = {{ 10, 11, 12, 13, 14 }} }}; go{g}.m = gv{g}; go{g}.q = &gv{g}; gi{g}.z = gv{g}; }}"]
                if "g" in have: d.append(f"fn int {t}.get(&self, {ity} i) @operator([]) {{ evt('g'); ev_num((int)i); return self.d[i]; }}")
                if "r" in have: d.append(f"fn int* {t}.reff(&self, {ity} i) @operator(&[]) {{ evt('r'); ev_num((int)i); return &self.d[i]; }}")
                if "a" in have: d.append(f"fn void {t}.set(&self, {ity} i, int v) @operator([]=) {{ evt('s'); ev_num((int)i); ev_num(v); self.d[i] = v; }}")
                if "s" in have: d.append(f"fn {ity} {t}.lenn(&self) @operator(len) {{ evt('n'); return 4; }}")
                pre.append("\n".join(d))
                forms = [(f"gv{g}", f"gv{g}", ""), (f"(*gp{g}('p'))", f"gv{g}", "p"), (f"go{g}.m", f"go{g}.m", ""), (f"(*go{g}.q)", f"gv{g}", "")]
                inl = (f"gi{g}", f"gi{g}.z", "")
                G, R, A, S = ("g" in have), ("r" in have), ("a" in have), ("s" in have)
                I = f"({ity})ix(2, 'i')" if ity != "int" else "ix(2, 'i')"
                tagd = "".join(sorted(have)) + ":" + ity

                def case(stmt, want, what):
                    desc = f"elem:{what}:{tagd}"
                    if want is None: bad.append((f"fn void bad{len(bad)}() {{ init{g}(); {stmt} }}", desc))
                    else: cases.append((f"init{g}(); {stmt}", want, desc))
                for lv, rd, pe in forms + [inl]:
                    w = lv[:2] + ("i" if lv == inl[0] else "o" if "go" in lv else "")
                    rdd = f"ev_num({rd}.d[2]);"
                    sub = lv == inl[0]
                    # reading
                    rdev = "g2," if G else None
                    case(f"ev_num({lv}[{I}]);", None if rdev is None else f"{pe}i{rdev}12,", f"read:{w}")
                    # writing: []= first, else &[]
                    wev = "s2,7," if A else None
                    case(f"{lv}[{I}] = iv(7, 'v'); {rdd}", None if wev is None else f"{pe}iv{wev}7," if A else {f"{pe}iv{wev}7,", f"{pe}i{wev}v7,"}, f"write:{w}")
                    # updating: &[] first, else [] and []=
                    for op, f in (("+=", lambda v: v + 7), ("*=", lambda v: v * 7), ("<<=", None)):
                        if f is None: continue
                        if sub and not (R and A): continue      # taking an embedded member apart for a get/set pair
                        ok = A and (R or G)
                        v = f(12)
                        ws = None if not ok else {f"{pe}ir2,v{v},", f"{pe}ivr2,{v},"} if R else {f"{pe}ig2,vs2,{v},{v},", f"{pe}ivg2,s2,{v},{v},"}
                        case(f"{lv}[{I}] {op} iv(7, 'v'); {rdd}", ws, f"update{op}:{w}")
                    for st, v in ((f"{lv}[{I}]++;", 13), (f"++{lv}[{I}];", 13), (f"{lv}[{I}]--;", 11), (f"--{lv}[{I}];", 11)):
                        if sub and not (R and A): continue
                        ok = A and (R or G)
                        case(f"{st} {rdd}", None if not ok else f"{pe}ir2,{v}," if R else f"{pe}ig2,s2,{v},{v},", f"incdec:{w}")
                    for st, v, res in ((f"int z = {lv}[{I}]++;", 13, 12), (f"int z = ++{lv}[{I}];", 13, 13), (f"int z = {lv}[{I}] = 9;", 9, 9), (f"int z = {lv}[{I}] -= 2;", 10, 10)):
                        if sub and not (R and A): continue
                        up = "= 9" not in st
                        ok = A and (R or G) if up else A
                        if not up and A: continue       # the value of an assignment through []= is that of the method
                        case(f"{st} ev_num(z); {rdd}", None if not ok else f"{pe}i{'r2,' if R else 'g2,s2,%d,' % v}{res},{v},", f"value:{w}")
                    # address
                    if not sub:
                        case(f"int* z = &{lv}[{I}]; *z = 99; {rdd}", f"{pe}ir2,99," if R else None, f"address:{w}")
                    # from the end
                    if not sub and S and R:
                        case(f"int* z = &{lv}[^{I}]; *z = 99; {rdd}", {f"{pe}inr2,99,", f"{pe}nir2,99,"}, f"fromendaddr:{w}")
                    if not sub and S and A and (R or G):
                        t2 = "r2,19," if R else "g2,s2,19,19,"
                        case(f"{lv}[^{I}] += 7; {rdd}", {f"{pe}in{t2}", f"{pe}ni{t2}"}, f"fromendupdate:{w}")
                        t2 = "r2,13," if R else "g2,s2,13,13,"
                        case(f"{lv}[^{I}]++; {rdd}", {f"{pe}in{t2}", f"{pe}ni{t2}"}, f"fromendupdate:{w}")
                    if not sub and S:
                        if rdev: case(f"ev_num({lv}[^{I}]);", {f"{pe}in{rdev}12,", f"{pe}ni{rdev}12,"}, f"fromend:{w}")
                        if wev: case(f"{lv}[^{I}] = iv(7, 'v'); {rdd}", {f"{pe}inv{wev}7,", f"{pe}niv{wev}7,", f"{pe}ivn{wev}7,", f"{pe}vin{wev}7,", f"{pe}in{wev}v7,", f"{pe}ni{wev}v7,"}, f"fromendwrite:{w}")
                    elif not sub and G:
                        case(f"ev_num({lv}[^{I}]);", None, f"fromend:{w}")
                # rvalue containers
                if G: case(f"ev_num(mk{g}('m')[{I}]);", "mig2,12,", "read:rvalue")
                # foreach: by value reads [] (or &[]), by reference &[]; the length is taken once
                if ity != "char":
                    for rev in ("", "_r"):
                        order = [0, 1, 2, 3] if not rev else [3, 2, 1, 0]
                        for lv, rd, pe in forms[:2] + [(f"mk{g}('m')", None, "m")]:
                            a = "g" if G else "r"
                            okv = S and G
                            case(f"foreach{rev} (v : {lv}) {{ ev_num(v); }}", None if not okv else f"{pe}n" + "".join(f"{a}{k},{10 + k}," for k in order), f"foreach{rev}")
                            case(f"foreach{rev} (k, v : {lv}) {{ ev_num((int)k); ev_num(v); }}", None if not okv else f"{pe}n" + "".join(f"{a}{k},{k},{10 + k}," for k in order), f"foreach{rev}")
                            if rd: case(f"foreach{rev} (k, &v : {lv}) {{ ev_num(*v); *v += 1; }} ev_num({rd}.d[1]); ev_num({rd}.d[4]);", None if not (S and R) else f"{pe}n" + "".join(f"r{k},{10 + k}," for k in order) + "12,14,", f"foreachref{rev}")
    c.run_cases("elem", "\n".join(pre), cases, ("-O0",) if not c.thorough else ("-O0", "-O2"), shards=8)
    errs = c.verdicts("elemv", EVPRE + "\n".join(pre), [b[0] for b in bad], shards=8)
    for b, er in zip(bad, errs):
        if not er: c.violation(f"accepted:{b[1]}", f"{b[0]} is accepted without a suitable overload ({b[1]})", {"decl": b[0], "prelude": "\n".join(pre)})
    return len(cases) + len(bad)


def run(c):
    n = binary(c)
    m = unary_assign(c)
    e = elements(c)
    c.set(rule="All overload sets and uses within the stated bounds.", exhaustive=True, binary=n, assignment=m, elements=e)
    c.sample("struct A: @operator(+)(int), @operator_s(+)(B): 3s + a is rejected, b + a calls the symmetric one with self = a after evaluating b, a; x[i] += v with only [] and []= reads, adds and stores once.")
