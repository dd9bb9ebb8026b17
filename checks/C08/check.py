import itertools

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration: every case list over a small label set run on every selector value, against first-match semantics"
NOTE = ("Every ordered list of up to 3 labels (values, ranges, default; empty, nextcase or plain bodies) for integer, enum, bool, fault, typeid, text and condition switches, plain and @jump, "
        "on every selector of the small domain and at the type's extremes; all pairs of overlapping labels must be rejected.")

# a case list is [(label, body)]; label: ("v", n) | ("r", a, b) | "default"; body: "e" event, "" empty, "n" event+nextcase, ("g", label index) event + nextcase value


def match(l, x): return l != "default" and (l[1] == x if l[0] == "v" else l[1] <= x <= l[2])


def select(cases, x):
    for i, (l, b) in enumerate(cases):
        if x != "default" and match(l, x): return i
    for i, (l, b) in enumerate(cases):
        if l == "default": return i
    return None


def trace(cases, x):
    o, i, n = "", select(cases, x), 0
    while i is not None and i < len(cases):
        b = cases[i][1]
        if b == "":
            i += 1
            continue
        o += "abcdefgh"[i]
        n += 1
        if n > 6: return o + "*"
        if b == "n": i += 1
        elif isinstance(b, tuple): i = select(cases, b[1])
        else: break
    return o


def labels_overlap(cases):
    s = set()
    for l, _ in cases:
        if l == "default": k = {"d"}
        elif l[0] == "v": k = {l[1]}
        else: k = set(range(l[1], l[2] + 1))
        if k & s: return True
        s |= k
    return False


def emit(cases, lab, jump=False, fuel=True):
    o = ""
    for i, (l, b) in enumerate(cases):
        o += "default: " if l == "default" else f"case {lab(l)}: "
        if b == "": continue
        o += f"evt('{'abcdefgh'[i]}'); "
        loop = fuel and "if (++n > 6) { evt('*'); break; } "
        if b == "n": o += (loop or "") + "nextcase; "
        elif isinstance(b, tuple): o += (loop or "") + f"nextcase {'default' if b[1] == 'default' else lab(('v', b[1]))}; "
    return o


def int_lists(c):
    vals = [("v", 0), ("v", 1), ("v", 2), ("v", -1), ("r", 0, 1), ("r", 1, 3), ("r", -2, -1), ("r", 2, 2), "default"]
    for n in (1, 2, 3) if not c.thorough else (1, 2, 3, 4):
        for ls in itertools.product(vals, repeat=n):
            if labels_overlap([(l, 0) for l in ls]): continue
            yield ls


def bodies(n, full):
    """which body each case has: the last one is never 'nextcase'"""
    if n == 1: return [("e",)]
    base = list(itertools.product(("e", "", "n"), repeat=n - 1))
    if not full: base = [b for b in base if b.count("n") <= 1]
    return [b + ("e",) for b in base] + [b + ("",) for b in base[:3]]


def ints(c):
    cases, ov = [], []
    lab = lambda l: str(l[1]) if l[0] == "v" else f"{l[1]}..{l[2]}"
    sel = [-2147483648, -3, -2, -1, 0, 1, 2, 3, 4, 2147483647]
    k = 0
    for ls in int_lists(c):
        for bs in bodies(len(ls), True):
            for g in ([None] + ([1, "default"] if len(ls) > 1 and bs[0] == "e" else [])):
                cs = list(zip(ls, bs))
                if g is not None:
                    if select(cs, 1) is None and g == 1: continue
                    if g == "default" and "default" not in ls: continue
                    if g == 1 and not any(l == ("v", 1) for l in ls): continue
                    cs[0] = (ls[0], ("g", g))
                k += 1
                t = ["int", "long", "short", "ichar"][k % 4]
                w = {"int": 31, "long": 63, "short": 15, "ichar": 7}[t]
                xs = [-(1 << w), -3, -2, -1, 0, 1, 2, 3, 4, (1 << w) - 1]
                want = "".join(trace(cs, x) + "|" for x in xs)
                arr = ", ".join((f"({t})0x{x & ((2 << w) - 1):x}u{w + 1}") for x in xs)
                if cs[-1][1] == "": pass
                jump = k % 3 == 0 and all(l == "default" or l[0] == "v" or l[0] == "r" for l in ls)
                for j in ([False, True] if jump else [False]):
                    body = f"foreach (x : ({t}[10]) {{ {arr} }}) {{ int n; switch (x){' @jump' if j else ''} {{ {emit(cs, lab)} }} evt('|'); }}"
                    cases.append((body, want, f"int {t}{' @jump' if j else ''} {cs};"))
    # overlap of every pair of labels is rejected
    vals = [("v", 0), ("v", 1), ("v", -1), ("r", 0, 1), ("r", 1, 3), ("r", -2, 0), ("r", 3, 3), ("v", 3), ("v", 2147483647), ("r", 2147483646, 2147483647)]
    for a in vals:
        for b in vals:
            ov.append((labels_overlap([(a, 0), (b, 0)]), f"fn void x{len(ov)}(int a) {{ switch (a) {{ case {lab(a)}: evt('a'); case {lab(b)}: evt('b'); default: evt('c'); }} }}", f"{lab(a)} and {lab(b)}"))
            ov.append((labels_overlap([(a, 0), (b, 0), (("v", 7), 0)]), f"fn void x{len(ov)}(int a) {{ switch (a) {{ case {lab(a)}: case 7: evt('a'); default: nextcase; case {lab(b)}: evt('b'); }} }}", f"{lab(a)} and {lab(b)}"))
    return cases, ov


def wide():
    """big and unsigned types: labels at the extremes; all char values"""
    cases = []
    T = {"char": (8, 0), "ushort": (16, 0), "uint": (32, 0), "ulong": (64, 0), "long": (64, 1), "int128": (128, 1), "uint128": (128, 0), "ichar": (8, 1)}
    for t, (w, s) in T.items():
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        lit = lambda v: f"({t})0x{v & ((1 << w) - 1):x}u{w}"
        L = [("v", lo), ("v", hi), ("r", hi - 3, hi - 1), ("r", lo + 1, lo + 2), ("v", (lo + hi) // 2), ("r", (lo + hi) // 2 - 5, (lo + hi) // 2 - 1)]
        xs = sorted({x for l in L for y in l[1:] for x in (y - 1, y, y + 1) if lo <= x <= hi})
        if w == 8: xs = list(range(lo, hi + 1))
        lab = lambda l: lit(l[1]) if l[0] == "v" else f"{lit(l[1])}..{lit(l[2])}"
        for n in (2, 3, 6):
            for sub in itertools.permutations(L, n) if n < 3 else itertools.combinations(L, n):
                for d in (None, 0, n):
                    cs = [(l, "e") for l in sub]
                    if d is not None: cs.insert(d, ("default", "e"))
                    for j in (" @jump", "") if n == 6 and w in (8,) else ("",):
                        body = f"foreach (x : ({t}[{len(xs)}]) {{ {', '.join(lit(x) for x in xs)} }}) {{ int n; switch (x){j} {{ {emit(cs, lab)} }} evt('|'); }}"
                        cases.append((body, "".join(trace(cs, x) + "|" for x in xs), f"wide {t}{j} {n};"))
    # ranges too long for a table of cases
    for t, lo, hi in (("int", -2147483648, 2147483647), ("long", -(1 << 63), (1 << 63) - 1), ("ushort", 0, 65535), ("uint", 0, 0xffffffff)):
        w = {"int": 32, "long": 64, "ushort": 16, "uint": 32}[t]
        lit = lambda v: f"({t})0x{v & ((1 << w) - 1):x}u{w}"
        lab = lambda l: lit(l[1]) if l[0] == "v" else f"{lit(l[1])}..{lit(l[2])}"
        m = (lo + hi) // 2
        L = [("r", lo, m - 10), ("r", m - 9, m - 9), ("r", m - 8, m + 500), ("v", m + 501), ("r", m + 600, hi), "default"]
        xs = sorted({x for l in L[:-1] for y in l[1:] for x in (y - 1, y, y + 1) if lo <= x <= hi})
        for sub in itertools.permutations(L, 3):
            for bs in (("e", "e", "e"), ("", "e", "e"), ("e", "", "e"), ("n", "e", "e")):
                cs = list(zip(sub, bs))
                body = f"foreach (x : ({t}[{len(xs)}]) {{ {', '.join(lit(x) for x in xs)} }}) {{ int n; switch (x) {{ {emit(cs, lab)} }} evt('|'); }}"
                cases.append((body, "".join(trace(cs, x) + "|" for x in xs), f"long range {t};"))
        cs = [(("r", lo, hi), "e")]
        cases.append((f"foreach (x : ({t}[{len(xs)}]) {{ {', '.join(lit(x) for x in xs)} }}) {{ int n; switch (x) {{ {emit(cs, lab)} }} evt('|'); }}", "a|" * len(xs), f"full range {t};"))
    return cases


INVALID = [(b, f"fn void z{i}(int a, int y, En e) {{ switch ({x}) {{ {d} }} }}", d) for i, (b, x, d) in enumerate([
    (True, "a", "case 2..1: evt('a');"), (True, "a", "case 1..1000: evt('b'); case 3000..2000: evt('a');"), (True, "a", "case 1..1000: evt('b'); case 1000..2000: evt('a');"),
    (True, "a", "case 1..y: evt('b');"), (True, "a", "case y..9: evt('b');"), (True, "a", "default: evt('a'); case 1: evt('b'); default: evt('c');"),
    (True, "e", "case AAA: evt('a');"), (True, "e", "case AAA..BBB: evt('a'); case BBB..CCC: evt('b');"), (False, "e", "case AAA..BBB: evt('a'); case CCC..DDD: evt('b');"),
    (True, "e", "case BBB..AAA: evt('a'); default: evt('b');"), (True, "(char)a", "case 256: evt('a');"), (False, "(char)a", "case 255: evt('a');"), (True, "a", "case 1: nextcase 5; case 2: evt('a');"),
    (False, "a", "case 1: nextcase 2; case 2: evt('a');"), (True, "a", "case 1: nextcase default; case 2: evt('a');"), (True, "a", "case 1: evt('a'); case 2: nextcase;"), (True, "a", 'case "a": evt(1);'),
    (False, "a", "case int.min..int.max: evt('a');"), (True, "a", "case int.min..int.max: evt('a'); case 7: evt('b');"), (False, "a", "case y: evt('a'); case 1: evt('b'); case 2: evt('c');"), (True, "a", "case y: evt('a'); case 1: evt('b'); case 1: evt('c');"),
])]


def symbols(c):
    """enum, bool, fault, typeid, pointer: constant symbols"""
    cases, ov = [], []
    kinds = {
        "En": ["AAA", "BBB", "CCC", "DDD"], "bool": ["false", "true"], "fault": ["FA", "FB", "FC", "FD"],
        "typeid": ["int", "Foo", "double", "int*"], "char[]": ['"a"', '"ab"', '""', '"b"'], "Dist": ["D0", "D1", "D2", "D3"],
        "any_type": ["int", "Foo", "double", "int*"], "double": ["0.5", "-1.0", "2.0", "1e300"],
    }
    for t, names in kinds.items():
        n = len(names)
        rng = t == "En"
        labs = [("v", i) for i in range(min(n, 3))] + ["default"] + ([("r", 0, 1), ("r", 1, 2), ("r", 2, 3), ("r", 0, 2)] if rng else [])
        lab = lambda l: names[l[1]] if l[0] == "v" else f"{names[l[1]]}..{names[l[2]]}"
        for k in (1, 2, 3, 4):
            for ls in itertools.product(labs, repeat=k):
                if labels_overlap([(l, 0) for l in ls]):
                    if k == 2 and t not in ("any_type",):
                        ov.append((True, f"fn void y{len(ov)}({t} a) {{ switch (a) {{ case {lab(ls[0])}: evt('a'); case {lab(ls[1])}: evt('b'); default: evt('c'); }} }}" if "default" not in ls else
                                   f"fn void y{len(ov)}({t} a) {{ switch (a) {{ default: evt('a'); default: evt('b'); }} }}", f"{t} {ls}"))
                    continue
                full = "default" in ls or {x for l in ls if l != "default" for x in range(l[1], l[-1] + 1)} == set(range(n))
                if t == "En" and not full: continue
                for bs in bodies(k, k < 3)[:12 if k < 4 else 3]:
                    cs = list(zip(ls, bs))
                    arr = ", ".join(x if t not in ("typeid",) else x + ".typeid" for x in names)
                    if t == "any_type":
                        body = f"any[4] vs = {{ &i_, &foo_, &d_, &ip_ }}; foreach (x : vs) {{ int n; switch (x.type) {{ {emit(cs, lab)} }} evt('|'); }}"
                    else:
                        body = f"{t}[{n}] vs = {{ {arr} }}; foreach (x : vs) {{ int n; switch (x) {{ {emit(cs, lab)} }} evt('|'); }}"
                    want = "".join(trace(cs, x) + "|" for x in range(n))
                    cases.append((body, want, f"{t} {cs};"))
    return cases, ov


def dynamic(c):
    """non-constant labels and conditions: the first match wins; computed nextcase"""
    cases = []
    labs = ["1", "y", "y + 1", "z", "default", "y..z", "2..3"]
    val = {"1": lambda x, y, z: x == 1, "y": lambda x, y, z: x == y, "y + 1": lambda x, y, z: x == y + 1, "z": lambda x, y, z: x == z, "y..z": lambda x, y, z: y <= x <= z, "2..3": lambda x, y, z: 2 <= x <= 3}
    for k in (2, 3):
        for ls in itertools.permutations(labs, k):
            if not any("y" in l or "z" in l for l in ls): continue
            if any(".." in l and ("y" in l) for l in ls): continue  # ranges are constant
            if any(".." in l for l in ls): continue  # and only among constant labels
            for bs in bodies(k, False)[:3]:
                want = ""
                for x in range(0, 5):
                    for y in range(0, 4):
                        for z in (1, 3):
                            i = next((i for i, l in enumerate(ls) if l != "default" and val[l](x, y, z)), None)
                            if i is None: i = ls.index("default") if "default" in ls else k
                            while i < k and bs[i] in ("", "n"):
                                if bs[i] == "n": want += "abc"[i]
                                i += 1
                            want += ("abc"[i] if i < k else "") + "|"
                cs = [(l if l == "default" else ("v", l), b) for l, b in zip(ls, bs)]
                body = f"for (int x = 0; x < 5; x++) for (int y = 0; y < 4; y++) for (int z = 1; z < 4; z += 2) {{ int n; switch (x) {{ {emit(cs, lambda l: l[1])} }} evt('|'); }}"
                cases.append((body, want, f"dynamic {ls};"))
    conds = ["x > 2", "y == 1", "x + y == 3", "z == 3 && x < 2", "default"]
    cv = {"x > 2": lambda x, y, z: x > 2, "y == 1": lambda x, y, z: y == 1, "x + y == 3": lambda x, y, z: x + y == 3, "z == 3 && x < 2": lambda x, y, z: z == 3 and x < 2}
    for k in (1, 2, 3):
        for ls in itertools.permutations(conds, k):
            for bs in bodies(k, False)[:3]:
                want = ""
                for x in range(0, 5):
                    for y in range(0, 4):
                        for z in (1, 3):
                            i = next((i for i, l in enumerate(ls) if l != "default" and cv[l](x, y, z)), None)
                            if i is None: i = ls.index("default") if "default" in ls else k
                            while i < k and bs[i] in ("", "n"):
                                if bs[i] == "n": want += "abc"[i]
                                i += 1
                            want += ("abc"[i] if i < k else "") + "|"
                cs = [(l if l == "default" else ("v", l), b) for l, b in zip(ls, bs)]
                for head in ("switch", "switch (true)"):
                    body = f"for (int x = 0; x < 5; x++) for (int y = 0; y < 4; y++) for (int z = 1; z < 4; z += 2) {{ int n; {head} {{ {emit(cs, lambda l: l[1])} }} evt('|'); }}"
                    cases.append((body, want, f"cond {ls};"))
    # nextcase to a computed value, plain and @jump, in every list of three of these labels
    for j in ("", " @jump"):
        for ls in itertools.permutations([0, 1, 2, 5, "default"], 3):
            for src in range(3):
                want = ""
                for x in range(-1, 7):
                    for y in range(-1, 7):
                        def find(v):
                            return ls.index(v) if v in ls else ls.index("default") if "default" in ls else 3
                        i, n = find(x), 0
                        while i < 3:
                            want += "abc"[i]
                            if i != src: break
                            n += 1
                            if n > 2: want += "*"; break
                            i = find(y)
                        want += "|"
                if "default" not in ls and j: pass
                o = ""
                for i, l in enumerate(ls):
                    o += ("default: " if l == "default" else f"case {l}: ") + f"evt('{'abc'[i]}'); " + ("if (++n > 2) { evt('*'); break; } nextcase y; " if i == src else "")
                cases.append((f"for (int x = -1; x < 7; x++) for (int y = -1; y < 7; y++) {{ int n; switch (x){j} {{ {o} }} evt('|'); }}", want, f"nextcase value{j} {ls};"))
    cases += [
        ("for (int i = 0; i < 4; i++) switch (int x = i * 2) { case 2: ev_num(x); case 4: evt('f'); default: ev_num(x + 100); }", "100,2,f106,", "declared selector;"),
        ("int n; switch (ev_i(2, 's')) { case 1: evt('a'); case 2: evt('b'); nextcase 3; case 3: evt('c'); default: evt('d'); }", "sbc", "selector once;"),
        ("for (int i = 0; i < 3; i++) switch (i) { case 0: int x = 5; ev_num(x); case 1: int x = 6; ev_num(x); default: { int y = 7; ev_num(y); } }", "5,6,7,", "scopes;"),
        ("int s = 0; switch OUT: (s) { case 0: switch (s) { case 0: evt('a'); nextcase OUT: 2; default: evt('x'); } case 1: evt('b'); case 2: switch (1) { case 1: evt('c'); nextcase OUT: default; } default: evt('d'); }", "acd", "labels;"),
        ("switch (3) { } switch (2) { default: evt('d'); } switch (2) { case 2: } switch (2) { case 1: evt('x'); case 2: default: evt('e'); }", "de", "empty;"),
    ]
    return cases


PRELUDE = """enum En { AAA, BBB, CCC, DDD }
faultdef FA, FB, FC, FD;
struct Foo { int x; }
typedef Dist = inline int; const Dist D0 = 5; const Dist D1 = 7; const Dist D2 = 100; const Dist D3 = -1;
int i_; Foo foo_; double d_; int* ip_;"""


def run(c):
    opts = ("-O0", "-O1", "-O3") if c.thorough else ("-O0",)
    a, ov1 = ints(c)
    b, ov2 = symbols(c)
    w = wide()
    d = dynamic(c)
    cases = a + b + w + d
    c.run_cases("sw", PRELUDE, cases, opts, shards=8 if not c.thorough else 32)
    if not c.thorough: c.run_cases("swo", PRELUDE, cases[::7], ("-O2",), shards=8)
    for pre, ov in (("ov1", ov1), ("ov2", ov2), ("ov3", INVALID)):
        for (bad, decl, what), errs in zip(ov, c.verdicts(pre, PRELUDE + "\nextern fn void evt(int c);", [o[1] for o in ov])):
            if bool(errs) != bad:
                c.violation(f"overlap:{what}", f"labels {what}: {'accepted' if not errs else errs}", {"decl": decl})
    c.set(rule="distinct switch statements; each run on every selector of its domain", exhaustive=True)
    c.sample(cases[777][0])
    c.sample(d[-30][0])
