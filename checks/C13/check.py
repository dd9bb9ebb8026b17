"""C13: names resolve by the module and visibility rules.

1. resolution: every assignment of visibilities of one name to the modules a, a::b, a::b::c, d, d::b, xb (bounded number of
   declaring modules) x kinds of declaration x using unit (module, imports with their attributes, order) x path; one name per
   assignment, all in one program, each query on its own line: the set of rejected lines, and what the accepted ones denote when
   run, is compared with a reference resolver written from the language's rules, for two orders of all module sections.
2. scopes: every function body of bounded size over declarations, uses and scopes of one name (parameters, globals, unwrapped
   optionals, loop variables, lambdas).
3. methods: visibility of extension methods. 4. generics and attributes.
"""
import itertools
import os
import re
import shutil

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive exploration: all assignments of declarations/visibilities to modules x all import sets x all paths (and all scope nestings up to a size), each compiled and run by the real compiler, against a reference name resolver"
NOTE = ("Modules a, a::b, a::b::c, d, d::b and xb; one to three of them declare the name, as public, @private or @local; up to two imports "
        "with @public/@norecurse, either order; the user is an unrelated module, another section of a, a submodule of a or a parent's child; paths of every suffix. "
        "Resolving a module's own @local name through its own path is left unspecified.")

MODS = ["a", "a::b", "a::b::c", "d", "d::b", "xb"]
CODE = {m: 97 + i for i, m in enumerate(MODS)}
PATHS = [None, "a", "b", "c", "a::b", "b::c", "a::b::c", "d", "d::b", "xb"]
CORE = "module std::core::zz;\nextern fn void evt(int c) @builtin;\nextern fn void ev_num(long c) @builtin;\nextern fn void ev_flush() @builtin;\nalias FpZz = fn char();\n"

# kind -> (name, declaration, use). %n number, %v attributes, %c code
KINDS = {
    "fn": ("f{n}", "fn char f{n}() {v} => {c};", "evt({p}f{n}());"),
    "macro": ("f{n}", "macro char f{n}() {v} => {c};", "evt({p}f{n}());"),
    "macroat": ("@f{n}", "macro char @f{n}(#x) {v} => {c} + #x;", "evt({p}@f{n}(0));"),
    "const": ("F{n}", "const int F{n} {v} = {c};", "evt({p}F{n});"),
    "global": ("f{n}", "int f{n} {v} = {c};", "evt({p}f{n});"),
    "globalref": ("f{n}", "int f{n} {v} = {c};", "int* x{k} = &{p}f{n}; evt(*x{k});"),
    "alias": ("f{n}", "fn char g{n}x{c}() @local => {c};\nalias f{n} {v} = g{n}x{c};", "evt({p}f{n}());"),
    "fnptr": ("f{n}", "fn char f{n}() {v} => {c};", "FpZz x{k} = &{p}f{n}; evt(x{k}());"),
    "fault": ("F{n}", "faultdef F{n} {v};", "{{ String x = {p}F{n}.nameof; for (int i = 0; i < x.len; i++) {{ evt(x[i]); }} evt(44); }}"),
    "struct": ("Fx{n}", "struct Fx{n} {v} {{ char[{c}] x; }}", "evt((int){p}Fx{n}.sizeof);"),
    "structvar": ("Fx{n}", "struct Fx{n} {v} {{ char[{c}] x; }}", "{{ {p}Fx{n} y; evt((int)$sizeof(y)); }}"),
    "union": ("Fx{n}", "union Fx{n} {v} {{ char[{c}] x; int y; }}", "evt((int)$sizeof((({p}Fx{n}){{}}).x));"),
    "distinct": ("Fx{n}", "typedef Fx{n} {v} = char[{c}];", "evt((int)$sizeof(({p}Fx{n}){{}}));"),
    "typealias": ("Fx{n}", "alias Fx{n} {v} = char[{c}];", "evt((int){p}Fx{n}.sizeof);"),
    "enum": ("Fx{n}", "enum Fx{n} : (char v) {v} {{ A = {c} }}", "evt({p}Fx{n}.A.v);"),
    "bitstruct": ("Fx{n}", "bitstruct Fx{n} : char[{c}] {v} {{ int x : 0..3; }}", "evt((int){p}Fx{n}.sizeof);"),
    "fntype": ("Fx{n}", "alias Fx{n} {v} = fn char[{c}]();", "evt((int)$sizeof(({p}Fx{n}){{}}()));"),
}
TYPES = {"struct", "structvar", "union", "distinct", "typealias", "enum", "bitstruct", "fntype"}


def related(a, b):
    return a == b or a.startswith(b + "::") or b.startswith(a + "::")


def resolve(world, user, path, needs_prefix, builtin=()):
    """world: {module: set of visibilities, 'p'ublic 'r' private}. user: (module, own local code or None, imports).
    Returns the module (or 'local'), None for an error."""
    mod, own_local, imports = user
    allow = lambda m: any((i == m or (not norec and related(i, m))) and pub for i, pub, norec in imports)
    seen = lambda m: related(m, mod) or any(i == m or (not norec and related(i, m)) for i, pub, norec in imports)
    match = lambda m: path is None or m == path or m.endswith("::" + path)
    if path is None and own_local:
        return "local"
    if mod in world and match(mod):
        return mod
    need = needs_prefix and path is None
    # directly imported modules come before what is found in their submodules
    direct = []
    for i, pub, norec in imports:
        if i not in world or not match(i) or (path is None and not pub):
            continue
        if world[i] == "p" or pub:
            direct.append(i)
    exact = bool(direct)
    if not exact:
        direct = [m for m in world if match(m) and (m == mod or (seen(m) if world[m] == "p" else allow(m)))]
    if builtin and path is None:
        b = [m for m in direct if m in builtin]
        if len(b) == 1:
            return b[0]
    elif builtin and not exact:
        b = [m for m in direct if m in builtin]
        if len(b) == 1 and len(direct) > 1:
            return b[0]
    if len(direct) != 1:
        return None
    if need and direct[0] not in builtin:
        return None
    return direct[0]


def worlds(maxdecl, vis="prl"):
    out = []
    for k in range(0, maxdecl + 1):
        for ms in itertools.combinations(MODS, k):
            for vs in itertools.product(vis, repeat=k):
                out.append(dict(zip(ms, vs)))
    return out


def users(full):
    imps = ["a", "a::b", "a::b::c", "d", "d::b", "xb"]
    atts = [(False, False), (True, False), (False, True), (True, True)]
    one = [(i, p, n) for i in imps for p, n in atts]
    sets = [[]] + [[x] for x in one]
    for x in one:
        for y in one:
            if x[0] == y[0]:
                continue
            if not full and (x[2] != y[2] or imps.index(x[0]) > imps.index(y[0]) and not (x[1] and y[1])):
                continue
            sets.append([x, y])
    if full:
        sets += [[(i, p, False) for i, p in zip(t, ps)] for t in itertools.permutations(imps[:5], 3) for ps in itertools.product((False, True), repeat=3)]
    res = []
    for s in sets:
        for m in ("u", "a", "a::n", "d::b::z") if full or len(s) < 2 else ("u", "a::n"):
            if any(i == m for i, _, _ in s):
                continue
            res.append((m, s))
    return res


VIS = {"p": "", "r": "@private", "l": "@local"}


def program(kind, ws, us, builtin=None, keep=None, rev=False, section_vis=False):
    """Returns the source and the queries [(line, unit index, world index, path, expected)]."""
    name, decl, use = KINDS[kind]
    secs = []
    needs = kind not in TYPES

    def put(lines, n, w, code, vis, bi=False):
        lines.extend(decl.format(n=n, v=(vis + (" @builtin" if bi else "")).strip(), c=code).split("\n"))
    queries = []
    for m in MODS:
        lines = [f"module {m};"]
        priv = [f"module {m} @private;"]
        loc = [f"module {m} @local;"]
        for n, w in enumerate(ws):
            v = w.get(m)
            if v is None:
                continue
            bi = bool(builtin) and m in builtin[n]
            if section_vis and n % 2:
                # the visibility given by the section's attribute, or overridden in it
                put(priv if v != "l" else loc, n, w, CODE[m], {"p": "@public", "r": "", "l": ""}[v], bi)
            else:
                put(lines, n, w, CODE[m], VIS[v], bi)
        # queries inside the declaring section: the @local names are visible
        secs.append((m, lines, [("own", m)] if keep is None or True else []))
        if len(priv) > 1:
            secs.append((m, priv, []))
        if len(loc) > 1:
            secs.append((m, loc, []))
    out = []
    k = 0
    units = []
    for m, lines, own in secs:
        q = []
        if own:
            for n, w in enumerate(ws):
                if section_vis and n % 2 and w.get(m) == "l":
                    continue
                for p in PATHS:
                    if w.get(m) == "l" and p is not None and (m == p or m.endswith("::" + p)):
                        continue
                    if not w:
                        continue
                    g = {x: v for x, v in w.items() if v != "l"}
                    b = builtin[n] if builtin else ()
                    q.append((n, p, resolve(g, (m, w.get(m) == "l", []), p, needs, b), m))
        units.append((lines, q))
    for ui, (m, imps) in enumerate(us):
        um = m if m in MODS else f"{m}{ui}"
        lines = [f"module {um};"] + [f"import {i}{' @public' if p else ''}{' @norecurse' if nr else ''};" for i, p, nr in imps]
        q = []
        for n, w in enumerate(ws):
            g = {x: v for x, v in w.items() if v != "l"}
            b = builtin[n] if builtin else ()
            for p in PATHS:
                q.append((n, p, resolve(g, (um, False, imps), p, needs, b), um))
        units.append((lines, q))
    order = list(range(len(units)))
    if rev:
        order.reverse()
    files = [("zz", CORE.rstrip("\n").split("\n"))]
    for i in order:
        lines, q = units[i]
        if rev:
            imps = [x for x in lines if x.startswith("import")]
            rest = [x for x in lines[1:] if not x.startswith("import")]
            lines = [lines[0]] + imps[::-1] + rest
        out = list(lines)
        out.append(f"fn void run{i}() @export(\"r{i}\") {{")
        for j, (n, p, exp, um) in enumerate(q):
            if keep is not None and (i, j) not in keep:
                continue
            pre = "" if p is None else p + "::"
            out.append(use.format(p=pre, n=n, k=k))
            k += 1
            queries.append(((f"u{i}", len(out)), i, j, n, p, exp, um))
        out.append("}")
        files.append((f"u{i}", out))
    out = ["module zmain;"]
    for i in range(len(units)):
        out.append(f"extern fn void r{i}();")
    out.append('fn void run() @export("run") {')
    for i in range(len(units)):
        out.append(f"r{i}(); ev_flush();")
    out.append("}")
    files.append(("zmain", out))
    return files, queries, len(units)


def check_program(c, tag, kind, ws, us, builtin=None, rev=False, section_vis=False):
    src, queries, nunits = program(kind, ws, us, builtin, None, rev, section_vis)
    d = os.path.join(c.dir, tag)
    os.makedirs(d)
    lines = {}
    for name, text in src:
        with open(os.path.join(d, name + ".c3"), "w") as f:
            f.write("\n".join(text) + "\n")
        lines.update(((name, i + 1), t) for i, t in enumerate(text))
    code, out = c.run([c.c3c, "compile-only", "-C", "--use-stdlib=no", *[os.path.join(d, name + ".c3") for name, _ in src]], 300)
    txt = out.decode("utf-8", "replace")
    shutil.rmtree(d)
    src = dict(src)
    bad = {}
    byline = {q[0]: q for q in queries}
    for mm in re.finditer(r"\((\S+?):(\d+)(?::(\d+))?\) Error: (.*)", txt):
        ln = (os.path.basename(mm[1])[:-3], int(mm[2]))
        if ln not in byline:
            c.violation(f"{kind}:prelude", f"error outside the queries: {mm[0]}", {"output": txt[:3000], "kind": kind})
            return
        bad[ln] = mm[4]
    if code not in (0, 1) or (code == 1) != bool(bad):
        c.violation(f"{kind}:status", f"exit {code} with {len(bad)} rejected names: {txt[-500:]}", {"output": txt[-3000:], "kind": kind})
        return
    keep = set()
    n_bad = 0
    want = {}
    for ln, i, j, n, p, exp, um in queries:
        if (exp is None) != (ln in bad):
            n_bad += 1
            if n_bad <= 20:
                c.violation(f"{kind}:verdict:{'accepts' if exp is None else 'rejects'}:{describe(ws[n], us, i, um, p, builtin and builtin[n])}",
                            f"{lines[ln]} in {' '.join(x for x in src[ln[0]] if x.startswith(("module", "import")))} with {ws[n]}: " + (f"rejected ({bad.get(ln)}), denotes {exp}" if exp is not None else "accepted, is not visible or ambiguous"),
                            {"unit": "\n".join(src[ln[0]])[:20000], "line": ln, "kind": kind, "world": ws[n]})
        if ln not in bad and exp is not None:
            keep.add((i, j))
            want.setdefault(i, []).append(((um if exp == "local" else exp), n, p))
    c.add(evaluations=len(queries), distinct_nontrivial=len(keep), rejected=len(bad))
    # what do the accepted ones denote?
    src2, q2, _ = program(kind, ws, us, builtin, keep, rev, section_vis)
    src2 = "\n".join("\n".join(text) for _, text in src2) + "\n"
    exe, txt = c.build_min(tag + "_run", src2, "-O0")
    if not exe:
        return
    code, out = c.run([exe], 60)
    got = out.decode("latin1").split("\n")
    if code != 0 or len(got) < nunits:
        c.violation(f"{kind}:run", f"the program ended with {code} after {len(got)} units", {"program": src2[:300000]})
        return
    for i in range(nunits):
        w = want.get(i, [])
        if kind == "fault":
            exp = "".join(f"F{n}," for m, n, _ in w)
        else:
            exp = "".join(chr(CODE[m]) for m, _, _ in w)
        if got[i] != exp:
            k = next((x for x in range(min(len(got[i]), len(exp))) if got[i][x] != exp[x]), min(len(got[i]), len(exp)))
            what = w[k] if kind != "fault" and k < len(w) else None
            um = us[i - (nunits - len(us))][0] if i >= nunits - len(us) else "own section"
            c.violation(f"{kind}:denotes:{um}:{what and (describe(ws[what[1]], us, i, um, what[2], builtin and builtin[what[1]]))}",
                        f"in unit {i} ({um}): {what}: denotes {got[i][k:k + 1]!r}, want {exp[k:k + 1]!r}", {"program": src2[:300000], "unit": i, "got": got[i][:2000], "want": exp[:2000]})
            return


def describe(w, us, i, um, p, b):
    return f"{'+'.join(m + '=' + v for m, v in w.items())}:{um}:{p}:{b or ''}"


def run_resolution(c, full):
    tasks = []
    us = users(full)
    every = worlds(3 if full else 2) + ([] if full else [dict(zip(MODS, "pppppp")), dict(zip(MODS, "pprppp")), dict(zip(MODS[:5], "rrrrr")), dict(zip(MODS[:4], "pppp"))])
    small = worlds(2)
    per = 40
    plain_us = [u for u in us if len(u[1]) < 2] + [u for u in us if len(u[1]) == 2][:: 1 if full else 7]
    for kind in KINDS:
        main = kind in ("fn", "struct")
        wset = every if main else small if full else small[::3] + small[1:20]
        uset = us if main else plain_us
        size = per if not full or not main else 60
        for s in range(0, len(wset), size):
            tasks.append((f"r_{kind}_{s}", kind, wset[s:s + size], uset, None, (s // size) % 2 == 1, (s // size) % 3 == 2))
            if main and full:
                tasks.append((f"rr_{kind}_{s}", kind, wset[s:s + size], uset, None, (s // size) % 2 == 0, (s // size) % 3 == 1))
    # @builtin names need no path, and win over others
    ws, bs = [], []
    for k in range(1, 4):
        for ms in itertools.combinations(MODS[:5], k):
            for flags in itertools.product((0, 1), repeat=k):
                if any(flags):
                    ws.append({m: "p" for m in ms})
                    bs.append({m for m, f in zip(ms, flags) if f})
    for kind in ("fn", "macroat", "const", "global"):
        if kind != "fn" and not full:
            tasks.append((f"b_{kind}", kind, ws[:30], plain_us, bs[:30], False, False))
            continue
        for s in range(0, len(ws), 40):
            tasks.append((f"b_{kind}_{s}", kind, ws[s:s + 40], plain_us if not full else us, bs[s:s + 40], s % 80 == 40, False))
    c.pmap(lambda t: check_program(c, t[0], t[1], t[2], t[3], t[4], t[5], t[6]), tasks)
    c.set(programs=len(tasks), using_units=len(us))


# ---- scopes
SPRE = """
int x = 1;
fn int? sopt(int a) { if (a < 0) { return SF?; } return a; }
faultdef SF;
fn bool one() => true;
fn bool zero() => false;
macro @body(; @b()) { int z = 77; @b(); }
macro @bodyx(int v; @b(int x)) { int z = 77; @b(v); }
macro mval(v) { int x = v; return x + 0; }
"""
# forms of scopes: how they are written around their body ({k}: a fresh number), whether they declare x, whether the
# enclosing locals are hidden, whether they are transparent (no scope of their own), when the body runs
FORMS = {
    "block": ("{ %s }", 0), "if": ("if (one()) { %s }", 0), "else": ("if (zero()) {{}} else {{ %s }}", 0),
    "for": ("for (int w{k} = 0; w{k} < 1; w{k}++) {{ %s }}", 0), "forx": ("for (int {x} = {k}; {x} < {k} + 1; {x}++) {{ %s }}", 1),
    "foreachx": ("foreach ({x} : (int[1]){{ {k} }}) {{ %s }}", 1), "iftryx": ("if (try {x} = sopt({k})) {{ %s }}", 1),
    "iftryelse": ("if (try {x} = sopt(-1)) {{}} else {{ %s }}", 2), "ifdecl": ("if (int {x} = {k}) {{ %s }}", 1),
    "ifdeclelse": ("if (int {x} = 0) {{}} else {{ %s }}", 3), "switchx": ("switch (int {x} = {k}) {{ default: %s }}", 1),
    "case": ("switch (1) {{ case 1: %s }}", 0), "defer": ("defer {{ %s }}", 0), "lambda": ("FnZz l{k} = fn void() {{ %s }}; l{k}();", 0),
    "macrobody": ("@body() {{ %s }};", 0), "macrobodyx": ("@bodyx({k}; int {x}) {{ %s }};", 1), "do": ("do {{ %s }} while (zero());", 0),
    "ctif": ("$if true: %s $endif", 0), "ctelse": ("$if false: int {x} = 5; $else %s $endif", 0), "whilex": ("while (int {x} = {k}) {{ %s break; }}", 1),
}


def bodies(n, depth, forms):
    """All bodies of exactly n items."""
    if n == 0:
        return [()]
    out = []
    for rest in bodies(n - 1, depth, forms):
        out += [("D",) + rest, ("Q",) + rest]
    if depth:
        for k in range(1, n):
            for inner in bodies(k, depth - 1, forms):
                for rest in bodies(n - 1 - k, depth, forms):
                    out += [((f, inner),) + rest for f in forms]
    return out


def render(body, x, g):
    """The text, the values of x seen by each use in order of execution, or None if the body is to be rejected."""
    cnt = [1]
    ok = [True]

    def seq(items, env):
        # env: list of values of the declared locals named x that are visible (innermost last); returns text, events
        text, ev, defers = [], [], []
        for it in items:
            if it == "D":
                cnt[0] += 1
                k = cnt[0]
                text.append(f"int {x} = {k};")
                if env:
                    ok[0] = False
                env.append(k)
            elif it == "Q":
                text.append(f"ev_num({x});")
                if env:
                    ev.append(env[-1])
                elif g:
                    ev.append(1)
                else:
                    ok[0] = False
            else:
                f, inner = it
                cnt[0] += 1
                k = cnt[0]
                form, decl = FORMS[f]
                if f == "lambda":
                    t, e, d = seq(inner, [])
                    e = e + d
                elif f in ("ctif", "ctelse"):
                    t, e, d = seq(inner, env)
                    defers[:0] = d
                else:
                    e2 = list(env)
                    if decl in (1, 2, 3) and env:
                        ok[0] = False
                    if decl == 1:
                        e2.append(k)
                    if decl == 3:
                        e2.append(0)
                    t, e, d = seq(inner, e2)
                    e = e + d
                if f == "block":
                    text.append("{ " + t + " }")
                elif f == "if":
                    text.append("if (one()) { " + t + " }")
                else:
                    text.append((form.replace("%s", "\x01").format(k=k, x=x)).replace("\x01", t))
                if f == "defer":
                    defers[:0] = e
                else:
                    ev += e
        return " ".join(text), ev, defers
    t, e, d = seq(body, [])
    return t, (e + d if ok[0] else None)


def run_scopes(c, full):
    cases = []
    for n in range(1, 6 if full else 5):
        forms = list(FORMS) if n < 5 else ["block", "forx", "lambda", "defer", "iftryx", "ctif", "macrobody"]
        for b in bodies(n, 3 if full else 2, forms):
            if "Q" not in repr(b):
                continue
            for x, g in (("x", True), ("y", False)):
                if not g and n == 4 and not full:
                    continue
                t, e = render(b, x, g)
                cases.append((b, x, t, e))
    decls = [f"fn void v{i}() {{ {t} }}" for i, (b, x, t, e) in enumerate(cases)]
    pre = SPRE + "alias FnZz = fn void();\nextern fn void ev_num(long c);\n"
    errs = c.verdicts("scopes", pre, decls, shards=16)
    runc = []
    for (b, x, t, e), er in zip(cases, errs):
        form = "+".join(f if isinstance(f, str) else f[0] for f in b)
        if (e is None) != bool(er):
            c.violation(f"scope:{'accepts' if not er else 'rejects'}:{x}:{form}", f"{t}: " + (f"rejected ({er[0]})" if er else f"accepted, {x} is not declared there or declared twice"), {"prelude": pre, "code": t})
        elif e is not None:
            runc.append((t, "".join(f"{v}," for v in e), f"scope:{x};{t}"))
    c.run_cases("scoperun", SPRE + "alias FnZz = fn void();\n", runc, ("-O0", "-O1") if full else ("-O0",), shards=16)
    c.add(scope_cases=len(cases), scope_accepted=len(runc))


def run_methods(c):
    """Extension methods: private ones are seen in their module and by those importing it @public, local ones in their section,
    public ones wherever the module is part of the program."""
    types = {"int": ("int", "(5)"), "St": ("tm::St", "((tm::St){})"), "char[2]": ("char[2]", "((char[2]){})"), 
             "En": ("tm::En", "(tm::En.A)"), "double": ("double", "(2.0)"), "Di": ("tm::Di", "((tm::Di)3)"), "int[<4>]": ("int[<4>]", "((int[<4>]){})"), "String": ("String", "\"abc\"")}
    out = [CORE + "module tm;\nstruct St { int a; }\nenum En { A, B }\ntypedef Di = int;"]
    q = []
    for m in ("m", "m::s", "n"):
        out.append(f"module {m};\nimport tm;")
        for ti, (t, _) in types.items():
            n = list(types).index(ti)
            for v, att in (("p", ""), ("r", "@private"), ("l", "@local")):
                out.append(f"fn char {t}.{v}{m.replace('::', '_')}{n}(&self) {att} => {ord(m[-1])};" if ti != "String" else f"fn char {t}.{v}{m.replace('::', '_')}{n}(self) {att} => {ord(m[-1])};")
                q.append((m, v, n, ti))
    text = "\n".join(out).split("\n")
    users_ = [("u1", []), ("u2", [("m", False, False)]), ("u3", [("m", True, False)]), ("u4", [("m::s", True, False)]), ("u5", [("n", True, True)]), ("m", []),
              ("m::s", []), ("u6", [("m::s", False, False), ("n", True, False)]), ("m::t", []), ("n", [])]
    queries = {}
    k = 0
    for um, imps in users_:
        text += [f"module {um};", "import tm;"] + [f"import {i}{' @public' if p else ''}{' @norecurse' if nr else ''};" for i, p, nr in imps]
        text.append(f"fn void mr{k}() @export(\"mr{k}\") {{")
        for m, v, n, ti in q:
            # submodules of a module imported @public @norecurse, and private methods of parents/children: unspecified
            if v == "r" and m != um and (related(m, um) or any(related(m, i) and m != i for i, p, nr in imps)):
                continue
            ok = v == "p" or v == "r" and (m == um or any(i == m and p for i, p, nr in imps))
            text.append(f"{{ {types[ti][0]} o = {types[ti][1][1:-1] if types[ti][1][0] == '(' else types[ti][1]}; evt(o.{v}{m.replace('::', '_')}{n}()); }}")
            queries[len(text)] = (um, imps, m, v, ti, ok)
        text.append("}")
        k += 1
    path = os.path.join(c.dir, "methods.c3")

    def compile_(lines):
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        return c.run([c.c3c, "compile-only", "-C", "--use-stdlib=no", path], 60)
    code, outb = compile_(text)
    bad = {}
    for mm in re.finditer(r"\((\S+?):(\d+)(?::(\d+))?\) Error: (.*)", outb.decode("utf-8", "replace")):
        bad[int(mm[2])] = mm[4]
    for ln in bad:
        if ln not in queries:
            c.violation("method:prelude", f"error outside the queries: line {ln} {bad[ln]}: {text[ln - 1]}", {"program": "\n".join(text)})
    for ln, (um, imps, m, v, ti, ok) in queries.items():
        if ok != (ln not in bad):
            c.violation(f"method:{v}:{m}:{um}:{ti}", f"{text[ln - 1]} in module {um} with imports {imps}: " + (f"rejected: {bad.get(ln)}" if ok else "accepted, is not visible"), {"program": "\n".join(text), "line": ln})
    good = [t for i, t in enumerate(text) if not (i + 1 in queries and i + 1 in bad)]
    exe, _ = c.build_min("methodrun", "\n".join(good) + "\nmodule zmain;\n" + "".join(f"extern fn void mr{i}();\n" for i in range(k)) + 'fn void run() @export("run") { ' + "".join(f"mr{i}(); ev_flush(); " for i in range(k)) + "}\n", "-O0")
    if exe:
        code, o = c.run([exe], 20)
        exp = ["".join(m[-1] for ln, (um, imps, m, v, ti, ok) in queries.items() if (um, imps) == u and ln not in bad) for u in users_]
        if o.decode("latin1").split("\n")[:k] != exp:
            c.violation("method:denotes", f"the methods called are {o.decode('latin1')[:500]!r}, want {exp}", {"program": "\n".join(good)})
    c.add(evaluations=len(queries), method_cases=len(queries))


def run_misc(c):
    """Rules of imports and of duplicate declarations; generics and attributes by path; aliases across modules."""
    pre = ""
    progs = [
        # (name, source, number of the lines with errors (1-based))
        ("dup_fn", "module a;\nfn int f() => 1;\nfn int f() => 2;\n", {3}),
        ("dup_kinds", "module a;\nfn int f() => 1;\nint f;\nstruct Sx {int a;}\nenum Sx {A}\n", {3, 5}),
        ("dup_sections", "module a;\nfn int f() => 1;\nmodule a;\nfn int f() => 2;\n", {4}),
        ("dup_private_sections", "module a;\nfn int f() @private => 1;\nmodule a;\nfn int f() => 2;\n", {4}),
        ("local_sections", "module a;\nfn int f() @local => 1;\nfn int g() => f();\nmodule a;\nfn int f() @local => 2;\nfn int h() => f();\n", set()),
        ("local_same", "module a;\nfn int f() @local => 1;\nfn int f() @local => 1;\n", {3}),
        ("import_self", "module a;\nimport a;\nfn void f() {}\n", {2}),
        ("import_none", "module a;\nimport bb;\nfn void f() {}\n", {2}),
        ("import_twice", "module b;\nmodule a;\nimport b;\nimport b;\n", {4}),
        ("import_other_section", "module b;\nfn int f() => 1;\nmodule a;\nimport b;\nfn int g() => b::f();\nmodule a;\nfn int h() => b::f();\n", {7}),
        ("param_dup", "module a;\nfn void f(int x, int x) {}\n", {2}),
        ("member_dup", "module a;\nstruct Sx { int a; int a; }\nstruct Sy { int a; struct { int a; } }\n", {2, 3}),
        ("enum_dup", "module a;\nenum Ex { AA, BB, AA }\n", {2}),
        ("ctvar_dup", "module a;\nfn void f() {\n var $x = 1;\n var $x = 2;\n }\n", {4}),
        ("generic", "module g{Tx};\nstruct Gs { Tx a; }\nfn Tx gf(Tx x) => x;\nmodule a;\nimport g;\nfn int f() { Gs{int} x; return x.a + g::gf{int}(3); }\nfn int h() => gf{int}(3);\nmodule b;\nfn int f() { return g::gf{int}(3); }\nfn int h() {\n Gs{int} x; return 0; }\n", {7, 9, 11}),
        ("attr", "module g;\nattrdef @Aaa = @align(32);\nattrdef @Bbb @private = @align(32);\nmodule a;\nimport g;\nfn void f() {\n int x @Aaa;\n int y @Bbb;\n int z @align(2); }\n", {8}),
        ("label", "module a;\nfn void f() { while OUT: (true) { while INN: (true) { break OUT; } } }\nfn void g() { while OUT: (true) { break OUT; }\n break OUT; }\nfn void h() {\n while OUT: (true) { while OUT: (true) { break OUT; } } }\n", {4, 6}),
        ("cyclic_alias", "module a;\nalias f = g;\nalias g = f;\n", {2}),
        ("order", "module b;\nfn int f() => a::f() + Gg.sizeof;\nstruct Gg { Hh x; }\nimport a;\nmodule a;\nfn int f() => 1;\nstruct Hh { int a; }\n", None),
    ]

    def one(p):
        name, src, exp = p
        path = os.path.join(c.dir, f"m_{name}.c3")
        with open(path, "w") as f:
            f.write(src)
        code, out = c.run([c.c3c, "compile-only", "-C", "--use-stdlib=no", path], 30)
        txt = out.decode("utf-8", "replace")
        got = {int(m[2]) for m in re.finditer(r"\((\S+?):(\d+)(?::(\d+))?\) Error: (.*)", txt)}
        if exp is not None and (got != exp or (code == 1) != bool(got) or code not in (0, 1)):
            c.violation(f"misc:{name}", f"errors on the lines {sorted(got)} (exit {code}), want {sorted(exp)}: {txt[-600:]}", {"program": src})
    c.pmap(one, progs)
    c.add(evaluations=len(progs))


def run(c):
    full = c.tier == "thorough"
    run_misc(c)
    run_methods(c)
    run_scopes(c, full)
    run_resolution(c, full)
    c.set(rule="a name denotes the innermost/own/visible imported declaration, else is rejected", exhaustive=True)
    c.sample("a::b declares f @private, a declares f; in 'module u; import a @public; import d;' b::f() denotes a::b's, f() is rejected")
