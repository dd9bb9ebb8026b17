"""C15: calls through interface and any values reach the dynamic type; type identity holds exactly between equal types.

Generated programs over eight implementing types (struct, distinct, enum, union, bitstruct, builtin, array, generic instance; methods in the
type's module or in another one): every sequence of conversions up to a length x every method callable at the end; every way to store and
pass the value; all short sequences of receivers at one call site; presence tests; the implicit/explicit conversion matrix; all pairs of a
list of types for identity, by every way to compare them.
"""
import itertools
import os

from vlib.check import PRE

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive exploration: all conversion sequences (any, interfaces, pointers) up to a length over all implementing types x all methods, all pairs of types for identity, compiled and run by the real compiler, against a reference model of dynamic dispatch"
NOTE = "Ten types, four interfaces (one inheriting, optional methods), conversion sequences of length 3 (thorough: 4), receivers at one call site in all sequences of length 3; 45 types for identity (all pairs)."

# name, declaration (without the interfaces), interfaces, receiver code, initial value, state expression on self, increment
TYPES = {
    "Sa": ("struct Sa (Ia) { int st; }", ["Ia"], "{ .st = 1 }", "(int)self.st", "self.st++;", "tys"),
    "Sb": ("struct Sb (Ib, Ic) { char[7] pad; long st; Big big; }", ["Ib", "Ic"], "{ .st = 1 }", "(int)self.st", "self.st++;", "ext"),
    "Di": ("typedef Di (Ib) = int;", ["Ib"], "(Di)1", "(int)*self", "*self = (Di)(int)*self + (Di)1;", "ext"),
    "En": ("enum En (Ia, Ic) : int (int k) { ZERO = 5, ONE = 6, TWO = 7, THREE = 8, FOUR = 9, FIVE = 10, SIX = 11 }", ["Ia", "Ic"], "En.ONE", "(int)self.ordinal", "*self = En.from_ordinal(self.ordinal + 1);", "tys"),
    "Un": ("union Un (Ib, Ic) { int st; double d; char[24] z; }", ["Ib", "Ic"], "{ .st = 1 }", "self.st", "self.st++;", "ext2"),
    "Bi": ("bitstruct Bi (Ic) : uint { int x : 0..3; int st : 4..20; }", ["Ic"], "{ .st = 1, .x = 5 }", "(int)self.st", "self.st++;", "ext"),
    "int": (None, ["Ic"], "1", "*self", "(*self)++;", "ext2"),
    "char[2]": (None, ["Ia"], "{ 1, 9 }", "(int)(*self)[0]", "(*self)[0]++;", "ext"),
    "Gi": ("alias Gi = Gen{int, 3};", ["Ia"], "{ .st = 1 }", "(int)self.st", "self.st++;", None),
    "Gl": ("alias Gl = Gen{long, 4};", ["Ia"], "{ .st = 1 }", "(int)self.st", "self.st++;", None),
}
CODE = {t: i + 2 for i, t in enumerate(TYPES)}
IFS = {"Ia": [], "Ib": ["Ia"], "Ic": [], "Id": ["Ib", "Ic"]}
METHODS = {"Ia": ["fa", "ga"], "Ib": ["ob", "hb"], "Ic": ["fc", "vc", "wc"], "Id": []}
OPTIONAL = {"hb", "vc"}
# optional methods that are implemented
HAS_OPT = {"Sb": ["hb"], "Di": ["hb", "vc"], "En": ["vc"], "Un": [], "Bi": ["vc"], "int": []}
DECLS = {
    "fa": "fn int {t}.fa(&self, int x) @dynamic {{ int r = {k} * 1000 + {s} * 10 + x; {i} return r; }}",
    "ga": "fn Big {t}.ga(&self, Big b, char y) @dynamic {{ b.a += {k} * 100; b.a += {s}; b.c[3] = y; b.c[19] = 7; {i} return b; }}",
    "ob": "fn int? {t}.ob(&self, int x) @dynamic {{ if (x < 0) return ifs::OF?; int r = {k} * 1000 + {s} * 10 + x; {i} return r; }}",
    "hb": "fn double {t}.hb(&self) @dynamic {{ double r = {k} + {s} * 0.5; {i} return r; }}",
    "fc": "fn int {t}.fc(&self, int a, double b, String c) @dynamic {{ int r = {k} * 1000 + {s} * 10 + a + (int)b + (int)c.len; {i} return r; }}",
    "vc": "fn void {t}.vc(&self, int* p) @dynamic {{ *p = {k} * 1000 + {s} * 10; {i} }}",
    "wc": "fn long {t}.wc(&self, int... xs) @dynamic {{ long r = {k} * 1000; r += (long)({s}) * 10; r += (long)xs.len; foreach (x : xs) r += (long)x; {i} return r; }}",
}


def parents(i):
    out = [i]
    for p in IFS[i]:
        out += parents(p)
    return out


def all_methods(i):
    return [m for p in parents(i) for m in METHODS[p]]


def implements(t, i):
    return any(i in parents(x) for x in TYPES[t][1])


def declares(t, i):
    # only what is named converts without a cast
    return TYPES[t][0] is not None and i in TYPES[t][1]


def has(t, m):
    for x in TYPES[t][1]:
        if m in all_methods(x):
            return m not in OPTIONAL or m in HAS_OPT.get(t, [])
    return False


def prelude():
    o = ["""module ifs;
struct Big { long a; int b; char[20] c; }
faultdef OF;
interface Ia { fn int fa(int x); fn Big ga(Big b, char y); }
interface Ib : Ia { fn int? ob(int x); fn double hb() @optional; }
interface Ic { fn int fc(int a, double b, String c); fn void vc(int* p) @optional; fn long wc(int... xs); }
interface Id : Ib, Ic { }
module gen{Tx, NN};
import ifs;
struct Gen (Ia) { Tx[NN] pad; Tx st; }
fn int Gen.fa(&self, int x) @dynamic { int r = (NN == 3 ? %d : %d) * 1000 + (int)self.st * 10 + x; self.st++; return r; }
fn Big Gen.ga(&self, Big b, char y) @dynamic { b.a += (NN == 3 ? %d : %d) * 100; b.a += (int)self.st; b.c[3] = y; b.c[19] = 7; self.st++; return b; }
module tys;
import ifs, gen;""" % (CODE["Gi"], CODE["Gl"], CODE["Gi"], CODE["Gl"])]
    for t, (d, *_r) in TYPES.items():
        if d:
            o.append(d)
    mods = {"tys": [], "ext": [], "ext2": []}
    for t, (d, ifs, init, s, inc, mod) in TYPES.items():
        if mod:
            for m in dict.fromkeys(m for i in ifs for m in all_methods(i)):
                if has(t, m):
                    mods[mod].append(DECLS[m].format(t=t, k=CODE[t], s=s, i=inc))
    # a @dynamic method whose name is that of a method of an interface the type has not
    o += mods["tys"]
    for m in ("ext", "ext2"):
        o += [f"module {m};", "import ifs, tys;"] + mods[m]
    o += ["module zz;", "import ifs, tys, ext, ext2, gen;",
          "fn void big(Big b) { ev_long(b.a); ev_num(b.b); ev_num(b.c[0]); ev_num(b.c[3]); ev_num(b.c[19]); }",
          "const Big BB = { .a = 7, .b = 8, .c = { [0] = 3, [19] = 1 } };", PRE]
    return "\n".join(o)


def call(v, m, t, st, n):
    """Code calling method m on v (any expression of interface type), and the events, given state st of type t."""
    k = CODE[t]
    if m == "fa":
        return f"ev_num({v}.fa({n}));", f"{k * 1000 + st * 10 + n},"
    if m == "ga":
        return f"big({v}.ga(BB, {n}));", f"{7 + k * 100 + st},8,3,{n},7,"
    if m == "ob":
        return f"ev_num({v}.ob({n}) ?? -1); ev_num({v}.ob(-5) ?? -1);", f"{k * 1000 + st * 10 + n},-1,"
    if m == "hb":
        return f"double hd = {v}.hb(); ev_long((long)(hd * 2));", f"{k * 2 + st},"
    if m == "fc":
        return f"ev_num({v}.fc({n}, 20.0, \"abc\"));", f"{k * 1000 + st * 10 + n + 23},"
    if m == "vc":
        return f"{{ int q; {v}.vc(&q); ev_num(q); }}", f"{k * 1000 + st * 10},"
    if m == "wc":
        return f"ev_long({v}.wc({n}, 2, 3));", f"{k * 1000 + st * 10 + 3 + n + 5},"


def state_check(t):
    s = TYPES[t][3].replace("self", "p0")
    return f"{{ {t}* p0 = &v; ev_num({s}); }}"


def conv_cases(depth):
    cases = []
    for t in TYPES:
        init = TYPES[t][2]
        kinds = ["any", *IFS, "ptr"]
        for n in range(1, depth + 1):
            for seq in itertools.product(kinds, repeat=n):
                if any(seq[i] == "ptr" and (i == 0 or seq[i - 1] == "ptr") for i in range(n)):
                    continue
                if seq[-1] == "ptr":
                    continue
                code = [f"{t} v = {init};"]
                cur, cv = "ptr", "&v"
                for i, k in enumerate(seq):
                    ty = f"{t}*" if k == "ptr" else k
                    implicit = cur == k or (cur == "ptr" and (k == "any" or declares(t, k))) or (cur in IFS and (k == "any" or k in IFS[cur]))
                    if cur == "ptr" and k in IFS and not declares(t, k):
                        e = f"({k})(any){cv}"
                    elif implicit and (i + len(seq)) % 2:
                        e = cv
                    elif implicit and k in IFS and cur == "any":
                        e = cv
                    else:
                        e = f"({ty}){cv}"
                    code.append(f"{ty} c{i} = {e};")
                    cur, cv = k, f"c{i}"
                last = seq[-1]
                tail = f"ev_num((int)({cv}.type == {t}.typeid)); ev_num((int)((void*){cv} == (void*)&v)); ev_num((int)({cv}.ptr == &v));"
                exp = "1,1,1,"
                if last == "any":
                    cases.append((" ".join(code) + tail, exp, f"conv;{t}:{'>'.join(seq)}"))
                    continue
                for m in all_methods(last):
                    if has(t, m):
                        a, e1 = call(cv, m, t, 1, 4)
                        st = 2
                        cases.append((" ".join(code) + tail + a + state_check(t), exp + e1 + f"{st},", f"conv;{t}:{'>'.join(seq)}:{m}"))
                    elif n <= 2:
                        a, _ = call(cv, m, t, 1, 4)
                        cases.append((" ".join(code) + tail + a, (exp, "trap"), f"conv;{t}:{'>'.join(seq)}:{m} missing"))
                    cases.append((" ".join(code) + f"ev_num(&{cv}.{m} ? 1 : 0); if (&{cv}.{m}) evt('p'); if (!&{cv}.{m}) evt('n');", "1,p" if has(t, m) else "0,n", f"present;{t}:{'>'.join(seq)}:{m}")) if m in OPTIONAL or n == 1 else None
    return cases


def ways():
    """How the value gets from where it is made to the call: (name, prelude, code with {v} made of {t}, init; the expression)"""
    return [
        ("param", "fn void w_param_{i}_{m}({i} x) {{ {call:x} }}", "w_param_{i}_{m}(&v);"),
        ("paramany", "fn void w_any_{i}_{m}(any y) {{ {i} x = ({i})y; {call:x} }}", "w_any_{i}_{m}(&v);"),
        ("global", "{i} w_g_{i};", "w_g_{i} = &v; {call:w_g_{i}}"),
        ("field", "struct Wf{i} {{ int a; {i} x; }}", "Wf{i} s = {{ 1, &v }}; {call:s.x} "),
        ("array", "", "{i}[3] s = {{ [1] = &v }}; int ix = 1; {call:s[ix]}"),
        ("foreach", "", "{i}[2] s = {{ &v, &v }}; foreach (x : s) {{ {call:x} break; }}"),
        ("foreachref", "", "{i}[2] s = {{ &v, &v }}; foreach (&x : s) {{ {call:(*x)} break; }}"),
        ("ternary", "", "int n = 1; {i} z; {i} x = n ? ({i})&v : z; {call:x}"),
        ("return", "fn {i} w_r_{i}({i} x) => x;", "{call:w_r_{i}(&v)}"),
        ("optional", "fn {i}? w_o_{i}({i} x) => x;", "if (try x = w_o_{i}(&v)) {{ {call:x} }}"),
        ("orelse", "fn {i}? w_oe_{i}({i} x) => ifs::OF?;", "{call:(w_oe_{i}(&v) ?? ({i})&v)}"),
        ("macro", "macro w_m_{i}(x) => x;", "{call:w_m_{i}(({i})&v)}"),
        ("lambda", "alias WFn{i} = fn {i}({i});", "WFn{i} l = fn {i}({i} x) => x; {call:l(&v)}"),
        ("ptrto", "", "{i} x = &v; {i}* y = &x; {call:(*y)}"),
        ("slice", "fn {i} w_s_{i}({i}... xs) => xs[1];", "{call:w_s_{i}(&v, &v)}"),
        ("switch", "", "any y = &v; switch (y.type) {{ case {t}: {i} x = ({i})y; {call:x} default: evt('d'); }}"),
        ("anyfield", "struct Wa{i} {{ char a; any x; }}", "Wa{i} s = {{ 1, &v }}; {call:(({i})s.x)}"),
        ("static", "", "static {i} x; x = &v; {call:x}"),
        ("tryassign", "", "{i} x; x = &v; {i} z = x; {call:z}"),
        ("initlist", "struct Wi{i} {{ {i}[2] x; }}", "Wi{i} s = {{ .x[1] = &v }}; {call:s.x[1]}"),
    ]


def way_cases():
    pre, cases, seen = [], [], set()
    for t in TYPES:
        for i in IFS:
            if not declares(t, i):
                continue
            for m in all_methods(i):
                if not has(t, m):
                    continue
                for name, p, code in ways():
                    # the callee of "param" does the call with code of its own: it needs the number only
                    def sub(s):
                        out, pos = "", 0
                        while True:
                            a = s.find("{call:", pos)
                            if a < 0:
                                return out + s[pos:].replace("{i}", i).replace("{m}", m).replace("{t}", t).replace("{{", "{").replace("}}", "}")
                            out += s[pos:a].replace("{i}", i).replace("{m}", m).replace("{t}", t).replace("{{", "{").replace("}}", "}")
                            b, d = a + 6, 1
                            while d:
                                d += {"{": 1, "}": -1}.get(s[b], 0)
                                b += 1
                            e = s[a + 6:b - 1].replace("{i}", i).replace("{m}", m)
                            out += call(e, m, t, 1, 4)[0]
                            pos = b
                    if p:
                        pp = sub(p)
                        if pp not in seen:
                            seen.add(pp)
                            pre.append(pp)
                    ev = call("x", m, t, 1, 4)[1]
                    # an expression used twice by the call is evaluated twice, with the same effect
                    cases.append((f"{t} v = {TYPES[t][2]}; " + sub(code) + state_check(t), ev + "2,", f"way:{name};{t}:{i}:{m}"))
    return "\n".join(pre), cases


def site_cases():
    """One call site, receivers of all sequences of types."""
    cases = []
    for i, m in (("Ia", "fa"), ("Ia", "ga"), ("Ic", "fc"), ("Ib", "ob"), ("Ic", "wc")):
        ts = [t for t in TYPES if declares(t, i)]
        for seq in itertools.product(range(len(ts)), repeat=3):
            decl, st, ev = "", {}, ""
            for j in sorted(set(seq)):
                decl += f"{ts[j]} v{j} = {TYPES[ts[j]][2]}; "
                st[j] = 1
            for j in seq:
                ev += call("x", m, ts[j], st[j], 4)[1]
                st[j] += 1
            cases.append((decl + f"{i}[3] a = {{ {', '.join('&v%d' % j for j in seq)} }}; for (int k = 0; k < 3; k++) {{ {i} x = a[k]; {call('x', m, ts[0], 1, 4)[0]} }}", ev, f"site:{i}.{m};{'>'.join(ts[j] for j in seq)}"))
            if m == "fa":
                cases.append((decl + f"any[3] a = {{ {', '.join('&v%d' % j for j in seq)} }}; foreach (y : a) {{ switch (y.type) {{ " + " ".join(f"case {t}: ev_num({n}); {{ Ia q = (Ia)y; {call('q', m, t, 1, 4)[0]} }}" for n, t in enumerate(ts)) + " default: evt('d'); } }",
                              "".join(f"{j}," + call("x", m, ts[j], 1 + seq[:p].count(j), 4)[1] for p, j in enumerate(seq)), f"site:switch;{'>'.join(ts[j] for j in seq)}"))
    return cases


ID_PRE = """
alias Int2 = int;
alias Int3 = Int2;
typedef Dist1 = int;
typedef Dist2 = int;
typedef Dist3 = Dist1;
alias Dist1b = Dist1;
struct Sx1 { int a; }
struct Sx2 { int a; }
union Ux1 { int a; }
enum Ex1 { A }
enum Ex2 { A }
alias GenI = gen2::Gs{int};
alias GenI2 = gen2::Gs{Int2};
alias GenL = gen2::Gs{long};
alias GenD = gen2::Gs{Dist1};
alias Fn1 = fn int(int);
alias Fn2 = fn int(int a);
alias Fn3 = fn int(long);
alias Fn4 = fn int?(int);
alias ArrI = int[3];
alias IntSl = int[];
alias CharSl = char[];
struct Par1 { int a; }
struct Chd1 { inline Par1 p; int b; }
struct Gch1 { inline Chd1 p; int b; }
struct Non1 { Par1 p; int b; }
typedef Dinl = inline int;
typedef Ddin = inline Dinl;
typedef Dpar = inline Chd1;
"""
# type -> class of identity
IDS = {"int": "int", "Int2": "int", "Int3": "int", "uint": "uint", "char": "char", "ichar": "ichar", "long": "long", "int128": "int128", "float": "float", "double": "double", "bool": "bool",
       "Dist1": "Dist1", "Dist2": "Dist2", "Dist3": "Dist3", "Dist1b": "Dist1", "Sx1": "Sx1", "Sx2": "Sx2", "Ux1": "Ux1", "Ex1": "Ex1", "Ex2": "Ex2", "GenI": "Gi", "GenI2": "Gi", "GenL": "Gl", "GenD": "Gd",
       "int*": "int*", "Int2*": "int*", "int**": "int**", "void*": "void*", "char*": "char*", "int[2]": "int[2]", "Int2[2]": "int[2]", "int[3]": "int[3]", "ArrI": "int[3]", "IntSl": "int[]",
       "int[<2>]": "int[<2>]", "uint[2]": "uint[2]", "int[2][3]": "int[2][3]", "int[3][2]": "int[3][2]", "Sx1[3]": "Sx1[3]", "String": "String", "CharSl": "char[]", "typeid": "typeid", "any": "any", "fault": "fault",
       "Dist1*": "Dist1*", "Sx1*": "Sx1*", "GenI*": "Gi*", "Par1": "Par1", "Chd1": "Chd1", "Gch1": "Gch1", "Non1": "Non1", "Dinl": "Dinl", "Ddin": "Ddin", "Dpar": "Dpar", "Chd1*": "Chd1*", "Fn1": "Fn1", "Fn2": "Fn1", "Fn3": "Fn3", "Fn1*": "Fn1*", "Fn2*": "Fn1*", "Fn3*": "Fn3*", "Fn1[2]": "Fn1[2]", "Fn2[2]": "Fn1[2]", "Fn2[3]": "Fn1[3]", "Fn4": "Fn4", "Ia": "Ia", "Ib": "Ib", "Ia*": "Ia*"}


# what a type inherits from: 'case' of a switch over a typeid takes the type and those that inherit from it
INLINE = {"String": "char[]", "Chd1": "Par1", "Gch1": "Chd1", "Dinl": "int", "Ddin": "Dinl", "Dpar": "Chd1"}


def inherits(a, b):
    while a != b:
        if a not in INLINE:
            return False
        a = INLINE[a]
    return True


def identity_cases():
    cases = []
    for a, b in itertools.product(IDS, repeat=2):
        eq = int(IDS[a] == IDS[b])
        cases.append((f"ev_num((int)({a}.typeid == {b}.typeid)); ev_num((int)({a}.typeid != {b}.typeid)); typeid x = {a}.typeid; typeid y = {b}.typeid; ev_num((int)(x == y)); ev_num((int)(x == {b}.typeid)); "
                      f"{a} va; {b} vb; any p = &va; any q = &vb; ev_num((int)(p.type == q.type)); ev_num((int)(p.type == {b}.typeid)); ev_num((int)(id_other(p) == q.type)); "
                      f"{{ switch (p.type) {{ case {b}: evt('s'); default: evt('d'); }} }} ev_num(id_cast(p, {b}) ? 1 : 0); ev_num((int)(x == q.type)); $if {a}.typeid == {b}.typeid: evt('t'); $else evt('f'); $endif "
                      f"ev_num((int)($typeof(va).typeid == {b}.typeid)); " + (f"ev_num((int)(id_arr({b}.typeid)[{list(IDS).index(a)}]));"),
                      f"{eq},{1 - eq}," + f"{eq}," * 5 + ("s" if inherits(IDS[a], IDS[b]) else "d") + f"{eq},{eq}," + ("t" if eq else "f") + f"{eq},{eq},", f"identity;{a}:{b}"))
    return cases


def matrix(c, pre):
    """What converts implicitly, what explicitly."""
    ts = [t for t in TYPES]
    frm = [("any", "any"), *[(i, i) for i in IFS], *[(t + "*", t) for t in ts]]
    decls, exp = [], []
    for f, ft in frm:
        for to in ["any", *IFS, *[t + "*" for t in ts]]:
            if f.endswith("*") and to.endswith("*"):
                continue
            if f == to or to == "any" or (f, to) in ():
                imp = True
            elif f == "any" or to.endswith("*"):
                imp = False
            elif f in IFS:
                imp = to in IFS[f]
            else:
                imp = declares(ft, to)
            k = len(decls)
            decls.append(f"fn void m{k}({f} x) {{ {to} y = x; }}")
            exp.append((imp, f, to, "implicit"))
            decls.append(f"fn {to} m{k + 1}({f} x) {{ return x; }}")
            exp.append((imp, f, to, "return"))
            # any interface or any value may be asked for an interface or a type, explicitly
            decls.append(f"fn void m{k + 2}({f} x) {{ {to} y = ({to})x; }}")
            exp.append((True, f, to, "explicit"))
    errs = c.verdicts("matrix", pre, decls, shards=4)
    for d, er, (ok, f, to, how) in zip(decls, errs, exp):
        if ok != (not er):
            c.violation(f"matrix:{how}:{f}:{to}", f"{d}: " + (f"rejected: {er[0]}" if er else "accepted"), {"prelude": pre, "code": d})
    # implementing an interface
    base = "struct Bb { long a; int b; }\nstruct Bc { long a; int b; }\nalias Ab = Bb; alias Aint = int; typedef Dint = int;\ninterface Je { fn int fa(int x); }\ninterface Jf { fn long fa(int x); }\ninterface Jg { fn Bb g(Bb a, int b); }\ninterface Jh { fn int? h(int[] a); }\ninterface Ja { fn int fa(int x); fn void fb() @optional; }\ninterface Jb : Ja { fn void fc(); }\n"
    full = []
    kinds = {"struct": "struct X{k} ({i}) {{ int a; }}", "union": "union X{k} ({i}) {{ int a; char b; }}", "distinct": "typedef X{k} ({i}) = long;", "enum": "enum X{k} ({i}) {{ A, B }}",
             "enumv": "enum X{k} ({i}) : char (int v) {{ A = 3, B = 4 }}", "bitstruct": "bitstruct X{k} ({i}) : uint {{ int x : 0..3; }}", "inline": "typedef X{k} ({i}) = inline int;"}
    k = 0
    for kind, d in kinds.items():
        for ifs, meths, ok in (
                ("Ja", ["int fa(&self, int x) @dynamic"], True), ("Ja", [], False), ("Ja", ["int fa(&self, int x)"], False), ("Ja", ["int fa(&self, long x) @dynamic"], False),
                ("Ja", ["long fa(&self, int x) @dynamic"], False), ("Ja", ["int? fa(&self, int x) @dynamic"], False), ("Ja", ["int fa(&self) @dynamic"], False), ("Ja", ["int fa(&self, int x, int y) @dynamic"], False),
                ("Ja", ["int fa(X{k} self, int x) @dynamic"], False), ("Ja", ["int fa(&self, int x = 3) @dynamic"], None), ("Ja", ["int fa(&self, int y) @dynamic"], True), ("Ja", ["uint fa(&self, int x) @dynamic"], False),
                ("Ja", ["int fa(&self, int* x) @dynamic"], False), ("Ja", ["int fa(&self, int... x) @dynamic"], False), ("Ja", ["void fa(&self, int x) @dynamic"], False),
                ("Jb", ["int fa(&self, int x) @dynamic"], False), ("Jb", ["int fa(&self, int x) @dynamic", "void fc(&self) @dynamic"], True), ("Jb", ["int fa(&self, long x) @dynamic", "void fc(&self) @dynamic"], False),
                ("Ja", ["int fa(&self, int x) @dynamic", "int fb(&self) @dynamic"], False), ("Ja", ["int fa(&self, int x) @dynamic", "void fb(&self) @dynamic"], True), ("Ja", ["int fa(&self, int x) @dynamic", "void fb(&self, int y) @dynamic"], False),
                ("Ja, Jb", ["int fa(&self, int x) @dynamic", "void fc(&self) @dynamic"], True), ("Ja, Je", ["int fa(&self, int x) @dynamic"], True), ("Ja, Jf", ["int fa(&self, int x) @dynamic"], False), ("Ja, Jf", ["long fa(&self, int x) @dynamic"], False),
                ("Ja", ["int fa(&self, int x) @dynamic", "int fa(&self, int x) @dynamic"], False), ("Jg", ["Bb g(&self, Bb a, int? b) @dynamic"], None), ("Jg", ["Bb g(&self, Bb a, Aint b) @dynamic"], True),
                ("Jg", ["Bb g(&self, Bb a, Dint b) @dynamic"], False), ("Jg", ["Bc g(&self, Bb a, int b) @dynamic"], False), ("Jg", ["Bb g(&self, Bc a, int b) @dynamic"], False), ("Jg", ["Ab g(&self, Ab a, int b) @dynamic"], True),
                ("Jh", ["int? h(&self, int[] a) @dynamic"], True), ("Jh", ["int h(&self, int[] a) @dynamic"], False), ("Jh", ["int? h(&self, int... a) @dynamic"], None), ("Jh", ["int? h(&self, int[2] a) @dynamic"], False)):
            if ok is None:
                continue
            k += 1
            full.append((d.format(k=f"x{k}", i=ifs) + " " + " ".join(f"fn {m.split(' ')[0]} Xx{k}.{m.split(' ', 1)[1]} {{ return {'' if m.startswith('void') else '{}' if m[:2] in ('Bb', 'Bc', 'Ab') else '1'}; }}".replace("X{k}", f"Xx{k}") for m in meths), ok, f"{kind}:{ifs}:{'+'.join(meths) or 'none'}"))
    def one(a):
        k, (src, ok, key) = a
        path = os.path.join(c.dir, f"impl{k}.c3")
        with open(path, "w") as f:
            f.write("module t;\n" + base + src + "\n")
        return c.run([c.c3c, "compile-only", "-C", "--use-stdlib=no", path], 20)
    for (src, ok, key), (code, out) in zip(full, c.pmap(one, list(enumerate(full)))):
        if (code == 0) != ok or code not in (0, 1):
            c.violation(f"implements:{key}", f"{src}: exit {code}, want {'accepted' if ok else 'rejected'}: {out.decode()[-300:]}", {"source": base + src})
    c.add(evaluations=len(full), matrix=len(decls))


INL_PRE = """
interface Ka { fn int ka(int x); fn int kb(int x) @optional; }
struct Ip (Ka) { int st; }
fn int Ip.ka(&self, int x) @dynamic => 100 + self.st * 10 + x;
struct Ic1 { inline Ip p; int y; }
struct Ic2 { inline Ic1 p; int y; }
struct Io { inline Ip p; int y; }
fn int Io.ka(&self, int x) @dynamic => 200 + self.p.st * 10 + x;
struct Ir (Ka) { inline Ip p; int y; }
fn int Ir.ka(&self, int x) @dynamic => 300 + self.p.st * 10 + x;
typedef Jp (Ka) = int;
fn int Jp.ka(&self, int x) @dynamic => 400 + (int)*self * 10 + x;
typedef Jc = inline Jp;
typedef Jd = inline Jc;
typedef Je = inline Ip;
"""


def inline_cases():
    """A type that inherits converts like the one it inherits from, and so is its method the one called unless it has its own."""
    cases = []
    for t, k in (("Ip", 100), ("Ic1", 100), ("Ic2", 100), ("Io", 200), ("Ir", 300), ("Jp", 400), ("Jc", 400), ("Jd", 400), ("Je", 100)):
        init = "(%s)3" % t if t[0] == "J" and t != "Je" else "{ .st = 3 }" if t in ("Ip",) else "{}"
        setst = "" if t[0] == "J" and t != "Je" or t == "Ip" else "{ Ip* ip = (Ip*)&v; ip.st = 3; } "
        for w, code in (("call", "Ka f = &v; ev_num(f.ka(2));"), ("present", "Ka f = &v; ev_num(&f.ka ? 1 : 0); ev_num(&f.kb ? 1 : 0);"), ("direct", "ev_num(v.ka(2));"), ("ptr", "Ka f = &v; ev_num((int)(f.ptr == &v));")):
            exp = {"call": f"{k + 32},", "direct": f"{k + 32},", "present": "1,0,", "ptr": "1,"}[w]
            cases.append((f"{t} v = {init}; {setst}{code}", exp, f"inline:{w}:{t};"))
    return cases


def null_cases():
    cases = []
    for i in IFS:
        cases.append((f"{i} a = null; ev_num((int)(a == null)); ev_num(a ? 1 : 0); ev_num((int)(a.ptr == null)); any b = a; ev_num(b ? 1 : 0); ev_num((int)(b == null)); {i} z; ev_num(z ? 1 : 0); ev_num((int)(z == null));", "1,0,1,0,1,0,1,", f"null;{i}"))
        if all_methods(i):
            m = all_methods(i)[0]
            cases.append((f"{i} a = null; " + call("a", m, "Sa", 1, 4)[0], None, f"null;{i} call"))
    cases.append(("any a = null; ev_num((int)(a.type == void.typeid)); ev_num(a ? 1 : 0); int x; a = &x; ev_num(a ? 1 : 0); ev_num((int)(a != null)); a = null; ev_num((int)(a == null));", "1,0,1,1,1,", "null;any"))
    cases.append(("int x = 3; int y = 3; any a = &x; any b = &y; any d = &x; ev_num((int)(a == b)); ev_num((int)(a == d)); ev_num((int)(a != b));", "0,1,1,", "null;any equality"))
    return cases


def run(c):
    full = c.tier == "thorough"
    opts = ("-O0", "-O1", "-O3") if full else ("-O0", "-O1")
    pre = prelude()
    cases = conv_cases(4 if full else 3)
    c.run_cases("conv", pre, cases, opts, shards=16)
    wpre, wcases = way_cases()
    c.run_cases("ways", pre + "\n" + wpre + INL_PRE, wcases + null_cases() + inline_cases(), ("-O0", "-O1", "-O3") if full else ("-O0", "-O1"), shards=8)
    sites = site_cases()
    c.run_cases("sites", pre, sites, ("-O0", "-O1", "-O3") if full else ("-O0", "-O1"), shards=8)
    idpre = pre.replace("module zz;", """module gen2{Tx};
struct Gs { Tx a; }
module other;
fn typeid id_other(any x) @builtin => x.type;
macro id_cast(any v, $Type) @builtin { if (v.type != $Type.typeid) return (void*)null; return (void*)($Type*)v.ptr; }
module zz;
import gen2, other;""") + ID_PRE + f"typeid[*] id_types = {{ {', '.join(t + '.typeid' for t in IDS)} }};\nfn bool[{len(IDS)}] id_arr(typeid x) {{ bool[{len(IDS)}] r; foreach (i, t : id_types) r[i] = t == x; return r; }}\n"
    ids = identity_cases()
    c.run_cases("identity", idpre, ids, opts, shards=8)
    matrix(c, pre)
    c.add(conversions=len(cases), ways=len(wcases), sites=len(sites), identity_pairs=len(ids))
    c.set(rule="the method of the dynamic type runs with its arguments; type identity exactly for equal types; conversions keep pointer and type", exhaustive=True)
    c.sample("Un u; Ia a = &u; Ic b = (Ic)(any)a; b.fc(4, 20.0, \"abc\") runs Un.fc of module ext2 on &u")
