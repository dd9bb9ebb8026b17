"""Reflection: every small type declaration x every reflection property, against a layout oracle and against the memory the program uses;
every small enum x every way to list, look up and convert its values."""

import itertools
import os
import re

from vlib import build as B
from vlib.check import PRE as EV

LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive exploration of generated declarations: all structs and unions of up to three members, bitstructs, enums, derived types and functions, "
             "each asked for every reflection property at compile time and at run time; compared with a layout oracle and with addresses and values in the running program")
NOTE = ("The real compiler evaluates every property; the program also prints the addresses of members and the distances of array elements. The oracle computes C layout rules. "
        "Exhaustive within the stated alphabets of member types, attributes and enum shapes; x86-64 only.")

KINDS = "VOID BOOL SIGNED_INT UNSIGNED_INT FLOAT TYPEID FAULT ANY ENUM STRUCT UNION BITSTRUCT FUNC OPTIONAL ARRAY SLICE VECTOR DISTINCT POINTER INTERFACE".split()

DECLS = """
struct Ta { short s; char c; }
struct Tb @packed { char c; int i; }
struct Tc { Ta a; long l; }
union Ua { char[5] a; int i; }
bitstruct Ba : int { int a : 0..3; bool b : 4; }
bitstruct Bc : char[3] { bool q : 7; uint r : 8..15; }
enum Ea : short { XX, YY }
enum Eb : char (int v) { XX = 1, YY = 2, ZZ = 3 }
typedef Da = int;
typedef Db = inline long;
typedef Dd = inline Ta;
typedef De = Da[2];
interface Ia { fn int aa(); }
alias Al = int[2];
alias Vp = void*;
alias Fa = fn int(int a, char* b);
alias Fb = fn void();
struct Sin { inline Ta t; int z; }
struct Sin2 { inline Sin t; char z; }
struct Sal @align(32) { char c; }
"""


class T:
    def __init__(self, name, size, align, kind, **kw):
        self.name, self.size, self.align, self.kind = name, size, align, kind
        self.inner = kw.get("inner")
        self.len = kw.get("len")
        self.parent = kw.get("parent")
        self.rt = kw.get("rt", True)
        self.min, self.max = kw.get("min"), kw.get("max")
        self.eq, self.ordered = kw.get("eq", True), kw.get("ordered", False)
        self.members = kw.get("members")
        self.value = kw.get("value", True)
        self.short = kw.get("short", name)


def ints():
    for n, sz, sg in (("ichar", 1, 1), ("short", 2, 1), ("int", 4, 1), ("long", 8, 1), ("char", 1, 0), ("ushort", 2, 0), ("uint", 4, 0), ("ulong", 8, 0)):
        b = sz * 8
        yield T(n, sz, sz, "SIGNED_INT" if sg else "UNSIGNED_INT", min=-(1 << (b - 1)) if sg else 0, max=(1 << (b - sg)) - 1, ordered=True)
    yield T("int128", 16, 16, "SIGNED_INT", ordered=True)
    yield T("uint128", 16, 16, "UNSIGNED_INT", ordered=True)


BASE = [*ints(), T("bool", 1, 1, "BOOL", ordered=None), T("float", 4, 4, "FLOAT", ordered=True), T("double", 8, 8, "FLOAT", ordered=True), T("float16", 2, 2, "FLOAT", ordered=True),
        T("Vp", 8, 8, "POINTER", inner="void", ordered=True, short="void*"), T("any", 16, 8, "ANY", ordered=False, eq=None), T("typeid", 8, 8, "TYPEID", ordered=False),
        T("fault", 8, 8, "FAULT", ordered=False),
        T("Ta", 4, 2, "STRUCT", eq=False), T("Tb", 5, 1, "STRUCT", eq=False), T("Tc", 16, 8, "STRUCT", eq=False), T("Ua", 8, 4, "UNION", eq=False), T("Ba", 4, 4, "BITSTRUCT", inner="int"),
        T("Bc", 3, 1, "BITSTRUCT", inner="char[3]"), T("Ea", 2, 2, "ENUM", inner="short", len=2, ordered=None), T("Eb", 1, 1, "ENUM", inner="char", len=3, ordered=None),
        T("Da", 4, 4, "DISTINCT", inner="int", ordered=True), T("Db", 8, 8, "DISTINCT", inner="long", parent="long", ordered=True),
        T("Dd", 4, 2, "DISTINCT", inner="Ta", parent="Ta", eq=False), T("De", 8, 4, "DISTINCT", inner="Da[2]", len=2),
        T("Ia", 16, 8, "INTERFACE", eq=None, value=False), T("Fa", 8, 8, "FUNC", value=True, ordered=None), T("Fb", 8, 8, "FUNC", ordered=None), T("Al", 8, 4, "ARRAY", inner="int", len=2, short="int[2]"),
        T("Sin", 8, 4, "STRUCT", parent="Ta", eq=False), T("Sin2", 12, 4, "STRUCT", parent="Sin", eq=False), T("Sal", 32, 32, "STRUCT", eq=False)]
BYN = {t.name: t for t in BASE}


def derived(base, deep=False):
    out = []
    for t in base:
        n = t.name
        out.append(T(n + "*", 8, 8, "POINTER", inner=n, ordered=True, short=t.short + "*"))
        if n in ("Ia",):
            continue
        out.append(T(n + "[]", 16, 8, "SLICE", inner=n, short=t.short + "[]", eq=None))
        for k in (1, 3):
            out.append(T(f"{n}[{k}]", t.size * k, t.align, "ARRAY", inner=n, len=k, eq=None if t.eq is None else t.eq, short=f"{t.short}[{k}]"))
        if t.kind in ("SIGNED_INT", "UNSIGNED_INT", "FLOAT", "BOOL", "POINTER") and t.size in (1, 2, 4, 8) and not deep:
            for k in (2, 3, 4):
                full = 1 << (k * t.size - 1).bit_length()
                out.append(T(f"{n}[<{k}>]", full, full, "VECTOR", inner=n, len=k, short=f"{t.short}[<{k}>]", eq=None, ordered=None))
    return out


def ev(s):
    return "".join(f"{x}," if isinstance(x, int) else x for x in s)


def header():
    s = open(os.path.join(B.REPO, "lib/std/core/types.c3")).read()
    m = re.search(r"enum TypeKind : char\s*\{[^}]*\}", s)
    p = re.search(r"struct ReflectedParam[^{]*\{[^}]*\}", open(os.path.join(B.REPO, "lib/std/core/builtin.c3")).read()) or re.search(r"struct ReflectedParam[^{]*\{[^}]*\}", s)
    text = "module std::core::types;\n" + m[0] + "\n"
    return text


PRE2 = """
fn void pstr(String x) @noinline { foreach (ch : x) evt(ch); evt(';'); }
macro @s(String $x) { pstr($x); }
macro @ss(String x) { pstr(x); }
macro @n(x) { ev_long((long)x); }
macro @k(x) { ev_num((int)x.ordinal); }
"""


def type_cases(th):
    """every property of every type, at compile time, through a constant typeid, and through a typeid at run time"""
    cases = []
    l1 = derived(BASE)
    types = BASE + l1 + derived([t for t in l1 if th or t.name.startswith(("int", "Ta", "Da", "Eb", "Fa", "Ba", "Vp"))], True)
    for t in types:
        n = t.name
        # A slice type and pointers to functions need an alias in some places
        b, e = [], []

        def num(x, v):
            b.append(f"@n({x});")
            e.append(f"{v},")

        def txt(x, v):
            b.append(f"@s({x});")
            e.append(f"{v};")

        num(f"{n}.sizeof", t.size)
        num(f"{n}.alignof", t.align)
        b.append(f"@k({n}.kindof);")
        e.append(f"{KINDS.index(t.kind)},")
        if t.kind != "FUNC" and "Fa" not in n and "Fb" not in n:
            txt(f"{n}.nameof", t.short)
        if t.inner:
            num(f"(char)({n}.inner == {t.inner}.typeid)", 1)
        num(f"(char)({n}.parentof == {t.parent or 'void'}.typeid)", 1)
        if t.len is not None:
            num(f"{n}.len", t.len)
        if t.min is not None:
            num(f"(char)({n}.min == {n}.max + ({n})1)" if t.max > 2**31 else f"{n}.min", 1 if t.max > 2**31 else t.min)
            num(f"(char)({n}.max == {t.max}{'u' if t.min == 0 else ''}{'L' if t.max > 2**31 else ''})" if t.max < 2**63 else f"(char)(~{n}.max == 0)", 1)
        if t.eq is not None:
            num(f"(char){n}.is_eq", int(t.eq))
        if t.ordered is not None:
            num(f"(char){n}.is_ordered", int(t.ordered))
        ct = len(b)
        b.append(f"typeid rt = tid({n}.typeid);")
        num("rt.sizeof", t.size)
        b.append("@k(rt.kindof);")
        e.append(f"{KINDS.index(t.kind)},")
        num(f"(char)(rt.parentof == {t.parent or 'void'}.typeid)", 1)
        num(f"(char)(rt == {n}.typeid)", 1)
        if t.inner and t.inner != "void" and t.kind not in ("INTERFACE",):
            num(f"(char)(rt.inner == {t.inner}.typeid)", 1)
            num("rt.inner.sizeof", size_of(t.inner))
        if t.len is not None and t.kind in ("ARRAY", "VECTOR", "ENUM"):
            num("rt.len", t.len)
        num(f"$typeof(*({n}*)vp()).sizeof", t.size)
        if t.value and t.kind != "INTERFACE":
            # the memory
            b.append(f"{n}[2] arr; {n} loc;")
            num("((char*)&arr[1] - (char*)&arr[0])", t.size)
            num(f"((usz)&loc % {min(t.align, 16)})", 0)
            b.append("any y = &loc;")
            num("(char)(y.type == rt)", 1)
            num("y.type.sizeof", t.size)
            num("(char)($typeof(loc).typeid == rt)", 1)
        cases.append((" ".join(b), "".join(e), f"type:{t.kind};{n}"))
    return cases


SIZES = {}


def size_of(n):
    if n in BYN:
        return BYN[n].size
    if n == "char[3]":
        return 3
    if n == "Da[2]":
        return 8
    if n.endswith(("*",)):
        return 8
    if n.endswith("[]"):
        return 16
    m = re.match(r"(.*)\[<(\d)>\]$", n)
    if m:
        return 1 << (int(m[2]) * size_of(m[1]) - 1).bit_length()
    m = re.match(r"(.*)\[(\d)\]$", n)
    return int(m[2]) * size_of(m[1])


# ------------------------------------------------------------------ structs
# a member: (type text, size, align, kind) or an anonymous/named sub struct
M = [("char", 1, 1, "UNSIGNED_INT"), ("short", 2, 2, "SIGNED_INT"), ("int", 4, 4, "SIGNED_INT"), ("long", 8, 8, "SIGNED_INT"), ("char[3]", 3, 1, "ARRAY"), ("Ta", 4, 2, "STRUCT"),
     ("int[<4>]", 16, 16, "VECTOR"), ("Tb", 5, 1, "STRUCT"), ("Ua", 8, 4, "UNION"), ("Ba", 4, 4, "BITSTRUCT"), ("any", 16, 8, "ANY"), ("Eb", 1, 1, "ENUM")]
MT = M + [("int128", 16, 16, "SIGNED_INT"), ("Sal", 32, 32, "STRUCT"), ("Bc", 3, 1, "BITSTRUCT"), ("void*", 8, 8, "POINTER"), ("float", 4, 4, "FLOAT")]
ANON = [("struct", ["char", "short"]), ("union", ["char", "int"]), ("struct", ["int", "char"])]
BYM = {m[0]: m for m in MT}


def layout(members, union, packed, al):
    """members: list of (size, align, forced align) -> offsets, size, align"""
    off, mx, offs, end = 0, 1, [], 0
    for size, align, forced in members:
        a = 1 if packed else align
        if forced:
            a = forced if packed else max(forced, a) if False else forced
        mx = max(mx, a)
        if union:
            offs.append(0)
            end = max(end, size)
        else:
            off = (off + a - 1) // a * a
            offs.append(off)
            off += size
            end = off
    if al:
        mx = max(mx, al) if not packed else al
        mx = max(mx, al)
    return offs, (end + mx - 1) // mx * mx, mx


def malign(off, al):
    # the alignment that is certain at this offset
    if off == 0:
        return al
    return min(al, off & -off)


def struct_case(i, ms, union, packed, al):
    """ms: list of ('t', type name, forced) | ('a', kind, [types], name)"""
    lay, text = [], []
    for k, m in enumerate(ms):
        if m[0] == "t":
            _, s, a, _ = BYM[m[1]]
            lay.append((s, a, m[2]))
            text.append(f"{m[1]} m{k}{f' @align({m[2]})' if m[2] else ''};")
        else:
            sub = [BYM[x] for x in m[2]]
            _, s, a = layout([(x[1], x[2], 0) for x in sub], m[1] == "union", False, 0)
            lay.append((s, a, 0))
            text.append(f"{m[1]}{' ' + m[3] if m[3] else ''} {{ " + " ".join(f"{x[0]} m{k}_{j};" for j, x in enumerate(sub)) + " }")
    offs, size, align = layout(lay, union, packed, al)
    name = f"S{i}x"
    decl = f"{'union' if union else 'struct'} {name}{' @packed' if packed else ''}{f' @align({al})' if al else ''} {{ {' '.join(text)} }}"
    b = [f"@n({name}.sizeof); @n({name}.alignof); @k({name}.kindof); @s({name}.nameof); @n({name}.membersof.len);"]
    e = [f"{size},{align},{KINDS.index('UNION' if union else 'STRUCT')},{name};{len(ms)},"]
    b.append(f"typeid rt = tid({name}.typeid); @n(rt.sizeof); @k(rt.kindof); {name}[2] arr; {name} v; any y = &v; @n((char)(y.type == rt)); @n((char*)&arr[1] - (char*)&arr[0]); @n((usz)&v % {align});")
    e.append(f"{size},{KINDS.index('UNION' if union else 'STRUCT')},1,{size},0,")
    b.append(f"$foreach $m : {name}.membersof: @s($m.nameof); @n($m.offsetof); @n($m.sizeof); @n($m.alignof); @k($m.kindof); $foreach $q : $m.membersof: @s($q.nameof); @n($q.offsetof); @n($q.sizeof); $endforeach $endforeach")
    for k, m in enumerate(ms):
        off = offs[k]
        if m[0] == "t":
            _, s, a, kd = BYM[m[1]]
            e.append(f"m{k};{off},{s},{malign(off, align)},{KINDS.index(kd)},")
            subs = {"Ta": (("s", 0, 2), ("c", 2, 1)), "Ua": (("a", 0, 5), ("i", 0, 4)), "Tb": (("c", 0, 1), ("i", 1, 4)), "Sal": (("c", 0, 1),)}.get(m[1], ())
            if m[1] in ("Ba", "Bc"):
                # the members of a bitstruct have the offset of the bitstruct
                subs = (("a", 0, 4), ("b", 0, 1)) if m[1] == "Ba" else (("q", 0, 1), ("r", 0, 4))
            for n, o, s2 in subs:
                e.append(f"{n};{off + o},{s2},")
        else:
            sub = [BYM[x] for x in m[2]]
            so, s, a = layout([(x[1], x[2], 0) for x in sub], m[1] == "union", False, 0)
            e.append(f"{m[3] or ''};{off},{s},{malign(off, align)},{KINDS.index('UNION' if m[1] == 'union' else 'STRUCT')},")
            for j, x in enumerate(sub):
                e.append(f"m{k}_{j};{off + so[j]},{x[1]},")
    for k, m in enumerate(ms):
        if m[0] == "t":
            b.append(f"@n((char*)&v.m{k} - (char*)&v); @n({name}.m{k}.offsetof); @n($sizeof(v.m{k}));")
            e.append(f"{offs[k]},{offs[k]},{BYM[m[1]][1]},")
            if m[1] in ("int", "long", "short", "char"):
                # through the member, and by name
                b.append(f"v.m{k} = {k + 5}; $foreach $m : {name}.membersof: $if $m.nameof == \"m{k}\": @n($m.get(v)); $endif $endforeach")
                e.append(f"{k + 5},")
        else:
            sub = [BYM[x] for x in m[2]]
            so, _, _ = layout([(x[1], x[2], 0) for x in sub], m[1] == "union", False, 0)
            p = f"{m[3]}." if m[3] else ""
            for j, x in enumerate(sub):
                b.append(f"@n((char*)&v.{p}m{k}_{j} - (char*)&v); @n({name}.{p}m{k}_{j}.offsetof);")
                e.append(f"{offs[k] + so[j]},{offs[k] + so[j]},")
    return decl, (" ".join(b), "".join(e), f"{'union' if union else 'struct'}{':packed' if packed else ''}{f':align{al}' if al else ''};{decl}")


def struct_cases(th):
    alpha = MT if th else M
    out = []
    sets = []
    for n in (1, 2):
        for c in itertools.product(alpha, repeat=n):
            sets.append([("t", m[0], 0) for m in c])
    three = alpha if th else [m for m in M if m[0] in ("char", "int", "long", "char[3]", "Ta", "int[<4>]", "Tb")]
    for c in itertools.product(three, repeat=3):
        sets.append([("t", m[0], 0) for m in c])
    forced = []
    for a, b_ in itertools.product(alpha, alpha):
        for f in (8, 32):
            if a[2] <= f:
                forced.append([("t", a[0], f), ("t", b_[0], 0)])
            if b_[2] <= f:
                forced.append([("t", a[0], 0), ("t", b_[0], f)])
    anon = []
    for m in alpha if th else M[:4]:
        for k, sub in ANON:
            for nm in ("", "nn"):
                anon += [[("t", m[0], 0), ("a", k, sub, nm)], [("a", k, sub, nm), ("t", m[0], 0)]]
                anon += [[("t", m[0], 0), ("a", k, sub, nm), ("t", "char", 0)]]
    i = 0
    for ms in sets:
        variants = [(False, False, 0), (False, True, 0), (False, False, 16), (False, True, 8)] + ([(True, False, 0)] if len(ms) < 3 else [])
        if th:
            variants += [(False, True, 4), (False, False, 2), (True, True, 0), (True, False, 32)]
        for u, p, al in variants:
            if len(ms) == 3 and not th and al == 16:
                continue
            out.append(struct_case(i, ms, u, p, al))
            i += 1
    for ms in forced + anon:
        for u, p, al in [(False, False, 0)] + ([(True, False, 0), (False, False, 16)] if th else []):
            out.append(struct_case(i, ms, u, p, al))
            i += 1
    return out


# ------------------------------------------------------------------ enums
BACK = [("char", 1), ("ichar", 1), ("short", 2), ("int", 4), ("ulong", 8)]
ASSOC = [[], [("int", "v")], [("int", "v"), ("char", "w")], [("char", "w"), ("int", "v")], [("String", "s"), ("int", "v")], [("int", "v"), ("String", "s")], [("int", "v"), ("char", "w"), ("String", "s")]]


def aval(t, k, i):
    if t == "int":
        return f"{10 * k - 7 * i}", [f"{10 * k - 7 * i},"]
    if t == "char":
        return f"{3 * k + i + 1}", [f"{3 * k + i + 1},"]
    return f'"s{k}{i}"', [f"s{k}{i};"]


def enum_cases(th):
    out = []
    i = 0
    for n in (1, 2, 3, 4) if not th else (1, 2, 3, 4, 5, 8):
        for back, size in BACK if th or n == 3 else BACK[:1] + BACK[3:4]:
            for assoc in ASSOC:
                for inl in [None, "value", *range(len(assoc))]:
                    i += 1
                    name = f"En{i}x"
                    vals = [f"{'V' if k != 1 else 'WW'}{k}" for k in range(n)]
                    params = ", ".join(("inline " if inl == j else "") + f"{t} {nm}" for j, (t, nm) in enumerate(assoc))
                    head = f"enum {name} : {'inline ' if inl == 'value' else ''}{back}{f' ({params})' if assoc else ''}"
                    av = lambda k: ", ".join(aval(t, k, j)[0] for j, (t, _) in enumerate(assoc))
                    body = ", ".join(vals[k] + ((f" = {{ {av(k)} }}" if len(assoc) > 1 else f" = {av(k)}") if assoc else "") for k in range(n))
                    decl = f"{head} {{ {body} }}"
                    b, e = [], []
                    b.append(f"@n({name}.elements); @n({name}.len); @n({name}.sizeof); @n({name}.alignof); @n({name}.values.len); @n({name}.names.len); @n({name}.associated.len); @n((char)({name}.inner == {back}.typeid)); @k({name}.kindof);")
                    e.append(f"{n},{n},{size},{size},{n},{n},{len(assoc)},1,8,")
                    b.append(f"typeid rt = tid({name}.typeid); @n(rt.len); @n(rt.sizeof); @k(rt.kindof); @n((char)(rt.inner == {back}.typeid)); foreach (x : rt.names) {{ @ss(x); }} foreach (x : {name}.names) {{ @ss(x); }} foreach (x : {name}.values) {{ @n(x.ordinal); @ss(x.nameof); }}")
                    e.append(f"{n},{size},8,1," + "".join(v + ";" for v in vals) * 2 + "".join(f"{k},{v};" for k, v in enumerate(vals)))
                    if assoc:
                        b.append(f"$foreach $t : {name}.associated: @s($t.nameof); $endforeach")
                        e.append("".join(t + ";" for t, _ in assoc))
                    for k, v in enumerate(vals):
                        b.append(f"{{ {name} x = {v}; {name} y = id({k}) == 0 ? {vals[0]} : {name}.from_ordinal(id({k})); @n(x.ordinal); @n(y.ordinal); @n((char)(x == y)); @n((char)({name}.from_ordinal({k}) == {v})); @s({name}.{v}.nameof); @ss(y.nameof); @n({name}.{v}.ordinal); @n((usz)*({back}*)&y);")
                        e.append(f"{k},{k},1,1,{v};{v};{k},{k},")
                        for j, (t, nm) in enumerate(assoc):
                            b.append(f"@ss(y.{nm}); @s({name}.{v}.{nm});" if t == "String" else f"@n(y.{nm}); @n({name}.{v}.{nm});")
                            e += aval(t, k, j)[1] * 2
                        if inl == "value":
                            b.append(f"{back} iv = y; {back} iw = {name}.{v}; @n(iv); @n(iw);")
                            e.append(f"{k},{k},")
                        elif inl is not None:
                            t = assoc[inl][0]
                            b.append(f"{t} iv = y; {t} iw = {name}.{v}; " + ("@ss(iv); @ss(iw);" if t == "String" else "@n(iv); @n(iw);"))
                            e += aval(t, k, inl)[1] * 2
                        b.append("switch (y) { " + " ".join(f"case {w}: @n({q});" for q, w in enumerate(vals)) + " } }")
                        e.append(f"{k},")
                    out.append((decl, (" ".join(b), "".join(e), f"enum:{'inline-' + str(inl) if inl is not None else 'plain'};{decl}")))
    return out


def bit_cases(th):
    out = []
    i = 0
    fields = [("bool", 0, 0), ("int", 0, 3), ("uint", 4, 7), ("bool", 7, 7), ("char", 8, 12), ("int", 9, 15)]
    for base, size in (("ushort", 2), ("int", 4), ("ulong", 8), ("char[2]", 2), ("char[3]", 3)):
        for n in (1, 2, 3):
            for fs in itertools.combinations(fields, n):
                if any(a[2] >= b[1] and b[2] >= a[1] for a, b in itertools.combinations(fs, 2)):
                    continue
                i += 1
                name = f"B{i}x"
                decl = f"bitstruct {name} : {base} {{ " + " ".join(f"{t} f{k} : {lo}" + (f"..{hi};" if t != "bool" else ";") for k, (t, lo, hi) in enumerate(fs)) + " }"
                b = [f"@n({name}.sizeof); @k({name}.kindof); @n((char)({name}.inner == {base}.typeid)); @n({name}.membersof.len); typeid rt = tid({name}.typeid); @n(rt.sizeof); @k(rt.kindof); @n((char)(rt.inner == {base}.typeid));"]
                e = [f"{size},11,1,{n},{size},11,1,"]
                b.append(f"$foreach $m : {name}.membersof: @s($m.nameof); @n($m.sizeof); @k($m.kindof); $endforeach")
                for k, (t, lo, hi) in enumerate(fs):
                    e.append(f"f{k};{dict(bool=1, int=4, uint=4, char=1)[t]},{KINDS.index(dict(bool='BOOL', int='SIGNED_INT', uint='UNSIGNED_INT', char='UNSIGNED_INT')[t])},")
                out.append((decl, (" ".join(b), "".join(e), f"bitstruct;{decl}")))
    return out


def func_cases(th):
    out = []
    i = 0
    ps = ["int", "char*", "Ta", "float[]", "Fa", "Eb"]
    rs = ["void", "int", "Ta", "int?", "Ta*"]
    for n in (0, 1, 2, 3):
        for c in itertools.product(ps if n < 3 or th else ps[:3], repeat=n):
            for r in rs if n < 2 else rs[:2]:
                i += 1
                name = f"Fn{i}x"
                decl = f"alias {name} = fn {r}({', '.join(f'{t} p{k}' for k, t in enumerate(c))});"
                b = [f"@n({name}.paramsof.len); @n({name}.params.len); @n((char)({name}.returns == {r.rstrip('?')}.typeid)); @k({name}.kindof); @n({name}.sizeof);" if "?" not in r else f"@n({name}.paramsof.len); @n({name}.params.len); @k({name}.kindof); @n({name}.sizeof);"]
                e = [f"{n},{n},1,12,8," if "?" not in r else f"{n},{n},12,8,"]
                if n:
                    b.append(f"$foreach $p : {name}.paramsof: @s($p.name); @n($p.type.sizeof); $endforeach")
                    e.append("".join(f"p{k};{size_of(t)}," for k, t in enumerate(c)))
                    for k, t in enumerate(c):
                        al = "FloatSl" if t == "float[]" else t
                        b.append(f"@n((char)({name}.params[{k}] == {al}.typeid)); @n((char)({name}.paramsof[{k}].type == {al}.typeid));")
                        e.append("1,1,")
                out.append((decl, (" ".join(b), "".join(e), f"function;{decl}")))
    return out


def name_cases():
    """names, tags and methods of every kind of declaration"""
    decls = """
struct Na @tag("ka", 1) { int a @tag("m", 5); char b; struct c { int d @tag("n", 6); } }
union Nb @tag("ka", 2) { int a @tag("m", 7); }
bitstruct Nc : int @tag("ka", 3) { int a : 0..2 @tag("m", 8); }
enum Nd : int @tag("ka", 4) { P, Q }
typedef Ne @tag("ka", 5) = int;
typedef Nf @tag("ka", 6) = Na;
interface Ng { fn int zz(); }
faultdef NX, NY;
fn int nfn(int a) @tag("ka", 9) { return a; }
fn int nfe(int a) @export("other_name") { return a; }
macro nmac(x) @tag("ka", 10) { return x; }
int nglob;
int nglobe @export("glob_other");
const int NCONST = 4;
fn int Na.m1(&self) { return 1; }
macro Na.m2(&self) { return 2; }
fn int Na.m3(self, int x) { return x; }
fn int Nd.m1(self) { return 1; }
fn int Ne.m4(self) { return 1; }
"""
    cs = []

    def t(x, v, k):
        cs.append((f"@s({x});", v + ";", f"names:{k};{x}"))

    def n(x, v, k):
        cs.append((f"@n({x});", f"{v},", f"names:{k};{x}"))
    for x in ("Na", "Nb", "Nc", "Nd", "Ne", "Nf", "Ng"):
        t(f"{x}.nameof", x, "nameof")
        t(f"{x}.extnameof", f"zz.{x}", "extnameof")
        if x not in ("Ne", "Nf", "Ng"):
            t(f"{x}.qnameof", f"zz::{x}", "qnameof")
            t(f"{x}*.qnameof", f"zz::{x}*", "qnameof")
        t(f"{x}[].nameof" if False else f"{x}*.nameof", f"{x}*", "nameof")
    for x, tag in (("Na", 1), ("Nb", 2), ("Nc", 3), ("Nd", 4), ("Ne", 5), ("Nf", 6), ("nfn", 9), ("nmac", 10)):
        n(f'{x}.tagof("ka")', tag, "tagof")
        n(f'(char){x}.has_tagof("ka")', 1, "tagof")
        n(f'(char){x}.has_tagof("kz")', 0, "tagof")
    for x, tag in (("Na.a", 5), ("Nb.a", 7), ("Nc.a", 8)):
        n(f'{x}.tagof("m")', tag, "tagof")
        n(f'(char){x}.has_tagof("q")', 0, "tagof")
    n('(char)Na.b.has_tagof("m")', 0, "tagof")
    n('Na.c.d.tagof("n")', 6, "tagof")
    for x in ("int*", "int[3]", "int[]", "Na*", "Na[2]", "Fa"):
        n(f'(char){x}.has_tagof("ka")', 0, "tagof")
    for x, q in (("nfn", "nfn"), ("nglob", "nglob"), ("NCONST", "NCONST"), ("nfe", "nfe")):
        t(f"$nameof({x})", q, "nameof")
        t(f"$qnameof({x})", f"zz::{q}", "qnameof")
    t("$extnameof(nfn)", "zz.nfn", "extnameof")
    t("$extnameof(nfe)", "other_name", "extnameof")
    t("$extnameof(nglob)", "zz.nglob", "extnameof")
    t("$extnameof(nglobe)", "glob_other", "extnameof")
    cs.append(("int loc = 1; @s($nameof(loc)); int* q = &loc; @s($nameof(q));", "loc;q;", "names:nameof;locals"))
    cs.append(("fault f = NX; @ss(f.nameof); f = NY; @ss(f.nameof);", "zz::NX;zz::NY;", "names:fault;faults"))
    for x, ms in (("Na", {"m1", "m3"}), ("Nd", {"m1"}), ("Ne", {"m4"}), ("Nb", set())):
        n(f"{x}.methodsof.len", len(ms), "methodsof")
        for m in ("m1", "m2", "m3", "m4"):
            cs.append((f'int r = 0; $foreach $m : {x}.methodsof: $if $m == "{m}": r++; $endif $endforeach ev_num(r);', f"{int(m in ms)},", f"names:methodsof;{x}.{m}"))
    return decls, cs


def run(c):
    th = c.thorough
    mod = header() + "module zz;\nimport std::core::types;\n" + EV + PRE2 + DECLS + """
fn typeid tid(typeid t) @noinline => t;
fn int id(int x) @noinline => x;
fn void* vp() @noinline => null;
alias FloatSl = float[];
"""
    c.run_cases("types", mod, type_cases(th), opts=["-O0", "-O1"] if th else ["-O1"])

    def chunked(name, pairs, size):
        pairs = list(pairs)
        jobs = [pairs[i:i + size] for i in range(0, len(pairs), size)]

        def one(j):
            i, ps = j
            c.run_cases(f"{name}{i}", mod + "\n".join(d for d, _ in ps) + "\n", [x for _, x in ps], opts=["-O1"], shards=1)
        c.pmap(one, list(enumerate(jobs)))
    chunked("structs", struct_cases(th), 150)
    chunked("enums", enum_cases(th), 40)
    chunked("bits", bit_cases(th), 100)
    pm = mod.replace("module zz;", 'struct ReflectedParam { String name; typeid type; }\nmodule zz;', 1)
    fc = func_cases(th)
    d, cs = name_cases()

    def rest(k):
        if k == 0:
            c.run_cases("names", mod + d, cs, opts=["-O1"], shards=2)
        else:
            ps = fc[(k - 1) * 80:k * 80]
            c.run_cases(f"funcs{k}", (pm if "struct ReflectedParam" not in mod else mod) + "\n".join(x for x, _ in ps) + "\n", [x for _, x in ps], opts=["-O1"], shards=1)
    c.pmap(rest, range(0, 1 + (len(fc) + 79) // 80))
    c.sample({"what": "a struct", "decl": struct_cases(False)[40][0]})
    c.set(rule="all types (builtin, declared, derived twice) x properties; all structs/unions of up to three members x attributes; enums x backing x associated values x inline; bitstructs; function types; names, tags, methods",
          exhaustive=True)
