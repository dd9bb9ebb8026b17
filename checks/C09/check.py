import itertools
import os
import re

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration: every aggregate shape up to a size x signatures with every register pressure, both call directions, executed against code of two C compilers"
NOTE = ("Shapes: all sequences of up to 3 members over the scalar types (4 over a subset), arrays, nested structs and arrays of structs, unions, packed and over-aligned variants, vectors, slices, any, 128 bit integers. "
        "For each: size, alignment and offsets, and calls C3 to C and C to C3 (by value, returned, both, behind 0..6 integers and 0..8 doubles, variadic, through function pointers), compared member by member with gcc and clang code.")

# leaf kinds: code -> (C3 type, C type, value expression in C (h), C3 value expression (h))
LEAF = {
    "c": ("char", "unsigned char"), "C": ("ichar", "signed char"), "b": ("bool", "_Bool"), "s": ("short", "short"), "S": ("ushort", "unsigned short"), "i": ("int", "int"), "I": ("uint", "unsigned"), "l": ("long", "long"), "L": ("ulong", "unsigned long"),
    "f": ("float", "float"), "d": ("double", "double"), "p": ("void*", "void *"), "q": ("int128", "__int128"), "Q": ("uint128", "unsigned __int128"),
    "g": ("Sl", "Sl"), "a": ("any", "An"), "t": ("Str", "Sl"), "e": ("En", "unsigned char"), "F": ("Fp", "void *"), "y": ("typeid", "unsigned long"), "O": ("Dd", "double"), "P": ("Ff", "float"), "u": ("fault", "unsigned long"), "B": ("Bs", "unsigned"), "A": ("Al", "double"), "D": ("Di", "short"),
    "v": ("float[<4>]", "V4f"), "w": ("int[<4>]", "V4i"), "x": ("double[<2>]", "V2d"), "z": ("float[<2>]", "V2f"), "W": ("char[<16>]", "V16c"), "k": ("int[<2>]", "V2i"),
}
VEC = {"v": (4, "f"), "w": (4, "i"), "x": (2, "d"), "z": (2, "f"), "W": (16, "c"), "k": (2, "i")}


class Shape:
    """A tree: leaf code, ("arr", tree, n), ("struct"/"union", [trees], attributes)"""
    def __init__(self, tree): self.tree = tree


def decls(tree, name, o3, oc):
    """Declares the structs of a tree; gives (C3 type, C type, C declarator suffix)."""
    if isinstance(tree, str):
        return LEAF[tree][0], LEAF[tree][1], ""
    if tree[0] == "arr":
        a, b, s = decls(tree[1], name + "e", o3, oc)
        return f"{a}[{tree[2]}]", b, f"[{tree[2]}]" + s
    kind, kids, attr = tree
    m3, mc = [], []
    for i, k in enumerate(kids):
        a, b, s = decls(k, f"{name}m{i}", o3, oc)
        m3.append(f"{a} m{i};")
        mc.append(f"{b} m{i}{s};")
    at3 = " ".join(["@packed"] * ("packed" in attr) + [f"@align({x[5:]})" for x in attr if x.startswith("align")])
    atc = " ".join(["__attribute__((packed))"] * ("packed" in attr) + [f"__attribute__((aligned({x[5:]})))" for x in attr if x.startswith("align")])
    o3.append(f"{kind} {name} {at3} {{ {' '.join(m3)} }}")
    oc.append(f"typedef {kind} {name} {{ {' '.join(mc)} }} {atc} {name};")
    return name, name, ""


def leaves(tree, path, variant):
    """(path, leaf code) of the leaves; of a union those of one member"""
    if isinstance(tree, str):
        yield path, tree
    elif tree[0] == "arr":
        for i in range(tree[2]): yield from leaves(tree[1], f"{path}[{i}]", variant)
    elif tree[0] == "union":
        k = variant % len(tree[1])
        yield from leaves(tree[1][k], f"{path}.m{k}", variant // len(tree[1]))
    else:
        for i, k in enumerate(tree[1]): yield from leaves(k, f"{path}.m{i}", variant)


def variants(tree):
    if isinstance(tree, str): return 1
    if tree[0] == "arr": return variants(tree[1])
    if tree[0] == "union": return len(tree[1]) * max(variants(k) for k in tree[1])
    return max(variants(k) for k in tree[1])


def st(*k, attr=()): return ("struct", list(k), attr)
def un(*k, attr=()): return ("union", list(k), attr)
def arr(t, n): return ("arr", t, n)


def shapes(thorough):
    o = []
    basic = "csilfd"
    for n in (1, 2, 3):
        for x in itertools.product(basic, repeat=n): o.append(st(*x))
    for x in itertools.product("cifd" if not thorough else basic, repeat=4): o.append(st(*x))
    for t in "csilfdpqbeFyD":
        for n in (1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17):
            if n * {"c": 1, "s": 2, "i": 4, "f": 4, "b": 1, "e": 1, "D": 2, "q": 16}.get(t, 8) <= 48: o.append(st(arr(t, n)))
    for t, u in itertools.product("cfdls", repeat=2):
        for n in (1, 2, 3): o += [st(t, arr(u, n)), st(arr(t, n), u)]
    for a, b, c in itertools.product("cfdl", repeat=3):
        o += [st(a, st(b, c)), st(st(a, b), c)]
        if thorough: o += [st(arr(st(a, b), 2), c), st(a, arr(st(b, c), 2))]
    for a, b in itertools.product("cifdl", repeat=2):
        o += [un(a, b), st(a, un(b, arr("c", 5))), un(a, st(b, "f")), un(st(a, b), st(b, a)), un(arr(a, 2), arr(b, 3)), st(arr(st(a, b), 2)), st(un(a, b), a), st(un(a, b), un(b, "s"))]
    for a in "ptgaFybCSILDeqQOPuBA":
        o += [st(a), st(a, "c"), st("c", a), st("f", a), st(a, "d"), st(a, a), un(a, "d")]
    for x in itertools.product("csfdl", repeat=2): o += [st(*x, attr=("packed",)), st(*x, attr=("align16",)), st(*x, attr=("align8",)), st(*x, "c", attr=("packed",)), st(st(*x, attr=("packed",)), "c"), st("c", st(*x, attr=("align8",))), st(*x, attr=("packed", "align4"))]
    for x in itertools.product("cfd", repeat=2): o += [st(*x, attr=("align32",)), un(*x, attr=("align16",)), un(*x, st("c", "d", attr=("packed",)))]
    for v in "vwxzWk": o += [st(v), st(v, "f"), st("c", v), st(v, v), un(v, "d"), st(arr(v, 2))]
    o += [un("z", "f"), un(st("z"), "f"), un("f", st("z")), un("f", "k"), st(un("f", "z"), "f"), un(st("f", attr=("align8",)), arr("f", 2)), un(arr("f", 2), st("f", attr=("align8",))), un(st("f", "f", "f", "f"), "v"), un(st("f", "f", "f"), "d"), un("d", st("f", "f", "f")), st("f", un("f", "i")), st("f", "f", un("f", "d")), un("v", "f"), un("v", "x"), un(arr("f", 4), "f"), un(arr("d", 2), "f"), un(arr("f", 3), "x")]
    for n in (3, 5, 6, 7, 10, 33): o += [st(arr(st("f"), n)), st(arr(st("c"), n)), st(arr(st("f", "f"), n // 2))]
    o += [st("l", "l", "l"), st("l", "l", "c"), st("d", "d", "d", "d"), st(arr("l", 5)), st(st(st(st("f")), "f"), "f"), st(st(st("c")), arr(st(arr("f", 1)), 1), "f")]
    o += list(LEAF)     # plain values too
    return o


VAL = r'''
static unsigned long hv(int seed, int j) { unsigned long x = (unsigned long)(seed * 131 + j + 1) * 0x9E3779B97F4A7C15UL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9UL; return x ^ x >> 32; }
'''


def c_leaf(code, lv, h):
    """(statements setting lv, expression true if equal)"""
    if code in VEC:
        n, e = VEC[code]
        ty = LEAF[e][1]
        ex = (lambda i: f"(float)(int)(({h} >> {i}) & 0xffff)") if e in "fd" else (lambda i: f"({ty})({h} >> {i})")
        return f"{lv} = ({LEAF[code][1]}){{ {', '.join(ex(i) for i in range(n))} }};", " && ".join(f"{lv}[{i}] == ({ty}){ex(i)}" for i in range(n))
    ty = LEAF[code][1]
    if code in "fdOPA": v = f"({ty})(int)({h} & 0xffff)"
    elif code == "b": v = f"(_Bool)({h} >> 5 & 1)"
    elif code == "e": v = f"(unsigned char)({h} % 3)"
    elif code in "qQ": v = f"((({ty}){h} << 64) | ({ty})({h} * 77))"
    elif code in "gt": return f"{lv}.p = (void *)({h} & 0xffffffffffffUL); {lv}.n = {h} >> 20;", f"{lv}.p == (void *)({h} & 0xffffffffffffUL) && {lv}.n == {h} >> 20"
    elif code == "a": return f"{lv}.p = (void *)({h} & 0xffffffffffffUL); {lv}.t = {h} >> 20;", f"{lv}.p == (void *)({h} & 0xffffffffffffUL) && {lv}.t == {h} >> 20"
    else: v = f"({ty}){h}"
    return f"{lv} = {v};", f"{lv} == {v}"


def c3_leaf(code, lv, h):
    if code in VEC:
        n, e = VEC[code]
        ty = LEAF[e][0]
        ex = (lambda i: f"({ty})(int)(({h} >> {i}) & 0xffff)") if e in "fd" else (lambda i: f"({ty})({h} >> {i})")
        return " ".join(f"{lv}[{i}] = {ex(i)};" for i in range(n)), " && ".join(f"{lv}[{i}] == {ex(i)}" for i in range(n))
    ty = LEAF[code][0]
    if code in "fdOPA": v = f"({ty})(int)({h} & 0xffff)"
    elif code == "b": v = f"({h} >> 5 & 1) == 1"; return f"{lv} = {v};", f"{lv} == ({v})"
    elif code == "e": return f"{lv} = En.from_ordinal((char)({h} % 3u));", f"{lv}.ordinal == (char)({h} % 3u)"
    elif code in "qQ": v = f"((({ty}){h} << 64) | ({ty})({h} * 77u))"
    elif code == "B": return f"*(uint*)&{lv} = (uint){h};", f"*(uint*)&{lv} == (uint){h}"
    elif code in "yu": return f"*(ulong*)&{lv} = {h};", f"*(ulong*)&{lv} == {h}"
    elif code == "F": return f"*(void**)&{lv} = (void*)(uptr){h};", f"*(void**)&{lv} == (void*)(uptr){h}"
    elif code in "gta":
        return f"((Pr*)&{lv}).p = (void*)(uptr)({h} & 0xffffffffffffUL); ((Pr*)&{lv}).n = {h} >> 20;", f"((Pr*)&{lv}).p == (void*)(uptr)({h} & 0xffffffffffffUL) && ((Pr*)&{lv}).n == {h} >> 20"
    elif code == "p": v = f"(void*)(uptr){h}"
    else: v = f"({ty}){h}"
    return f"{lv} = {v};", f"{lv} == {v}"


PRE3 = '''module {m};
extern fn ulong hval(int seed, int j);
extern fn void bad(int shape, int sig, int where);
alias Sl = int[]; alias Str = char[]; alias Fp = fn void(int); typedef Di = inline short; enum En : char {{ AA, BB, CC }}
typedef Dd = double; typedef Ff = inline float; alias Al = double; bitstruct Bs : uint {{ int a : 0..4; bool b : 7; }}
struct Pr {{ void* p; ulong n; }}
'''
PREC = VAL + '''
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
typedef struct { void *p; unsigned long n; } Sl;
typedef struct { void *p; unsigned long t; } An;
typedef float V4f __attribute__((vector_size(16))); typedef int V4i __attribute__((vector_size(16))); typedef double V2d __attribute__((vector_size(16))); typedef float V2f __attribute__((vector_size(8)));
typedef unsigned char V16c __attribute__((vector_size(16))); typedef int V2i __attribute__((vector_size(8)));
unsigned long hval(int seed, int j) { return hv(seed, j); }
static long bads[1000000]; static int nbad;
void bad(int shape, int sig, int where) { if (nbad < 2000) { printf("F %d %d %d\\n", shape, sig, where); nbad++; } }
'''

# signatures: (returns S?, list of parameters: 'S' or a leaf code)
def sigs(k, thorough, tree):
    base = [(True, ["S"]), (False, ["S", "S", "i"]), (True, ["i", "S", "d", "S"]), (True, [])]
    press = [(a, b) for a in (0, 1, 4, 5, 6, 7) for b in (0, 6, 7, 8)]
    pick = press if thorough else [press[k % len(press)], press[(k * 7 + 5) % len(press)], (5, 7), (4, 6)]
    for a, b in dict.fromkeys(pick):
        if tree in ("q", "Q"): break    # a 128 bit integer for which registers are missing: clang and gcc differ here
        base.append((k % 2 == 0, ["l"] * a + ["d"] * b + ["S", "i", "f"]))
        if thorough: base.append((k % 2 == 1, ["d"] * b + ["S"] + ["l"] * a + ["S"]))
    if tree not in ("q", "Q"): base.append((True, ["c", "C", "s", "S_", "b", "S"]))
    return base


PASSES = ("-O0", "-O2")


def gen(part, ids, thorough):
    o3, oc = [], []
    tab = []
    n = 0
    for tree, si in zip(part, ids):
        nm = f"Sh{si}"
        if isinstance(tree, str): t3, tc = LEAF[tree][0], LEAF[tree][1]
        else: t3, tc, _ = decls(tree, nm, o3, oc)
        nv = variants(tree)
        for v in range(nv):
            lf = list(leaves(tree, "", v))
            o3.append(f"fn void fi{si}_{v}({t3}* x, int seed) @noinline {{ " + " ".join(c3_leaf(c, f"(*x){p}", f"hval(seed, {j})")[0] for j, (p, c) in enumerate(lf)) + " }")
            o3.append(f"fn bool ch{si}_{v}({t3}* x, int seed) @noinline {{ " + " ".join(f"if (!({c3_leaf(c, f'(*x){p}', f'hval(seed, {j})')[1]})) return false;" for j, (p, c) in enumerate(lf)) + " return true; }")
            oc.append(f"static void fi{si}_{v}({tc} *x, int seed) {{ " + " ".join(c_leaf(c, f"(*x){p}", f"hv(seed, {j})")[0] for j, (p, c) in enumerate(lf)) + " }")
            oc.append(f"static int ch{si}_{v}({tc} *x, int seed) {{ " + " ".join(f"if (!({c_leaf(c, f'(*x){p}', f'hv(seed, {j})')[1]})) return 0;" for j, (p, c) in enumerate(lf)) + " return 1; }")
        # layout
        if not isinstance(tree, str):
            lf = [x for v in range(nv) for x in leaves(tree, "", v)]
            o3.append(f"fn void la{si}(ulong* o) @export(\"la{si}\") {{ {t3} x @noinit; o[0] = {t3}.sizeof; o[1] = {t3}.alignof; {t3}[2] y @noinit; o[2] = (uptr)&y[1] - (uptr)&y[0];" + " ".join(f"o[{3 + j}] = (uptr)&x{p} - (uptr)&x;" for j, (p, c) in enumerate(lf)) + " }")
            oc.append(f"extern void la{si}(unsigned long *o); static void lc{si}(void) {{ unsigned long o[{3 + len(lf)}], w[] = {{ sizeof({tc}), _Alignof({tc}), sizeof({tc}), " + ", ".join(f"offsetof({tc}, {p[1:]})" for p, c in lf) +
                      f" }}; la{si}(o); if (memcmp(o, w, sizeof(w))) {{ bad({si}, -1, 0); for (int i = 0; i < {3 + len(lf)}; i++) if (o[i] != w[i]) printf(\"L {si} slot %d is %ld want %ld\\n\", i, o[i], w[i]); }} }}")
            tab.append(f"lc{si}();")
            n += 1
        elif tree in ("y", "u"): continue
        for k, (ret, ps) in enumerate(sigs(si, thorough, tree)):
            for v in range(nv):
                ps2 = [("S" if p == "S" else p.replace("S_", "S")) for p in ps]
                isS = [p == "S" for p in ps]
                p3 = ", ".join(f"{t3 if s else LEAF[p][0]} a{i}" for i, (p, s) in enumerate(zip(ps2, isS)))
                pc = ", ".join(f"{tc if s else LEAF[p][1]} a{i}" for i, (p, s) in enumerate(zip(ps2, isS))) or "void"
                r3, rc = (t3, tc) if ret else ("void", "void")
                seed = lambda i: f"{si * 3 + k * 17 + i * 5 + v}"
                rs = f"{si + k + v + 99}"
                id_ = f"{si}_{k}_{v}"
                chk3 = " ".join(f"if (!ch{si}_{v}(&a{i}, {seed(i)})) bad({si}, {k}, {i});" if s else f"if (!({c3_leaf(p, f'a{i}', f'hval({seed(i)}, 0)')[1]})) bad({si}, {k}, {i});" for i, (p, s) in enumerate(zip(ps2, isS)))
                chkc = " ".join(f"if (!ch{si}_{v}(&a{i}, {seed(i)})) bad({si}, {k}, {100 + i});" if s else f"if (!({c_leaf(p, f'a{i}', f'hv({seed(i)}, 0)')[1]})) bad({si}, {k}, {100 + i});" for i, (p, s) in enumerate(zip(ps2, isS)))
                set3 = " ".join((f"{t3} a{i} @noinit; fi{si}_{v}(&a{i}, {seed(i)});" if s else f"{LEAF[p][0]} a{i} @noinit; {c3_leaf(p, f'a{i}', f'hval({seed(i)}, 0)')[0]}") for i, (p, s) in enumerate(zip(ps2, isS)))
                setc = " ".join((f"{tc} a{i}; fi{si}_{v}(&a{i}, {seed(i)});" if s else f"{LEAF[p][1]} a{i}; {c_leaf(p, f'a{i}', f'hv({seed(i)}, 0)')[0]}") for i, (p, s) in enumerate(zip(ps2, isS)))
                call = ", ".join(f"a{i}" for i in range(len(ps)))
                after3 = " ".join(f"if (!ch{si}_{v}(&a{i}, {seed(i)})) bad({si}, {k}, {20 + i});" for i, s in enumerate(isS) if s)
                afterc = " ".join(f"if (!ch{si}_{v}(&a{i}, {seed(i)})) bad({si}, {k}, {120 + i});" for i, s in enumerate(isS) if s)
                o3.append(f"extern fn {r3} cf{id_}({p3});")
                wreck3 = " ".join(f"fi{si}_{v}(&a{i}, 7777);" for i, s in enumerate(isS) if s)
                wreckc = wreck3
                oc.append(f"{rc} cf{id_}({pc}) {{ {chkc} {wreckc} " + (f"{tc} r; fi{si}_{v}(&r, {rs}); return r; " if ret else "") + "}")
                o3.append(f"fn {r3} df{id_}({p3}) @export(\"df{id_}\") {{ {chk3} {wreck3} " + (f"{t3} r @noinit; fi{si}_{v}(&r, {rs}); return r; " if ret else "") + "}")
                fp = k % 3 == 1
                o3.append((f"alias Fn{id_} = fn {r3}({p3}); Fn{id_} gp{id_} = &cf{id_};" if fp else "") +
                          f"fn void tt{id_}() @export(\"tt{id_}\") {{ {set3} " + (f"{t3} r = " if ret else "") + (f"gp{id_}" if fp else f"cf{id_}") + f"({call}); {after3} " + (f"if (!ch{si}_{v}(&r, {rs})) bad({si}, {k}, 50); " if ret else "") + "}")
                oc.append(f"extern {rc} df{id_}({pc}); extern void tt{id_}(void); static void tc{id_}(void) {{ {setc} " + (f"{tc} r = " if ret else "") + f"df{id_}({call}); {afterc} " + (f"if (!ch{si}_{v}(&r, {rs})) bad({si}, {k}, 150); " if ret else "") + "}")
                tab.append(f"tt{id_}(); tc{id_}();")
                n += 2
        # variadic
        if tree not in ("c", "C", "b", "s", "S", "f", "e", "D", "g", "t", "P"):   # promoted, slices decay to pointers
            for v in range(nv):
                for k, (a, b) in enumerate(((0, 0), (5, 8), (4, 7), (3, 2)) if tree not in ("q", "Q") else ((0, 0),)):
                    args = ["l"] * a + ["d"] * b
                    id_ = f"{si}_{v}_{k}"
                    o3.append(f"extern fn int vf{id_}(int n, ...); fn void tv{id_}() @export(\"tv{id_}\") {{ {t3} x @noinit; fi{si}_{v}(&x, 5); {t3} y @noinit; fi{si}_{v}(&y, 6); vf{id_}(1, " + "".join(f"({LEAF[t][0]})(int)(hval(9, {i}) & 0xffff), " for i, t in enumerate(args)) + "x, 33, y, 2.5, y); }")
                    oc.append(f"extern void tv{id_}(void); int vf{id_}(int n, ...) {{ va_list ap; va_start(ap, n); " + " ".join(f"if (va_arg(ap, {LEAF[t][1]}) != (int)(hv(9, {i}) & 0xffff)) bad({si}, {1000 + k}, {i});" for i, t in enumerate(args)) +
                              f" {tc} x = va_arg(ap, {tc}); if (!ch{si}_{v}(&x, 5)) bad({si}, {1000 + k}, 70); if (va_arg(ap, int) != 33) bad({si}, {1000 + k}, 71); x = va_arg(ap, {tc}); if (!ch{si}_{v}(&x, 6)) bad({si}, {1000 + k}, 72); if (va_arg(ap, double) != 2.5) bad({si}, {1000 + k}, 73);"
                              f" x = va_arg(ap, {tc}); if (!ch{si}_{v}(&x, 6)) bad({si}, {1000 + k}, 74); va_end(ap); return n; }}")
                    tab.append(f"tv{id_}();")
                    n += 1
    oc.append("int main(void) { " + "\n".join(tab) + f' printf("N {n}\\n"); return 0; }}')
    return "\n".join(o3), "\n".join(oc), n


def show(tree):
    if isinstance(tree, str): return LEAF[tree][0]
    if tree[0] == "arr": return f"{show(tree[1])}[{tree[2]}]"
    return f"{tree[0]}{{{','.join(show(k) for k in tree[1])}}}{''.join(' ' + a for a in tree[2])}"


def run(c):
    alls = shapes(c.thorough)
    n = 16 if not c.thorough else 64
    opts = ("-O0", "-O1", "-O3") if c.thorough else ("-O0",)

    # clang 18 itself passes these differently from gcc and the ABI document
    odd = [i for i, t in enumerate(alls) if t in (un(st("f", "d"), st("d", "f")), un(st("d", "f"), st("f", "d")), un(st("f", attr=("align8",)), arr("f", 2)))]

    def one(k):
        ids = [i for i in range(k, len(alls), n) if i not in odd] + (odd if k == n else [])
        part = [alls[i] for i in ids]
        s3, sc, cnt = gen(part, ids, c.thorough)
        p3, pc = os.path.join(c.dir, f"abi{k}.c3"), os.path.join(c.dir, f"abi{k}.c")
        with open(p3, "w") as f: f.write(PRE3.format(m=f"abi{k}") + s3)
        with open(pc, "w") as f: f.write(PREC + sc)
        for cc, cflags in ((("gcc", "-O0"), ("clang-18", "-O1")) if c.thorough and k < n else ((("gcc", "-O0"),) if k % 2 or k == n else (("clang-18", "-O0"),))):
            obj = os.path.join(c.dir, f"abi{k}{cc}.o")
            code, out = c.run([cc, cflags, "-w", "-c", "-mno-avx", pc, "-o", obj], 600)
            if code: raise RuntimeError(out.decode()[:3000])
            for opt in opts:
                exe = os.path.join(c.dir, f"abi{k}{cc}{opt}")
                code, out = c.run([c.c3c, "compile", opt, "-g0", "--no-entry", "--use-stdlib=no", "--build-dir", exe + ".b", p3, "-o", exe, "-z", obj], 600)
                if code:
                    txt = out.decode("utf-8", "replace")
                    c.violation(f"compile:abi{k}", f"valid functions are not compiled: {c.errors(txt)} {txt[-500:]}", {"output": txt[-6000:], "source": open(p3).read()[:200000]})
                    return 0
                code, out = c.run([exe], 300)
                d = out.decode("latin-1").splitlines()
                if code or not d or not d[-1].startswith("N "):
                    c.violation(f"run:abi{k}", f"the generated program ends with {code}: {out[-300:]}", {"source": open(p3).read()[:100000]})
                    continue
                for l in d[:-1]:
                    m = re.match(r"F (-?\d+) (-?\d+) (\d+)", l)
                    if not m: continue
                    t, sg, wh = alls[int(m[1])], int(m[2]), int(m[3])
                    what = "layout" if sg == -1 else "variadic" if sg >= 1000 else ("C to C3" if wh >= 100 and wh < 150 and False else "argument" if wh % 50 < 20 and wh not in (50, 150) else "result" if wh in (50, 150) else "caller's copy")
                    sig = "" if sg < 0 or sg >= 1000 else str(sigs(int(m[1]), c.thorough, t)[sg])
                    c.violation(f"{what}:{show(t)}", f"{show(t)}: {what} {wh} of signature {sg} {sig} differs ({cc}, {opt}): {[x for x in d if x.startswith(f'L {m[1]} ')]}", {"shape": show(t), "line": l})
                c.add(evaluations=int(d[-1].split()[1]))
        return cnt
    c.add(distinct_nontrivial=sum(c.pmap(one, range(n + 1), 8)))
    c.set(rule="distinct (shape, signature, direction)", exhaustive=True, shapes=len(alls))
    c.sample(show(alls[300]))
