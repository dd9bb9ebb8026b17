import itertools
import os
import re

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration: every bit range x container x byte order x member type, every access form x memory pattern x value, against a bit-by-bit oracle"
NOTE = ("One member at every bit range of 8 and 16 bit containers and of char arrays up to 3 bytes, at all ranges with boundary ends up to uint128 and char[17], both byte orders, signed, unsigned, bool, enum and "
        "distinct types: write, read, compound assignment, increment, initializers (constant, run-time, nested) over memory patterns and values; three-member partitions with constant and dynamic initializers, & | ^ ~ == and casts.")

KV = [0x2b5e9c3871d4a6f08e3d51b7c2694fa3 & ((1 << 128) - 1), 0x55aa33cc0ff096695aa5c33c0123fedc]
UT = [(8, "char"), (16, "ushort"), (32, "uint"), (64, "ulong"), (128, "uint128")]
ST = [(8, "ichar"), (16, "short"), (32, "int"), (64, "long"), (128, "int128")]


def layouts(thorough):
    """(container, bytes, array?, big?, lo, hi, member type, member size, signed?)"""
    def ends(w, step):
        if step is None: return list(range(w))
        return sorted({0, 1, w - 1, w - 2} | {x + d for x in range(0, w, step) for d in (-1, 0, 1) if 0 <= x + d < w})
    cont = [("char", 8, False, None), ("ichar", 8, False, None), ("ushort", 16, False, None), ("short", 16, False, 8), ("uint", 32, False, None if thorough else 8), ("int", 32, False, None if thorough else 16),
            ("ulong", 64, False, 8 if thorough else 16), ("long", 64, False, 32), ("uint128", 128, False, 16 if thorough else 64), ("int128", 128, False, 64)]
    cont += [(f"char[{n}]", 8 * n, True, s) for n, s in ((1, None), (2, None), (3, None), (4, None if thorough else 8), (5, 8 if thorough else 16), (9, 16 if thorough else 32), (17, 64))]
    for name, w, arr, step in cont:
        es = ends(w, step)
        for lo, hi in itertools.combinations_with_replacement(es, 2):
            n = hi - lo + 1
            if n > 128: continue
            for big in (False, True):
                if big and not arr and w == 8: continue
                if big and arr and not (n <= 8 or n in (16, 32, 64, 128)): continue
                for ts, sg in ((UT, False), (ST, True)):
                    fit = [x for x in ts if x[0] >= n]
                    for m, (tw, t) in enumerate(fit[:2] if w <= 16 or thorough else fit[:1]):
                        yield name, w // 8, arr, big, lo, hi, t, tw // 8, sg
                if n == 1: yield name, w // 8, arr, big, lo, hi, "bool", 1, False
                if n == 3 and lo % 5 == 0: yield name, w // 8, arr, big, lo, hi, "Dist", 2, False
                if n == 5 and lo % 3 == 0: yield name, w // 8, arr, big, lo, hi, "Dist2", 4, True


def val(v, n, sg):
    v &= (1 << n) - 1
    return v - (1 << n) if sg and v >> (n - 1) else v


def lit(v, t, n, sg):
    if t == "bool": return "true" if v else "false"
    v = val(v, n, sg)
    return f"({t})0x{v & ((1 << 128) - 1):x}u128" if v >= 0 else f"({t})-0x{-v:x}i128" if -v < 1 << 127 else f"{t}.min"


def source(k, part):
    o = [f"module bits{k};", "typedef Dist = inline ushort;", "typedef Dist2 = int;",
         "struct Spec { void* set; void* get; void* add; void* inc; void* dinit; void* ninit; void* kc; int lo; int hi; int bytes; int flags; int tsize; int idx; }",
         f"uint128[2] kvals @export(\"kvals\") = {{ 0x{KV[0]:x}u128, 0x{KV[1]:x}u128 }};"]
    rows = []
    for i, (name, by, arr, big, lo, hi, t, ts, sg) in enumerate(part):
        n = hi - lo + 1
        rngtxt = f"{lo}..{hi}" if t != "bool" or i % 2 else f"{lo}"
        o.append(f"bitstruct Bt{i} : {name} {'@bigendian' if big else '@littleendian' if i % 3 == 0 else ''} {{ {t} m : {rngtxt}; }}")
        T = f"Bt{i}"
        conv = "(bool)(int)(*v & 1)" if t == "bool" else f"({t})*v"
        o.append(f"fn void s{i}({T}* p, int128* v) @noinline {{ p.m = {conv}; }}")
        o.append(f"fn void g{i}({T}* p, int128* v) @noinline {{ *v = (int128){'(int)' if t == 'bool' else ''}p.m; }}")
        if t != "bool":
            o.append(f"fn void a{i}({T}* p, int128* v) @noinline {{ p.m += {conv}; }}")
            o.append(f"fn void i{i}({T}* p, int128* v) @noinline {{ *v = (int128)p.m++; }}")
        o.append(f"fn void d{i}({T}* p, int128* v) @noinline {{ {T} x = {{ .m = {conv} }}; *p = x; }}")
        if i % 2: o.append(f"struct Wr{i} {{ char q; {T} b; char[3] z; }}")
        else: o.append(f"struct Wr{i} {{ char q; bitstruct b : {name} {'@bigendian' if big else ''} {{ {t} m : {lo}..{hi}; }} char[3] z; }}")
        o.append(f"fn void n{i}({T}* p, int128* v) @noinline {{ Wr{i} x = {{ .q = 1, .b.m = {conv} }}; *p = {'x.b' if i % 2 else f'bitcast_x(x.b, {T})' if False else f'*({T}*)&x.b'}; }}")
        c = [lit(KV[0], t, n, sg), lit(KV[1], t, n, sg)] if t != "bool" else ["true", "false"]
        o.append(f"{T}[2] k{i} = {{ {{ .m = {c[0]} }}, {{ .m = {c[1]} }} }};")
        fl = (1 if sg else 0) | (2 if big else 0) | (4 if arr else 0) | (8 if t == "bool" else 0)
        rows.append(f"{{ &s{i}, &g{i}, {f'&a{i}' if t != 'bool' else 'null'}, {f'&i{i}' if t != 'bool' else 'null'}, &d{i}, &n{i}, &k{i}, {lo}, {hi}, {by}, {fl}, {ts}, {i} }}")
    o.append(f"Spec[*] specs @export(\"specs\") = {{ {', '.join(rows)} }};")
    o.append(f"int nspecs @export(\"nspecs\") = {len(rows)};")
    return "\n".join(o)


def single(c):
    alls = list(layouts(c.thorough))
    n = 8 if not c.thorough else 24
    drv = os.path.join(c.dir, "bits.o")
    code, out = c.run(["clang-18", "-O2", "-w", "-c", os.path.join(c.here, "bits.c"), "-o", drv])
    if code: raise RuntimeError(out.decode())
    opts = ("-O0", "-O1", "-O3") if c.thorough else ("-O0",)

    def one(k):
        part = alls[k::n]
        path = os.path.join(c.dir, f"bits{k}.c3")
        with open(path, "w") as f: f.write(source(k, part))
        for opt in opts:
            exe = os.path.join(c.dir, f"bits{k}{opt}")
            code, out = c.run([c.c3c, "compile", opt, "-g0", "--no-entry", "--use-stdlib=no", "--build-dir", exe + ".b", path, "-o", exe, "-z", drv], 600)
            if code:
                txt = out.decode("utf-8", "replace")
                c.violation(f"compile:bits{k}", f"valid bitstructs are not compiled: {c.errors(txt)}", {"output": txt[-6000:], "source": open(path).read()[:100000]})
                return 0
            code, out = c.run([exe], 300)
            d = out.decode("latin-1").splitlines()
            if code or not d or not d[-1].startswith("N "):
                c.violation(f"run:bits{k}", f"the generated program ends with {code}: {out[-300:]}", {"source": open(path).read()[:100000]})
                return 0
            for l in d[:-1]:
                m = re.match(r"F (\d+) (.*?) (pattern|got).*", l)
                L = part[int(m[1])]
                name, by, arr, big, lo, hi, t, ts, sg = L
                kind = "array" if arr else "integer"
                if m[2] == "lost":
                    c.violation("lost-last-byte", f"bitstruct : {name}{' @bigendian' if big else ''} {{ {t} m : {lo}..{hi}; }} at {opt}: {l}", {"layout": L, "line": l, "opt": opt})
                    continue
                c.violation(f"{m[2]}:{kind}{':big' if big else ''}:{'bool' if t == 'bool' else 'signed' if sg else 'unsigned'}:{'cross' if lo // 8 != hi // 8 else 'byte'}",
                            f"bitstruct : {name}{' @bigendian' if big else ''} {{ {t} m : {lo}..{hi}; }} at {opt}: {l}", {"layout": L, "line": l, "opt": opt})
            c.add(evaluations=int(d[-1].split()[1]))
        return len(part)
    c.add(distinct_nontrivial=sum(c.pmap(one, range(n), 8)))
    return alls


# partitions of the whole container by three members
def multi(c):
    import random
    cases, pre = [], ["fn void hexd(char* p, int n) @noinline { for (int i = 0; i < n; i++) { int h = p[i] >> 4; int l = p[i] & 15; evt(h < 10 ? '0' + h : 'W' + h); evt(l < 10 ? '0' + l : 'W' + l); } evt(','); }",
                  "macro void @show(#x) { $typeof(#x) z = #x; hexd((char*)&z, $sizeof(z)); }"]
    k = 0
    for name, w, arr in (("char", 8, 0), ("ushort", 16, 0), ("uint", 32, 0), ("ulong", 64, 0), ("uint128", 128, 0), ("char[2]", 16, 1), ("char[3]", 24, 1), ("char[5]", 40, 1)):
        pts = range(1, w) if w <= 16 or c.thorough and w <= 32 else sorted({1, 7, 8, 9, 15, 16, 17, w // 2 - 1, w // 2, w // 2 + 3, w - 8, w - 7, w - 1})
        for i1, i2 in itertools.combinations(sorted(set(pts)), 2):
            for big in ((False, True) if not arr and w > 8 else (False,)):
                k += 1
                sg = [(k >> j) & 1 for j in range(3)]
                rg = [(0, i1 - 1), (i1, i2 - 1), (i2, w - 1)]
                ty = [next(t for tw, t in (ST if s else UT) if tw >= hi - lo + 1) for (lo, hi), s in zip(rg, sg)]
                T = f"Mt{k}"
                pre.append(f"bitstruct {T} : {name} {'@bigendian' if big else ''} {{ " + " ".join(f"{t} m{j} : {lo}..{hi};" for j, (t, (lo, hi)) in enumerate(zip(ty, rg))) + " }")
                def mem(vs):
                    x = 0
                    for v, (lo, hi) in zip(vs, rg): x |= (v & ((1 << (hi - lo + 1)) - 1)) << lo
                    return x
                def txt(x): return "".join("%02x" % b for b in (x.to_bytes(w // 8, "big" if big else "little"))) + ","
                V = [[val(KV[0] >> (7 * j), hi - lo + 1, s) for j, ((lo, hi), s) in enumerate(zip(rg, sg))], [val(KV[1] >> (5 * j), hi - lo + 1, s) for j, ((lo, hi), s) in enumerate(zip(rg, sg))]]
                L = [[lit(v, t, hi - lo + 1, s) for v, t, (lo, hi), s in zip(vs, ty, rg, sg)] for vs in V]
                full = lambda j: "{ " + ", ".join(f".m{i} = {L[j][i]}" for i in range(3)) + " }"
                dyn = lambda j: "{ " + ", ".join(f".m{i} = v{j}{i}" for i in (2, 0, 1)) + " }"
                pre.append(f"const {T} KA{k} = {full(0)}; const {T} KB{k} = {full(1)}; {T} gg{k} = {full(1)};")
                m0, m1, ones = mem(V[0]), mem(V[1]), (1 << w) - 1

                def wr(x, j, v, lossy):
                    lo, hi = rg[j]
                    m = ((1 << (hi - lo + 1)) - 1) << lo
                    x = x & ~m | (v << lo) & m
                    if lossy and arr and hi % 8 != 7 and not (lo // 8 == hi // 8 and lo % 8): x &= ~(m & (255 << (hi // 8 * 8)))
                    return x

                def story(lossy):
                    # the events of the dynamic program, written member by member
                    def ini(j):
                        x = 0
                        for i in (2, 0, 1): x = wr(x, i, V[j][i], lossy)
                        return x
                    def rd(x, i):
                        lo, hi = rg[i]
                        return val(x >> lo, hi - lo + 1, sg[i])
                    a, b = ini(0), ini(1)
                    o = txt(a) + txt(b) + txt(a & b) + txt(a | b) + txt(a ^ b) + txt(a ^ ones) + f"{int(a == b)},1,{int(a != b)},"
                    a = wr(a, 1, V[1][1], lossy)
                    o += txt(a)
                    a ^= b
                    o += txt(a)
                    for i in (0, 2, 1): a = wr(a, i, rd(b, i), lossy)
                    return o + f"{int(a == b)},{int(all(rd(b, i) == V[1][i] for i in range(3)))},"
                decl = " ".join(f"{ty[i]} v{j}{i} = {L[j][i]};" for j in range(2) for i in range(3))
                d = f"{name}{' big' if big else ''} split {i1} {i2}"
                cls = f"{'array' if arr else 'integer'}{' big' if big else ''}"
                cases.append((f"{decl} {T} a = {dyn(0)}; {T} b = {dyn(1)}; @show(a); @show(b); @show(a & b); @show(a | b); @show(a ^ b); @show(~a); ev_num((int)(a == b)); ev_num((int)(a == a)); ev_num((int)(a != b));"
                              f" a.m1 = v11; @show(a); a ^= b; @show(a); a.m0 = b.m0; a.m2 = b.m2; a.m1 = b.m1; ev_num((int)(a == b)); ev_num((int)(b.m0 == v10 && b.m1 == v11 && b.m2 == v12));",
                              {story(False), story(True)} if story(False) != story(True) else story(False), f"dynamic {cls};{d}"))
                cases.append((f"@show(KA{k}); @show(KB{k}); @show(gg{k}); @show(KA{k} & KB{k}); @show(KA{k} | KB{k}); @show(KA{k} ^ KB{k}); @show(~KA{k}); ev_num((int)(KA{k} == KB{k})); ev_num((int)(KA{k} == KA{k}));"
                              f" ev_num((int)(KA{k}.m0 == {L[0][0]} && KA{k}.m1 == {L[0][1]} && KA{k}.m2 == {L[0][2]})); {T} x = KA{k}; x.m1 = KB{k}.m1; @show(x);",
                              {txt(m0) + txt(m1) + txt(m1) + txt(m0 & m1) + txt(m0 | m1) + txt(m0 ^ m1) + txt(m0 ^ ones) + f"{int(m0 == m1)},1,1," + txt(wr(m0, 1, V[1][1], y)) for y in (False, True)}, f"constant {cls};{d}"))
                if not arr:
                    # the container's value is what the bits say when swapped back
                    num = lambda x: int.from_bytes(x.to_bytes(w // 8, "big" if big else "little"), "little")
                    cases.append((f"{decl} {T} a = {dyn(0)}; @show(({name})a); {T} b = ({T})({name})0x{num(m1):x}; @show(b.m0); @show(b.m1); @show(b.m2); @show(({name})KA{k}); @show((({T})({name})0x{num(m1):x}).m1); const {T} KC = ({T})({name})0x{num(m1):x}; @show(KC); @show(~KC); @show(KC & KA{k}); @show(KA{k} ^ KC); @show(KA{k} | ({T})({name})0x{num(m1):x}); ev_num((int)(KC == KA{k})); ev_num((int)(KC == KB{k}));",
                                  "".join(x for x in [txt(m0)] + [(v & ((1 << 8 * tb) - 1)).to_bytes(tb, "little").hex() + "," for v, tb in [(V[1][i], {"char": 1, "ichar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "long": 8, "ulong": 8}.get(ty[i], 16)) for i in range(3)]] + [txt(m0)]
                                          + [(V[1][1] & ((1 << 8 * {"char": 1, "ichar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "long": 8, "ulong": 8}.get(ty[1], 16)) - 1)).to_bytes({"char": 1, "ichar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "long": 8, "ulong": 8}.get(ty[1], 16), "little").hex() + ","]) + txt(m1) + txt(m1 ^ ones) + txt(m0 & m1) + txt(m0 ^ m1) + txt(m0 | m1) + f"{int(m0 == m1)},1,", f"cast {cls};{d}"))
    c.run_cases("multi", "\n".join(pre), cases, ("-O0", "-O1", "-O3") if c.thorough else ("-O0", "-O2"), shards=8)
    return cases


BAD = [("char { char a : 0..3; char b : 3..7; }", False), ("char @overlap { char a : 0..3; char b : 3..7; }", True), ("char { char a : 0..3; char b : 4..7; }", True), ("char { char a : 0..8; }", False), ("char { char a : 8..8; }", False),
       ("char { ushort a : 0..8; }", False), ("ushort { char a : 0..8; }", False), ("ushort { ichar a : 0..7; }", True), ("char { char a : 3..2; }", False), ("char { char a : 3; }", False), ("char { bool a : 3; }", True), ("char { bool a : 3..3; }", True),
       ("char { bool a : 3..4; }", False), ("char { bool a; bool b; }", True), ("char { bool a; bool b; bool c; bool d; bool e; bool f; bool g; bool h; }", True), ("char { bool a; bool b; bool c; bool d; bool e; bool f; bool g; bool h; bool i; }", False),
       ("char { char a; }", False), ("char { char a : 0..1; char a : 2..3; }", False), ("float { char a : 0..1; }", False), ("char { float a : 0..7; }", False), ("char { char a : -1..1; }", False), ("char[2] { ushort a : 1..15; }", True),
       ("char[2] { ushort a : 1..16; }", False), ("char[2] { ulong a : 3..15; bool b : 2; char c : 0..1; }", True), ("char { char a : 4..7; char b : 0..4; }", False), ("char { char b : 0..7; char a : 2..3; }", False), ("char { char b : 2..3; char a : 0..7; }", False),
       ("uint @bigendian { uint a : 0..31; }", True), ("uint { int128 a : 0..31; }", True), ("char { Enn a : 0..1; }", True), ("char { Enn* a : 0..1; }", False)]


def run(c):
    alls = single(c)
    cases = multi(c)
    decls = [f"bitstruct Bad{i} : {b}" for i, (b, _) in enumerate(BAD)]
    each = c.pmap(lambda i: c.verdicts(f"bad{i}", "enum Enn : char { AA, BB, CC }", [decls[i]])[0], range(len(BAD)), 8)
    for (b, ok), d, e in zip(BAD, decls, each):
        if bool(e) == ok:
            c.violation(f"verdict:{b}", f"bitstruct : {b} is {'rejected: ' + str(e) if e else 'accepted'}", {"decl": d, "errors": e})
    # containers that are arrays of wider integers, and byte-reversed ranges of an odd number of bytes in a char array
    for key, decl, body, want in (("wide-array", "bitstruct Wa : ushort[2] { ushort a : 0..11; ushort b : 12..23; char c : 24..31; }", "Wa x; x.a = 0x123; x.b = 0xabc; x.c = 0x77; char* p = (char*)&x; for (int i = 0; i < 4; i++) ev_num(p[i]); ev_num(x.a); ev_num(x.b); ev_num(x.c);", f"35,193,171,119,{0x123},{0xabc},{0x77},"),
                                  ("wide-array-const", "bitstruct Wb : ushort[2] { ushort a : 0..11; ushort b : 12..23; char c : 24..31; } const Wb WX = { 0x123, 0xabc, 0x77 };", "Wb x = WX; char* p = (char*)&x; for (int i = 0; i < 4; i++) ev_num(p[i]);", "35,193,171,119,"),
                                  ("bigendian-odd", "bitstruct Bo : char[4] @bigendian { uint a : 0..23; }", "Bo x; x.a = 0x123456; char* p = (char*)&x; for (int i = 0; i < 3; i++) ev_num(p[i]); ev_num(x.a);", f"18,52,86,{0x123456},")):
        n = key.replace("-", "")
        src = f"""module {n};
extern fn void ev_num(int v) @extern("ev_int");
extern fn void run_table(void* f, long n);
{decl}
fn void t0(void* z_) @noinline {{ {body} }}
alias ZTestFn = fn void(void*);
ZTestFn[*] z_tab = {{ &t0 }};
fn void run() @export("run") {{ run_table(&z_tab, 1); }}"""
        exe, txt = c.build_min(n, src, "-O0", ok=True)
        if not exe:
            if "Error:" not in txt: c.violation(key, f"{decl} ends the compiler: {txt[-300:]}", {"source": src})
            continue
        code, out = c.run([exe], 60)
        if code or want not in out.decode("latin-1"): c.violation(key, f"{decl}: {body} gives {out[-200:]} and ends with {code}, want {want}", {"source": src})
    c.set(rule="distinct (container, byte order, range, member type) and partitions", exhaustive=True, layouts=len(alls))
    c.sample(alls[100])
    c.sample(cases[10][2])
