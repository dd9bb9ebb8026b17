import itertools

from vlib.check import PRE

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration: every subscript form x aggregate x index type x boundary value (and divisor, shift, enum, null and forced-unwrap operations) on compiled programs, against an index model"
NOTE = ("Every read, write, compound write, address and slice form (a..b, a:n, open ends, counted from either end) on arrays, slices, vectors and nested ones, with indices of every integer type over boundary values: "
        "panics exactly when the model says so, otherwise touches exactly the modelled element; after each call the whole memory around the aggregate is compared. Also division, shift, conversion, null and unwrap panics, with each operand value.")

PANIC = """extern fn void vh_panic(char* m, long n) @noreturn;
fn void z_pan(String msg, String file, String func, uint line) { vh_panic(msg.ptr, msg.len); }
alias ZPf = fn void(String, String, String, uint);
ZPf z_panf = &z_pan;
extern fn void run_grid(void* f, void* n, long cnt, void* after);
"""

VALS = {
    "ichar": [-128, -5, -4, -1, 0, 1, 2, 3, 4, 5, 127],
    "char": [0, 1, 2, 3, 4, 5, 128, 252, 255],
    "short": [-32768, -4, -1, 0, 1, 3, 4, 5, 256, 32767],
    "ushort": [0, 1, 2, 3, 4, 5, 256, 65532, 65535],
    "int": [-2147483648, -4, -2, -1, 0, 1, 2, 3, 4, 5, 256, 2147483647],
    "uint": [0, 1, 2, 3, 4, 5, 2147483648, 4294967292, 4294967295],
    "long": [-(1 << 63), -(1 << 32), -4, -2, -1, 0, 1, 2, 3, 4, 5, 1 << 32, (1 << 63) - 1],
    "ulong": [0, 1, 2, 3, 4, 5, (1 << 32) + 1, 1 << 63, (1 << 64) - 4, (1 << 64) - 1],
    "small": [-1, 0, 1, 2, 3, 4, 5],
}
T = {"small": "int"}
N = 4

# the memory under test: 2 guard elements, 4 elements, 2 guard elements, as int
PRELUDE = """struct Sx { int a; char b; long c; }
struct Mem @align(16) { int[4] pre; int[4] arr; int[4] post; }
struct MemV { int[<4>] pre; int[<4>] vec; int[<4>] post; }
struct MemC { char[4] pre; char[4] arr; char[4] post; }
struct MemS { Sx[1] pre; Sx[4] arr; Sx[1] post; }
struct MemN { int[2] pre; int[2][4] arr; int[2] post; }
struct MemL { ulong[1] pre; ulong[4] arr; ulong[1] post; }
Mem mem; MemV memv; MemC memc; MemS mems; MemN memn; MemL meml;
int[] sl; char[] slc; long slen;
int zwhich;
fn int[] mksl(long n) @noinline { return n ? ((int*)&mem.arr)[:n] : (int[]){}; }
fn void reset(int w) @noinline
{
	zwhich = w;
	for (int i = 0; i < 4; i++) {
		if (w == 0) { mem.pre[i] = 50 + i; mem.arr[i] = 10 + i; mem.post[i] = 60 + i; }
		if (w == 1) { memv.pre[i] = 50 + i; memv.vec[i] = 10 + i; memv.post[i] = 60 + i; }
		if (w == 2) { memc.pre[i] = (char)(50 + i); memc.arr[i] = (char)(10 + i); memc.post[i] = (char)(60 + i); }
		if (w == 3) { mems.pre[0] = { 50, 51, 52 }; mems.arr[i] = { 10 + i, 7, 8 }; mems.post[0] = { 60, 61, 62 }; }
		if (w == 4) { memn.pre = { 50, 51 }; memn.arr[i] = { 10 + i, 20 + i }; memn.post = { 60, 61 }; }
		if (w == 5) { meml.pre[0] = 50; meml.arr[i] = (ulong)(10 + i); meml.post[0] = 60; }
	}
}
fn void after() @noinline
{
	evt(';');
	for (int i = 0; i < 4; i++) {
		if (zwhich == 0) { if (mem.pre[i] != 50 + i || mem.post[i] != 60 + i) evt('G'); if (mem.arr[i] != 10 + i) { evt('@'); ev_num(i); ev_num(mem.arr[i]); } }
		if (zwhich == 1) { if (memv.pre[i] != 50 + i || memv.post[i] != 60 + i) evt('G'); if (memv.vec[i] != 10 + i) { evt('@'); ev_num(i); ev_num(memv.vec[i]); } }
		if (zwhich == 2) { if (memc.pre[i] != 50 + i || memc.post[i] != 60 + i) evt('G'); if (memc.arr[i] != 10 + i) { evt('@'); ev_num(i); ev_num(memc.arr[i]); } }
		if (zwhich == 3) { if (mems.pre[0].a != 50 || mems.pre[0].b != 51 || mems.pre[0].c != 52 || mems.post[0].a != 60 || mems.post[0].b != 61 || mems.post[0].c != 62) evt('G'); if (mems.arr[i].a != 10 + i || mems.arr[i].b != 7 || mems.arr[i].c != 8) { evt('@'); ev_num(i); ev_num(mems.arr[i].a); } }
		if (zwhich == 4) { if (memn.pre[0] != 50 || memn.pre[1] != 51 || memn.post[0] != 60 || memn.post[1] != 61) evt('G'); if (memn.arr[i][0] != 10 + i || memn.arr[i][1] != 20 + i) { evt('@'); ev_num(i); ev_num(memn.arr[i][0]); } }
		if (zwhich == 5) { if (meml.pre[0] != 50 || meml.post[0] != 60) evt('G'); if (meml.arr[i] != (ulong)(10 + i)) { evt('@'); ev_num(i); ev_long((long)meml.arr[i]); } }
	}
}
enum En : char { AAA, BBB, CCC }
enum EnI : int { AAA, BBB, CCC }
fn int? may(int k) @noinline { if (k & 1) return NO1?; return k; }
faultdef NO1, NO2;
int[2][3] nest;
"""

# aggregates: expression, which memory, first element, value read
AGG = {
    "array": ("mem.arr", 0, "int", "", ""),
    "slice": ("sl", 0, "int", "", "sl = mksl(4);"),
    "slice3": ("sl", 0, "int", "", "sl = mksl(3);"),
    "slice0": ("sl", 0, "int", "", "sl = mksl(0);"),
    "arrptr": ("(*p)", 0, "int", "", "int[4]* p = &mem.arr;"),
    "local": ("loc", 0, "int", "", "int[4] loc = mem.arr; defer mem.arr = loc;"),
    "vector": ("memv.vec", 1, "int", "", ""),
    "vlocal": ("loc", 1, "int", "", "int[<4>] loc = memv.vec; defer memv.vec = loc;"),
    "chars": ("memc.arr", 2, "char", "", ""),
    "structs": ("mems.arr", 3, "int", ".a", ""),
    "nested": ("memn.arr", 4, "int", "[0]", ""),
    "longs": ("meml.arr", 5, "ulong", "", ""),
}
LEN = {"slice3": 3, "slice0": 0}


def dec(t): return T.get(t, t)


def single(agg, L):
    """(form, code with I for the index, result(model index) -> (events, changes))"""
    e, w, ty, sub, pre = AGG[agg]
    v = lambda i: 10 + i
    yield "read", f"ev_num((int)({e}[I]{sub}));", lambda i: (f"{v(i)},", {})
    yield "readend", f"ev_num((int)({e}[^I]{sub}));", lambda i: (f"{v(i)},", {}), True
    yield "write", f"{e}[I]{sub} = 77;", lambda i: ("", {i: 77})
    yield "writeend", f"{e}[^I]{sub} = 77;", lambda i: ("", {i: 77}), True
    yield "add", f"{e}[I]{sub} += 5;", lambda i: ("", {i: v(i) + 5})
    yield "inc", f"ev_num((int)({e}[^I]{sub}++));", lambda i: (f"{v(i)},", {i: v(i) + 1}), True
    yield "order", f"ev_num((int)({e}[I]{sub} = ({ty})evi(66, 'w')));", None
    if agg not in ("vector", "vlocal", "local"):
        yield "addr", f"ev_num((int)(((char*)&{e}[I]) - (char*)&{['mem.arr', 'memv.vec', 'memc.arr', 'mems.arr', 'memn.arr', 'meml.arr'][w]}));", lambda i: (f"{i * [4, 4, 1, 16, 8, 8][w]},", {})


SLICES = {  # form -> text with I, J; the model of (start, end or length)
    "[I..J]": lambda L, i, j: (i, j - i + 1, i <= j),
    "[I..]": lambda L, i, j: (i, L - i, True),
    "[..J]": lambda L, i, j: (0, j + 1, j >= 0),
    "[I:J]": lambda L, i, j: (i, j, j >= 0),
    "[:J]": lambda L, i, j: (0, j, j >= 0),
    "[^I..]": lambda L, i, j: (L - i, i, True),
    "[^I..^J]": lambda L, i, j: (L - i, i - j + 1, i >= j),
    "[I..^J]": lambda L, i, j: (i, L - j - i + 1, i <= L - j),
    "[^I..J]": lambda L, i, j: (L - i, j - L + i + 1, L - i <= j),
    "[..^J]": lambda L, i, j: (0, L - j + 1, L - j >= 0),
    "[^I:J]": lambda L, i, j: (L - i, j, j >= 0),
    "[..]": lambda L, i, j: (0, L, True),
}


def slice_ok(L, s, n, ok):
    return ok and 0 <= s <= L and n >= 0 and s + n <= L


def programs(c):
    """(prelude code, body, list of (values, expected text)); body takes I and J from the tables"""
    types = ["ichar", "char", "short", "ushort", "int", "uint", "long", "ulong"]
    for agg, (e, w, ty, sub, pre) in AGG.items():
        L = LEN.get(agg, N)
        for t in types if agg in ("array", "slice", "vector") or c.thorough else ["int", "char", "ulong", "long"]:
            for form in single(agg, L):
                name, code, model = form[:3]
                back = len(form) > 3
                exp = []
                for v in VALS[t]:
                    i = L - v if back else v
                    ok = 0 <= i < L
                    if name == "order":  # the assigned value may be evaluated before or after the check
                        exp.append({f"w66,;@{i},66,"} if ok else {"w!;", "!;"})
                        continue
                    if not ok:
                        exp.append({"!;"})
                        continue
                    ev, ch = model(i)
                    exp.append({ev + ";" + "".join(f"@{k},{x}," for k, x in sorted(ch.items()))})
                yield f"{agg} {name} {t}", f"{dec(t)} i = I; reset({w}); {pre} {code.replace('[I]', '[i]').replace('[^I]', '[^i]')}", [(t, v, None, None) for v in VALS[t]], exp
        # slices
        if agg in ("structs", "nested", "longs"): continue
        pairs = [("small", "small"), ("long", "long"), ("char", "char")] if agg in ("array", "slice") or c.thorough else [("small", "small")]
        if agg in ("array", "slice"): pairs += [("ulong", "ulong"), ("int", "int"), ("ichar", "ichar"), ("uint", "uint"), ("ushort", "ushort"), ("short", "short"), ("char", "small"), ("small", "char"), ("long", "small"), ("small", "ulong")]
        for form, model in SLICES.items():
            for ti, tj in pairs:
                us_i, us_j = "I" in form, "J" in form
                if not us_j and ti != tj: continue
                vals = [(a, b) for a in (VALS[ti] if us_i else [None]) for b in (VALS[tj] if us_j else [None])]
                for use in ("get", "fill") if agg not in ("vector", "vlocal") else ("get",):
                    if use == "fill" and (ti, tj) != ("small", "small"): continue
                    exp = []
                    for a, b in vals:
                        s, n, ok = model(L, a, b)
                        if not slice_ok(L, s, n, ok): exp.append({"!;"})
                        elif s == L and n == 0 and agg not in ("slice", "slice3", "slice0"): exp.append({"!;", "0:;" if use == "get" else ";"})  # the empty range at the end of an array
                        elif use == "get": exp.append({f"{n}:" + "".join(f"{10 + s + k}," for k in range(n)) + ";"})
                        else: exp.append({";" + "".join(f"@{s + k},7," for k in range(n))})
                    f = form.replace("I", "i").replace("J", "j")
                    if agg in ("vector", "vlocal"): get = f"int[] r = {e}{f};"
                    else: get = f"{ty}[] r = {e}{f};"
                    body = f"{get} ev_num((int)r.len); evt(':'); for (usz k = 0; k < r.len; k++) ev_num((int)r.ptr[k]);" if use == "get" else f"{e}{f} = 7;"
                    if use == "get": exp = [{x.replace(":", ",:", 1) for x in s} for s in exp]
                    yield f"{agg} {form} {use} {ti},{tj}", (f"{dec(ti)} i = I; " if us_i else "") + (f"{dec(tj)} j = J; " if us_j else "") + f"reset({w}); {pre} {body}", \
                        [(ti if us_i else None, a, tj if us_j else None, b) for a, b in vals], exp
    # slice copy: lengths must agree, overlap behaves like a move
    sm = [0, 1, 2, 3, 4]
    for e, pre in (("mem.arr", ""), ("sl", "sl = mksl(4);")):
        vals = list(itertools.product(sm, repeat=2))
        exp = []
        for a, b in vals:
            if b + 2 > 4 or a + 2 > 4: exp.append({"!;"})
            else:
                m = [10, 11, 12, 13]
                m[a:a + 2] = m[b:b + 2]
                exp.append({";" + "".join(f"@{k},{x}," for k, x in enumerate(m) if x != 10 + k)})
        yield f"copy {e}", f"int i = I; int j = J; reset(0); {pre} {e}[i:2] = {e}[j:2];", [("int", a, "int", b) for a, b in vals], exp
        exp = []
        for a, b in vals:
            if a != b: exp.append({"!;"})
            else: exp.append({";" + "".join(f"@{k},{x}," for k, x in enumerate([1, 2, 3, 4][:a]))})
        yield f"copylen {e}", f"int i = I; int j = J; reset(0); {pre} int[4] src = {{ 1, 2, 3, 4 }}; {e}[:i] = src[:j];", [("int", a, "int", b) for a, b in vals], exp
    # nested subscripts: both indices checked, the first one first
    vals = list(itertools.product([-1, 0, 1, 3, 4], [-1, 0, 1, 2]))
    exp = [{(f"{(10 if b == 0 else 20) + a},;" if 0 <= a < 4 and 0 <= b < 2 else "!;")} for a, b in vals]
    yield "nested2", "int i = I; int j = J; reset(4); ev_num(memn.arr[i][j]);", [("int", a, "int", b) for a, b in vals], exp
    exp = [{(f"ab{(10 if b == 0 else 20) + a},;" if 0 <= a < 4 and 0 <= b < 2 else "ab!;" if 0 <= a < 4 else "a!;"), ("ab!;" if not (0 <= a < 4 and 0 <= b < 2) else f"ab{(10 if b == 0 else 20) + a},;")} for a, b in vals]
    yield "nestorder", "int i = I; int j = J; reset(4); ev_num(memn.arr[ev_i(i, 'a')][ev_i(j, 'b')]);", [("int", a, "int", b) for a, b in vals], exp
    # pointers: no bounds, negative offsets allowed
    vals = [(a, None) for a in (-2, -1, 0, 1, 3, 4)]
    exp = [{f"{50 + 4 + a if a < 0 else 60 + a - 4 if a > 3 else 10 + a},;"} for a, _ in vals]
    yield "pointer", "int i = I; reset(0); int* p = &mem.arr; ev_num(p[i]);", [("int", a, None, None) for a, _ in vals], exp
    vals = list(itertools.product([-2, 0, 1, 3], [0, 1, 2, -1]))
    mm = [50, 51, 52, 53, 10, 11, 12, 13, 60, 61, 62, 63]
    exp = [{(f"{b},:" + "".join(f"{mm[4 + a + k]}," for k in range(b)) + ";") if b >= 0 else "!;"} for a, b in vals]
    yield "ptrslice", "int i = I; int j = J; reset(0); int* p = &mem.arr; int[] r = p[i:j]; ev_num((int)r.len); evt(':'); foreach (x : r) ev_num(x);", [("int", a, "int", b) for a, b in vals], exp
    # other types
    for t in ("ichar", "char", "short", "int", "uint", "long", "ulong", "int128", "uint128"):
        vals = [-1, 0, 1, 7] if t[0] != "u" and t != "char" else [0, 1, 7, 100]
        yield f"div {t}", f"{t} i = ({t})I; reset(0); {t} x = 100; if (i == 0) evt('z'); ev_num((int)(x / i));", [("long", v, None, None) for v in vals], [{"z!;"} if v == 0 else {f"{int(100 / v)},;"} for v in vals]
        yield f"rem {t}", f"{t} i = ({t})I; reset(0); {t} x = 100; ev_num((int)(x % i));", [("long", v, None, None) for v in vals], [{"!;"} if v == 0 else {f"{100 % abs(v)},;"} for v in vals]
        yield f"diveq {t}", f"{t} i = ({t})I; reset(0); {t} x = 100; defer ev_num((int)x); x /= i; evt('k');", [("long", v, None, None) for v in vals], [{"!;"} if v == 0 else {f"k{int(100 / v)},;"} for v in vals]
        bits = {"ichar": 32, "char": 32, "short": 32, "int": 32, "uint": 32, "long": 64, "ulong": 64, "int128": 128, "uint128": 128}[t]
        amounts = [-128, -1, 0, 1, bits - 1, bits, bits + 1, 255, 1 << 20]
        for op in ("<<", ">>"):
            for at in ("int", "long", "char", "ulong"):
                am = [a for a in amounts if at in ("int", "long") or 0 <= a < (256 if at == "char" else 1 << 40)]
                ok = lambda a: 0 <= a < bits
                sgn = lambda x: x - (1 << bits) if t[0] != "u" and x >> (bits - 1) else x
                f = lambda a: sgn((3 << a) & ((1 << bits) - 1)) if op == "<<" else 3 >> a
                lo = lambda x: (x & 0xffffffff) - (1 << 32 if x & 0x80000000 else 0)
                yield f"shift {t} {op} {at}", f"{at} i = ({at})I; reset(0); {t} x = ({t})3; ev_num((int)(x {op} i));", [("long", v, None, None) for v in am], [{f"{lo(f(a))},;"} if ok(a) else {"!;"} for a in am]
                if at == "int":
                    bw = {"ichar": 8, "char": 8, "short": 16}.get(t, bits)  # x op= n shifts at x's own width
                    ok, sg = (lambda a: 0 <= a < bw), (lambda x: x - (1 << bw) if t[0] != "u" and t != "char" and x >> (bw - 1) else x)
                    f = lambda a: sg((3 << a) & ((1 << bw) - 1)) if op == "<<" else 3 >> a
                    am = [-128, -1, 0, 1, bw - 1, bw, bw + 1, 255, 1 << 20]
                    yield f"shifteq {t} {op}", f"int i = (int)I; reset(0); {t} x = ({t})3; x {op}= i; ev_num((int)x);", [("long", v, None, None) for v in am], [{f"{lo(f(a))},;"} if ok(a) else {"!;"} for a in am]
    # vector shift and division: any bad lane
    vals = list(itertools.product([0, 3, 31, 32, -1], repeat=2))
    yield "vshift", "int i = I; int j = J; reset(0); int[<2>] x = { 1, 1 }; int[<2>] s = { i, j }; int[<2>] r = x << s; ev_num(r[0]); ev_num(r[1]);", [("int", a, "int", b) for a, b in vals], \
        [{"!;"} if not (0 <= a < 32 and 0 <= b < 32) else {f"{(1 << a) - (1 << 32 if a == 31 else 0)},{(1 << b) - (1 << 32 if b == 31 else 0)},;"} for a, b in vals]
    vals = list(itertools.product([0, 3, -1], repeat=2))
    # enums
    for en, t in (("En", "char"), ("EnI", "int")):
        for it in ("char", "int", "long", "ichar", "ulong"):
            am = [-128, -1, 0, 1, 2, 3, 4, 255, 256, 257, (1 << 32) + 1]
            rng = {"char": (0, 255), "int": (-(1 << 31), (1 << 31) - 1), "long": (-(1 << 63), (1 << 63) - 1), "ichar": (-128, 127), "ulong": (0, 1 << 64)}[it]
            am = [a for a in am if rng[0] <= a <= rng[1]]
            yield f"enum {en} {it}", f"{it} i = ({it})I; reset(0); {en} e = {en}.from_ordinal(i); ev_num((int)e.ordinal);", [("long", a, None, None) for a in am], [{f"{a},;"} if 0 <= a <= 2 else {"!;"} for a in am]
    # null, unwrap, assert, function pointer
    two = [("int", 0, None, None), ("int", 1, None, None)]
    yield "nullread", "reset(0); int* p = I ? &mem.arr[2] : null; ev_num(*p);", two, [{"!;"}, {"12,;"}]
    yield "nullwrite", "reset(0); int* p = I ? &mem.arr[2] : null; *p = 5;", two, [{"!;"}, {";@2,5,"}]
    yield "nullincr", "reset(0); int* p = I ? &mem.arr[2] : null; (*p)++;", two, [{"!;"}, {";@2,13,"}]
    yield "nullcopy", "reset(3); Sx* p = I ? &mems.arr[2] : null; Sx q = *p; ev_num(q.a);", two, [{"!;"}, {"12,;"}]
    yield "nullfn", "reset(0); ZFn p = I ? &fcall : null; p();", two, [{"!;"}, {"f;"}]
    yield "unaligned", "reset(0); char* q = (char*)&mem.arr; int* p = (int*)(q + (I ? 4 : 2)); ev_num(*p);", two, [{"!;"}, {"11,;"}]
    yield "unwrap", "reset(0); ev_num(may(I ? 4 : 3)!!); evt('x');", two, [{"!;"}, {"4,x;"}]
    yield "unwrapassign", "reset(0); mem.arr[1] = may(I ? 4 : 3)!!; evt('x');", two, [{"!;"}, {"x;@1,4,"}]
    yield "unwraparg", "reset(0); ev_num(ev_i(1, 'a') + may(I ? 4 : 3)!! + ev_i(2, 'b'));", two, [{"a!;"}, {"ab7,;"}]
    yield "unwrapvoid", "reset(0); vmay(I)!!; evt('x');", two, [{"!;"}, {"x;"}]
    yield "assert", "reset(0); int i = I; assert(i == 1); evt('x');", two, [{"!;"}, {"x;"}]
    yield "assertside", "reset(0); int i = I; assert(ev_i(i, 'e') == 1, \"message\"); evt('x');", two, [{"e!;"}, {"ex;"}]
    yield "slicenull", "reset(0); int[] e; if (I) e = mem.arr[1..2]; ev_num(e[0]);", two, [{"!;"}, {"11,;"}]
    yield "foreach", "reset(0); int[] e; if (I) e = mem.arr[1..2]; foreach (&x : e) { *x += 1; } ev_num((int)e.len);", two, [{"0,;"}, {"2,;@1,12,@2,13,"}]
    yield "flex", "reset(0); int i = I; int[*] loc = { 10, 11, 12 }; ev_num(loc[i * 3]);", two, [{"10,;"}, {"!;"}]
    yield "string", "reset(0); int i = I; String s = \"abc\"; evt(s[i * 3]);", two, [{"a;"}, {"!;"}]
    yield "strend", "reset(0); int i = I; String s = \"abc\"; evt(s[^(i * 3)]);", two, [{"!;"}, {"a;"}]
    yield "retslice", "reset(0); int i = I; ev_num(mksl(2)[i * 2]);", two, [{"10,;"}, {"!;"}]
    yield "litarr", "reset(0); int i = I; ev_num((int[2]){ 5, 6 }[i * 2]);", two, [{"5,;"}, {"!;"}]


EXTRA = """alias ZFn = fn void();
fn void fcall() @noinline { evt('f'); }
fn void? vmay(int k) @noinline { if (!k) return NO2?; }
"""

CONST = []  # constant subscripts: text, valid
for k in range(-2, 7):
    CONST += [(f"a[{k}]", 0 <= k < 4), (f"a[^{k}]", 1 <= k <= 4), (f"v[{k}]", 0 <= k < 4), (f"(*p)[{k}]", 0 <= k < 4), (f"a[{k}] = 1", 0 <= k < 4)]
    if k >= 0: CONST.append((f"&a[{k}]", k < 4))
for i in range(-1, 6):
    CONST += [(f"a[{i}..]", 0 <= i < 4 if i != 4 else None), (f"a[..{i}]", 0 <= i < 4), (f"a[:{i}]", 0 <= i <= 4), (f"a[^{i}..]", 0 < i <= 4 if i else None), (f"a[..^{i}]", 1 <= i <= 4)]
    for j in range(-1, 6):
        CONST += [(f"a[{i}..{j}]", 0 <= i <= 4 and i <= j < 4), (f"a[{i}:{j}]", (0 <= i and j >= 0 and i + j <= 4) if (i, j) != (4, 0) else None), (f"a[^{i}..^{j}]", 0 <= i <= 4 and i >= j and j >= 1), (f"a[^{i}:{j}]", (0 <= i <= 4 and 0 <= j <= i) if (i, j) != (0, 0) else None)]


def run(c):
    progs = list(programs(c))
    shards = 8
    jobs = []
    for opt in ("-O0", "-O1"):
        for k in range(shards):
            jobs.append((opt, k, progs[k::shards]))

    def src(k, part):
        o = [f"module zgrid{k};", PRE, PANIC, PRELUDE, EXTRA]
        ns = []
        for i, (name, body, vals, exp) in enumerate(part):
            ti, tj = dec(vals[0][0]), dec(vals[0][2])
            lit = lambda t, v: f"({t})0x{v & ((1 << 64) - 1):x}UL" if t not in ("int", "long") else ("(-0x7fffffffffffffffL - 1)" if v == -(1 << 63) else f"{v}L" if t == "long" else f"(int){v}L")
            if ti: o.append(f"{ti}[{len(vals)}] vi{i} = {{ {', '.join(lit(ti, v[1]) for v in vals)} }};")
            if tj: o.append(f"{tj}[{len(vals)}] vj{i} = {{ {', '.join(lit(tj, v[3]) for v in vals)} }};")
            b = body
            b = re.sub(r"\bI\b", f"vi{i}[zk]", b)
            b = re.sub(r"\bJ\b", f"vj{i}[zk]", b)
            o.append(f"fn void t{i}(long zk) @noinline {{ {b} }}")
            ns.append(len(vals))
        o.append("alias ZTestFn = fn void(long);")
        o.append(f"ZTestFn[*] z_tab = {{ {', '.join('&t%d' % i for i in range(len(part)))} }};")
        o.append(f"int[*] z_n = {{ {', '.join(map(str, ns))} }};")
        o.append('fn void run() @export("run") { run_grid(&z_tab, &z_n, z_tab.len, &after); }')
        return "\n".join(o)

    import re

    def one(job):
        opt, k, part = job
        exe, txt = c.build_min(f"grid{k}{opt[1:]}", src(k, part), opt, ["--panicfn", f"zgrid{k}::z_panf"])
        return c.run_min(exe) if exe else None
    n = traps = 0
    for (opt, k, part), d in zip(jobs, c.pmap(one, jobs)):
        if d is None: continue
        lines = d.decode("latin-1").splitlines()
        for ln, (name, body, vals, exp) in zip(lines, part):
            got = ln.split(" ", 1)[1].split("|")
            for v, g, w in zip(vals, got, exp):
                n += 1
                traps += any("!" in x for x in w)
                if g not in w:
                    c.violation(f"{name.rsplit(' ', 1)[0]}", f"{name} at {opt}, index {v[1]}, {v[3]}: got {g!r}, want {sorted(w)} in: {body}", {"body": body, "values": v, "got": g, "want": sorted(w), "opt": opt})
        if len(lines) != len(part):
            c.violation("grid:lines", f"{len(lines)} results of {len(part)}", {})
    c.add(evaluations=n, distinct_nontrivial=n // 2)
    c.set(panicking=traps)
    # constant subscripts are decided by the compiler
    decls = [f"fn void f{i}(int[4]* p, int[<4>] v) {{ int[4] a; {'int[] r = ' if '..' in t or ':' in t else 'int* r = ' if t[0] == '&' else '' if '=' in t else 'int r = '}{t}; }}" for i, (t, ok) in enumerate(CONST)]
    for (t, ok), d, e in zip(CONST, decls, c.verdicts("cidx", "", decls)):
        if ok is not None and bool(e) == ok:
            c.violation(f"const:{t}", f"constant subscript {t} of 4 elements: {'accepted' if not e else 'rejected with ' + str(e)}", {"decl": d, "errors": e})
    c.add(evaluations=len(decls), distinct_nontrivial=len(decls))
    # slices of constants
    cs = []
    for a in range(0, 6):
        for n_ in range(0, 6):
            cs.append((f"CS[{a}:{n_}]", a + n_ <= 4 if a < 4 else False if a > 4 else None))
            if n_ >= a: cs.append((f"CS[{a}..{n_}]", n_ < 4))
    decls = [f"const int[4] CS{i} = {{ 1, 2, 3, 4 }}; fn void f{i}() {{ var $x = {t.replace('CS', f'CS{i}')}; }}" for i, (t, ok) in enumerate(cs)]
    for (t, ok), d, e in zip(cs, decls, c.verdicts("cslice", "", decls)):
        if ok is not None and bool(e) == ok:
            c.violation(f"const:{t}", f"slice {t} of a constant of 4 elements: {'accepted' if not e else 'rejected with ' + str(e)}", {"decl": d, "errors": e})
    c.add(evaluations=len(decls), distinct_nontrivial=len(decls))
    c.set(rule="distinct (operation, operand values)", exhaustive=True)
    c.sample(progs[5][1])
    c.sample(progs[len(progs) // 2][1])
