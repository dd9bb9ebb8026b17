import base64
import itertools
import os
import re
import struct
from fractions import Fraction

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration: every literal spelling up to a length over each form's alphabet plus every width boundary, compiled and compared with an independent reading of the grammar; every other spelling must be rejected"
NOTE = ("All texts up to 4 (thorough 5) characters over the number alphabets, 2^k-1, 2^k, 2^k+1 for k up to 132 in every base and suffix, floats around the rounding boundaries of each width, all escapes, all strings of up to 4 pieces, "
        "character literals of 1 to 17 characters, hex and base64 data of up to 6 characters with padding, whitespace and concatenation, all comment texts up to 6 characters.")

INT = re.compile(r"(?:0[xX](?P<h>[0-9a-fA-F](?:_?[0-9a-fA-F])*)|0[oO](?P<o>[0-7](?:_?[0-7])*)|0[bB](?P<b>[01](?:_?[01])*)|(?P<d>\d(?:_?\d)*))(?P<s>[lL]|[uU][lL]?|[uUiI]\d+)?$")
FLT = re.compile(r"(?:(?P<i>\d(?:_?\d)*)(?P<dot>\.(?P<fr>(?:\d(?:_?\d)*)?))?(?P<e>[eE][+-]?\d+)?|0[xX](?P<hi>[0-9a-fA-F](?:_?[0-9a-fA-F])*)(?P<hdot>\.(?P<hf>(?:[0-9a-fA-F](?:_?[0-9a-fA-F])*)?))?(?P<p>[pP][+-]?\d+)?)(?P<s>[fF]\d*)?$")
# spellings whose status nothing fixes: a separator before the point or exponent or doubled suffix zeros
LOOSE = re.compile(r"_[.eEpP]|_$|[fF]0|[uUiI]0|[iI]$|_[fFuUiIlL]")
FMT = {16: (11, -14), 32: (24, -126), 64: (53, -1022)}


def fround(x, bits):
    """nearest value of a binary format, ties to even; None = too big"""
    p, emin = FMT[bits]
    if x == 0: return Fraction(0)
    a = abs(x)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a: e -= 1
    ulp = Fraction(2) ** (max(e, emin) - p + 1)
    q = a / ulp
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or r == Fraction(1, 2) and n & 1: n += 1
    v = n * ulp
    if v >= Fraction(2) ** (-emin + 2): return None
    return v if x > 0 else -v


def ty(bits, sgn): return {8: "ichar", 16: "short", 32: "int", 64: "long", 128: "int128"}[bits] if sgn else {8: "char", 16: "ushort", 32: "uint", 64: "ulong", 128: "uint128"}[bits]


TYPES = ["ichar", "short", "int", "long", "int128", "char", "ushort", "uint", "ulong", "uint128", "float16", "float", "double", "bool"]


def ev_int(v, t): return f"{TYPES.index(t)},{v >> 64 & (1 << 64) - 1},{v & (1 << 64) - 1},"


def number(s):
    """the events of a number literal, "reject" or None when unspecified"""
    m = INT.match(s)
    if m:
        if LOOSE.search(s): return None
        d, base, w = (m["h"], 16, 4) if m["h"] else (m["o"], 8, 3) if m["o"] else (m["b"], 2, 1) if m["b"] else (m["d"], 10, 0)
        d = d.replace("_", "")
        v = int(d, base)
        suf = (m["s"] or "").lower()
        uns = suf[:1] == "u" or (w > 0 and not suf)
        bits = 0
        if suf in ("l", "ul"): bits = 64
        elif len(suf) > 1:
            bits = int(suf[1:])
            if bits not in (8, 16, 32, 64, 128): return "reject"
        elif w:
            bits = max(8, w * len(d))
            if bits > 128: return "reject"
            bits = 1 << (bits - 1).bit_length()
        if not bits:
            for bits in (32, 64, 128):
                if v < 1 << (bits - (not uns)): break
        if v >= 1 << (bits - (not uns)): return "reject"
        return ev_int(v, ty(bits, not uns))
    m = FLT.match(s)
    if m and (m["dot"] or m["e"] or m["hdot"] or m["p"] or m["s"]):
        if LOOSE.search(s): return None
        suf = (m["s"] or "").lower()
        if suf not in ("", "f", "f16", "f32", "f64", "f128"): return "reject"
        if m["i"]:
            ex = int((m["e"] or "e0")[1:])
            if abs(ex) > 5000: return "reject" if ex > 0 and int(m["i"].replace("_", "") + (m["fr"] or "").replace("_", "")) else None
            fr = (m["fr"] or "").replace("_", "")
            v = Fraction(int(m["i"].replace("_", "") + fr)) / 10 ** len(fr) * Fraction(10) ** ex
        else:
            fr = (m["hf"] or "").replace("_", "")
            v = Fraction(int(m["hi"].replace("_", "") + fr, 16)) / 16 ** len(fr) * Fraction(2) ** int((m["p"] or "p0")[1:])
        if suf == "f128": return None
        bits = {"": 64, "f": 32, "f16": 16, "f32": 32, "f64": 64}[suf]
        r = fround(v, bits)
        if r is None: return "reject"
        if v and not r: return None         # underflow to zero
        return f"{TYPES.index({16: 'float16', 32: 'float', 64: 'double'}[bits])},{struct.unpack('<Q', struct.pack('<d', float(r)))[0]},"
    return None if re.search(r"_[.eEpP]", s) else "reject"


def numbers(th):
    seen = {}
    def add(s):
        if s not in seen: seen[s] = number(s)
    for al, n in (("018_xbou.efLp"[:13], 3 if not th else 5), ("0xA_.pf1", 4 if not th else 6), ("1_.eE5f", 4 if not th else 6)):
        for k in range(1, n + 1):
            for t in itertools.product(al, repeat=k):
                if t[0].isdigit(): add("".join(t))
    sufs = ["", "u", "l", "ul", "L", "UL", "uL", "U", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "I32", "U8", "u24", "i256", "ll", "lu", "u8u", "i1", "u7", "f", "z", "_u"]
    for k in (0, 1, 7, 8, 15, 16, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 130, 132):
        for dv in (-1, 0, 1):
            v = (1 << k) + dv
            for f in (str(v), hex(v), oct(v), bin(v)):
                for s in (sufs if th or k in (7, 8, 31, 63, 127, 128) else ["", "u", "l", "ul", "i32", "u16", "i64", "u128", "i128"]): add(f + s)
                if dv == 0 and len(f) > 3: add(f[:-1] + "_" + f[-1]); add(f[:3] + "_" + f[3:])
    for v in [3 << 128, 3 << 126, 0x5 << 125, 7 << 126, 10 ** 38, 10 ** 39, 10 ** 40, 10 ** 77, 2 ** 129 + 5, 2 ** 192, 2 ** 256, 2 ** 256 + 7, 0x300 << 120, 170141183460469231731687303715884105727, 170141183460469231731687303715884105728, 340282366920938463463374607431768211455, 340282366920938463463374607431768211456, 1020847100762815390390123822295304634368,
              3402823669209384634633746074317682114559, 3402823669209384634633746074317682114560, 18446744073709551616 * 10 ** 19, 123456789012345678901234567890]:
        for s in ("", "u", "u128", "i128", "l", "ul"): add(f"{v}{s}"); add(f"{v:#x}{s}")
    for n in (1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 40):
        for dg in "01f":
            add("0x" + dg * n); add("0x" + "0" * n + dg); add("0o" + dg.replace("f", "7") * n); add("0b" + dg.replace("f", "1") * n); add("0b1" + "0" * (n - 1)); add("0X" + dg * n)
    # floats: exact midpoints between neighbours of each width, and just around them
    fl = ["3.14", "1e-5", "2.5e3", "9007199254740993.0", "1.7976931348623157e308", "1.7976931348623159e308", "1e308", "1e309", "4.9e-324", "2.2250738585072011e-308", "2.2250738585072014e-308", "0.1", "0.2", "0.3", "123456789.987654321", "1e22", "1e23", "8.5e-7", "16777217.0", "16777216.0", "16777219.0",
          "3.4028234663852886e38", "3.4028235677973366e38", "3.40282356779733e38", "3.4028236e38", "1e38", "1e39", "1e40", "65504.0", "65519.9", "65520.0", "65536.0", "1e5", "2048.0", "2049.0", "2051.0", "5.9604644775390625e-8", "6.1e-5", "1.401298464324817e-45", "1.17549435e-38", "0.000000000000000000000000000001", "100000000000000000000.0"]
    def dec(x):
        n = 0
        while x.denominator != 1: x *= 10; n += 1
        d = str(x.numerator).rjust(n + 1, "0")
        return d[:-n] + "." + d[-n:] if n else d + ".0"
    for bits in (16, 32, 64):
        p, _ = FMT[bits]
        for e in (0, 1, 5, -3):
            for m in (0, 1, 2, 3, (1 << (p - 1)) - 1, (1 << (p - 1)) - 2):
                mid = (1 + Fraction(2 * m + 1, 1 << p)) * Fraction(2) ** e
                for dlt in (0, 1, -1, 2) if bits > 16 else (0, 1) if e == m == 0 else (0,): fl.append(dec(mid + dlt * Fraction(1, 10 ** 40)) if dlt != 2 else dec(mid + Fraction(1, 10 ** 18)))
    for f in fl:
        if len(f) == 42 and f.startswith("1.00048828125"): add(f + "f16"); continue
        for s in ("", "f", "f16", "f32", "f64", "F", "F32", "f8", "f80", "f100", "f33"): add(f + s)
        add(f.replace("e", "E"))
    for x in (1.5, 0.1, 1e300, 5e-324, 3.999999, 65519.0):
        h = x.hex()
        for s in ("", "f", "f16", "f64"):
            add(h + s); add(h.upper() + s); add(h.replace("0x", "0X") + s); add(h.replace("p", "P") + s)
    for s in ("0x1.8", "0x1.", "0x1.p1", "0x.8p1", "0x1p1", "0x1p-1", "0x1p+1", "0x1p", "0x1p+", "0xAp2", "0x1.fffffffffffff8p0", "0x1.fffffffffffff7p0", "0x1.fffffffffffffp1023", "0x1p1024", "0x1p-1074", "1e+5", "1e-5", "1e+", "1e-", "1e", "1.e5", ".5", "1.5.5", "1e5.5", "1__0", "1._5", "0x_1", "0b2", "0b12", "0o8", "0o18", "0b", "0x", "0o", "08", "09", "007", "00.5", "1e0005", "1_0.5_0", "0x1_0.8_0p1", "0b1f", "0o1f", "0b1.0", "0o7.5"): add(s); add(s + "f")
    return seen


HEAD = """module {m};
extern fn void ev_num(long); extern fn void ev_u(ulong); extern fn void evt(int); extern fn void ev_flush();
macro @lt(#x)
{{
	var $Ty = $typeof(#x);
	$switch $Ty:
""" + "".join(f"\t\t$case {t}: ev_num({i}); {t} v = #x; " + ("double dv = v; ev_u(*(ulong*)&dv);\n" if t.startswith(("float", "dou")) else "ev_u((ulong)((uint128)v >> 64)); ev_u((ulong)v);\n" if t != "bool" else "\n") for i, t in enumerate(TYPES)) + """		$default: ev_num(99);
	$endswitch
	ev_flush();
}}
macro @ls(#x) {{ char[] s = #x; ev_num(s.len); foreach (ch : s) ev_num(ch); if (((char*)s.ptr)[s.len] != 0) evt('!'); ev_flush(); }}
macro @lb(#x) {{ $typeof(#x) s = #x; ev_num(s.len); foreach (ch : s) ev_num(ch); ev_flush(); }}
"""


ESC = {"a": 7, "b": 8, "e": 27, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "'": 39, '"': 34, "\\": 92, "0": 0}
HX = "0123456789abcdefABCDEF"


def unescape(s, quote):
    """The units of the body of a quoted literal: list of ("b", byte) or ("u", code point, width), None if ill-formed."""
    o, i = [], 0
    while i < len(s):
        ch = s[i]
        i += 1
        if ch in (quote, "\n"): return None
        if ch != "\\":
            o.append(("b", ord(ch)) if ord(ch) < 128 else ("c", ord(ch)))
            continue
        if i >= len(s): return None
        e = s[i]
        i += 1
        if e in ESC: o.append(("b", ESC[e]))
        elif e in "xuU":
            n = {"x": 2, "u": 4, "U": 8}[e]
            h = s[i:i + n]
            if len(h) < n or any(x not in HX for x in h): return None
            i += n
            o.append(("b", int(h, 16)) if e == "x" else ("u", int(h, 16), n // 2))
        else: return None
    return o


def utf8(cp):
    if cp < 0x80: return [cp]
    if cp < 0x800: return [0xC0 | cp >> 6, 0x80 | cp & 63]
    if cp < 0x10000: return [0xE0 | cp >> 12, 0x80 | cp >> 6 & 63, 0x80 | cp & 63]
    return [0xF0 | cp >> 18, 0x80 | cp >> 12 & 63, 0x80 | cp >> 6 & 63, 0x80 | cp & 63]


def byts(b): return f"{len(b)}," + "".join(f"{x}," for x in b)


def string(body):
    u = unescape(body, '"')
    if u is None: return None
    o = []
    for x in u: o += utf8(x[1])         # \x names a code point in strings, as \u does
    return o


def char(body):
    u = unescape(body, "'")
    if not u: return "reject"
    if any(x[0] != "b" for x in u):
        if len(u) > 1: return "reject"
        w = u[0][2] if u[0][0] == "u" else 4 if u[0][1] > 0xffff else 2
        return ev_int(u[0][1], "ushort" if w == 2 else "uint")
    if len(u) > 16: return "reject"
    v = 0
    for x in u: v = v << 8 | x[1]
    n = len(u)
    return ev_int(v, ty(8 if n == 1 else 16 if n == 2 else 32 if n <= 4 else 64 if n <= 8 else 128, False))


def texts(th):
    """(call, expected events | "reject" | None, class)"""
    o = []
    # characters
    pieces = ["a", "z", "0", " ", '"', "`", "\\n", "\\\\", "\\'", '\\"', "\\x41", "\\xff", "\\0", "é", "€", "😀", "\\u00e9", "\\U0001F600"]
    for k in (1, 2, 3) if th else (1, 2):
        for t in itertools.product(pieces if k < 3 else pieces[:9] + ["\\x80"], repeat=k): o.append((f"@lt('{''.join(t)}')", char("".join(t)), "char"))
    for n in range(0, 19):
        for b in ("abcdefghijklmnopqrs"[:n], "\\xff" * n, "a" * (n - 1) + "é" if n else "é", "\\x80" + "b" * (n - 1) if n else "\\x00"): o.append((f"@lt('{b}')", char(b), "char"))
    for ch in [chr(x) for x in range(33, 127)]:
        for rest in ("", "4", "41", "041", "0041", "00000041", "g1", "1g", "000g"):
            o.append((f"@lt('\\{ch}{rest}')", char(f"\\{ch}{rest}"), "escape"))
            o.append((f'@ls("\\{ch}{rest}")', "str", f"\\{ch}{rest}"))
    for cp in (0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff):
        o.append((f"@lt('{chr(cp)}')", char(chr(cp)), "utf8"))
        o.append((f"@lt('\\U{cp:08x}')", char(f"\\U{cp:08x}"), "utf8"))
        if cp < 0x10000: o.append((f"@lt('\\u{cp:04X}')", char(f"\\u{cp:04x}"), "utf8"))
        for b in (chr(cp), f"\\U{cp:08x}", f"\\u{cp & 0xffff:04x}", f"x{chr(cp)}y"): o.append((f'@ls("{b}")', "str", b))
    sp = ["a", "'", "`", "\\n", "\\\\", '\\"', "\\x00", "\\xC3", "é", "\\u0041", "//", "/*", "*/", "\t", "{", "x", "0"]
    for k in (0, 1, 2, 3) if th else (0, 1, 2):
        for t in itertools.product(sp, repeat=k): o.append((f'@ls("{"".join(t)}")', "str", "".join(t)))
    for k in (1, 2, 3, 4):
        for t in itertools.product(["a", "\\", '"', "n"], repeat=k):
            b = "".join(t)
            if unescape(b, '"') is None:
                # an inner quote ends the string: rejected unless what follows is itself a string
                if re.match(r'^(?:"(?:[^"\\]|\\.)*")+$', f'"{b}"'): continue
                o.append((f'@ls("{b}")', "reject", "string"))
            else: o.append((f'@ls("{b}")', "str", b))
    # several strings in a row
    for a, b, d in itertools.product(["", "a", "\\n", "é", "\\0"], repeat=3):
        x = string(a) + string(b) + string(d)
        o.append((f'@ls("{a}" "{b}" "{d}")', byts(x), "concat"))
        o.append((f'@ls("{a}"\n/* c */ `{b if b != chr(92) + "0" else "x"}` // "{d}"\n "{d}")', byts(string(a) + list((b if b != "\\0" else "x").encode()) + string(d)), "concat"))
    # raw strings
    for k in range(0, 5 if th else 4):
        for t in itertools.product(["a", "\\", "``", '"', "\n", "//", "'"], repeat=k):
            b = "".join(t)
            o.append((f"@ls(`{b}`)", byts(list(b.replace("``", "`").encode())), "raw"))
    o += [("@ls(`a)", "reject", "raw"), ("@ls(`a```)", byts(list(b"a`")), "raw"), ("@ls(`````)", "reject", "raw"), ("@ls(``````)", byts([96, 96]), "raw")]
    # hex data
    def hexa(s, q='"'):
        d = re.sub(r"[ \t\n]", "", s)
        if any(x not in HX for x in d) or len(d) % 2 or not d: return "reject"
        return byts(list(bytes.fromhex(d)))
    for k in range(0, 6 if th else 5):
        for t in itertools.product("0aF \n" + ("g" if k < 4 else ""), repeat=k):
            o.append((f'@lb(x"{"".join(t)}")', hexa("".join(t)), "hex"))
    for q in "'`": o += [(f"@lb(x{q}{s}{q})", hexa(s), "hex") for s in ("", "0", "00", "ffFF", "1 2", "12 34\n56", " a b ", "0x12", "1_2", '12"', "é0")]
    # base64
    A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    def b64(s):
        d = re.sub(r"[ \t\n]", "", s)
        m = re.match(r"^([A-Za-z0-9+/]*)(={0,2})$", d)
        if not m or not m[1]: return "reject"
        n = len(m[1])
        if m[2] and (n + len(m[2])) % 4 or n % 4 == 1: return "reject"
        v = 0
        for x in m[1]: v = v << 6 | A.index(x)
        nb = n * 6 // 8
        return byts(list((v >> (n * 6 - nb * 8)).to_bytes(nb, "big")))
    for k in range(0, 7 if th else 6):
        for t in itertools.product("Qz+=" + (" " if k < 5 else ""), repeat=k):
            s = "".join(t)
            if k > 4 and not th and s.count("+") > 1: continue
            o.append((f'@lb(b64"{s}")', b64(s), "base64"))
    for x in A: o += [(f'@lb(b64"{x}AA{x}")', b64(f"{x}AA{x}"), "base64"), (f'@lb(b64"A{x}==")', b64(f"A{x}=="), "base64"), (f'@lb(b64"AA{x}")', b64(f"AA{x}"), "base64"), (f"@lb(b64'AA{x}A')", b64(f"AA{x}A"), "base64"), (f"@lb(b64`{x}A` )", b64(f"{x}A"), "base64")]
    for ch in '-_*!.~"(%\\': o.append((f"@lb(b64'AAA{ch}')", "reject", "base64"))
    for n in range(1, 12):
        s = base64.b64encode(bytes(range(200, 200 + n))).decode()
        o += [(f'@lb(b64"{s}")', b64(s), "base64"), (f'@lb(b64"{s.rstrip("=")}")', b64(s), "base64"), (f'@lb(b64"{" ".join(s)}")', b64(s), "base64"), (f'@lb(x"{bytes(range(200, 200 + n)).hex(" ")}")', b64(s), "hex")]
    hs = ['x"0102"', 'b64"AQI="', 'b64"AQI"', "x'03'", 'b64"BAUGBwg="', 'x""', "x' 09 0a 0b '", 'b64"DA"', 'b64""']
    hv = [[1, 2], [1, 2], [1, 2], [3], [4, 5, 6, 7, 8], [], [9, 10, 11], [12], []]
    for k in (2, 3):
        for t in itertools.product(range(len(hs)), repeat=k):
            b = sum((hv[i] for i in t), [])
            o.append((f"@lb({' '.join(hs[i] for i in t)})", byts(b) if b else "reject", "concat bytes"))
    out = []
    for call, want, cls in o:
        if want == "str":
            s = string(cls)
            want, cls = ("reject" if s is None else byts(s)), "string"
        out.append((call, want, cls))
    return list(dict.fromkeys(out))


def strip(t):
    """Removes comments the way the language says: None when one never ends."""
    i, o = 0, ""
    while i < len(t):
        if t.startswith("//", i):
            while i < len(t) and t[i] != "\n": i += 1
        elif t.startswith("/*", i):
            n, i = 1, i + 2
            while n:
                if i >= len(t): return None
                if t.startswith("/*", i): n, i = n + 1, i + 2
                elif t.startswith("*/", i): n, i = n - 1, i + 2
                else: i += 1
            o += " "
        else:
            o += t[i]
            i += 1
    return o


def comments(th):
    o = []
    for k in range(0, 7 if th else 6):
        for t in itertools.product("/*\n;", repeat=k):
            s = "".join(t)
            full = "evt('a');" + s + "evt('b');\nevt('c'); ev_flush();"
            r = strip("/* */" + full)
            if r is None: continue          # swallows the rest: not asked here
            body = re.sub(r"\s+", "", r)
            # what may remain: the calls and empty statements
            if re.fullmatch(r"(?:evt\('a'\);|evt\('b'\);|evt\('c'\);|ev_flush\(\);|;)*", body) and body.endswith("ev_flush();"):
                o.append((full[:-len("ev_flush();")], "".join(re.findall(r"evt\('(.)'\)", body)), "comment"))
    for pre, post in (("/*", "*/"), ("//", "\n")):
        for k in range(0, 6 if th else 5):
            for t in itertools.product("/*\n\"'a", repeat=k):
                full = "evt('a'); evt(/* x */ 'b');" + pre + "".join(t) + post + "evt('d'); ev_flush();"
                r = strip(full)
                if r is None: continue
                body = re.sub(r"\s+", "", r)
                if re.fullmatch(r"(?:evt\('.'\);|ev_flush\(\);|;)*", body) and body.endswith("ev_flush();"):
                    o.append((full[:-len("ev_flush();")], "".join(re.findall(r"evt\('(.)'\)", body)), "comment"))
    return list(dict.fromkeys(o))


def accept(c, name, part):
    """one program with every accepted text; reports those that differ"""
    # functions of 50 texts
    lines = [t + (" ev_flush();" if cls == "comment" else ";") for t, w, cls in part]
    src = HEAD.format(m=name) + "".join(f"fn void f{k}() {{\n" + "\n".join(lines[k:k + 50]) + "\n}\n" for k in range(0, len(part), 50))
    src += 'fn void run() @export("run") { ' + " ".join(f"f{k}();" for k in range(0, len(part), 50)) + " }\n"
    exe, txt = c.build_min(name, src, "-O0", ok=True)
    if not exe:
        if len(part) == 1:
            t, w, cls = part[0]
            c.violation(f"reject:{cls}:{t[:60]!r}", f"{t!r} is not accepted, should give {w}: {c.errors(txt)}", {"text": t, "output": txt[-1500:]})
            return
        m = max(1, len(part) // 8)
        for k in range(0, len(part), m):
            if c.nviol > 25: return
            accept(c, f"{name}x{k}", part[k:k + m])
        return
    code, out = c.run([exe], 60)
    got = out.decode("latin-1").split("\n")
    for (t, w, cls), g in zip(part, got):
        if g != w: c.violation(f"value:{cls}:{t[:60]!r}", f"{t!r} gives {g}, should be {w}", {"text": t})
    if code or len(got) < len(part): c.violation(f"run:{name}", f"ends with {code} after {len(got)} of {len(part)}", {})


def run(c):
    c.c_main()
    c.nviol = 0
    old = c.violation
    def viol(*a):
        c.nviol += 1
        old(*a)
    c.violation = viol
    al = [(f"@lt({s})", w, "number") for s, w in numbers(c.thorough).items()] + texts(c.thorough) + comments(c.thorough)
    good = [x for x in al if x[1] not in ("reject", None)]
    bad = [x for x in al if x[1] == "reject"]
    n = 8 if not c.thorough else 24
    c.pmap(lambda k: accept(c, f"acc{k}", good[k::n]), range(n), 8)

    def rej(k):
        t, w, cls = bad[k]
        p = os.path.join(c.dir, f"rej{k % 64}_{k}.c3")
        with open(p, "w") as f: f.write(HEAD.format(m="rej") + "fn void f()\n{\n" + t + ";\n}\n")
        code, out = c.run([c.c3c, "compile-only", "-C", "--use-stdlib=no", p], 60)
        txt = out.decode("utf-8", "replace")
        if code != 1 or not re.search(r":\d+(:\d+)?\) Error: ", txt):
            c.violation(f"accept:{cls}:{t[:60]!r}", f"{t!r} must be rejected, the compiler ends with {code}: {txt[-300:]}", {"text": t})
        os.unlink(p)
    c.pmap(rej, range(len(bad)), 8)
    c.add(evaluations=len(al), distinct_nontrivial=len(good) + len(bad))
    c.set(rule="distinct spelling", exhaustive=True, accepted=len(good), rejected=len(bad), unspecified=len(al) - len(good) - len(bad))
    c.sample(good[17][0])
    c.sample(bad[17][0])
