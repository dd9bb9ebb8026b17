"""The reference interpreter and the emitter of the statement grammar used by the flow checks."""


class Brk(Exception):
    def __init__(s, l): s.l = l
class Cont(Exception):
    def __init__(s, l): s.l = l
class Ret(Exception):
    def __init__(s, v, f): s.v, s.f = v, f
class Next(Exception):
    def __init__(s, l, v): s.l, s.v = l, v
class Fuel(Exception): pass


class Run:
    def __init__(self, script, bits):
        self.s, self.bits, self.log = script, bits, []
    def bit(self, ch):
        if len(self.log) > 400: raise Fuel()
        self.log.append(ch)
        b = self.s & 1
        self.s >>= 1
        return b
    def ev(self, ch):
        if len(self.log) > 400: raise Fuel()
        self.log.append(ch)
    def block(self, stmts):
        defers = []
        try:
            for s in stmts:
                if s[0] == "defer": defers.append(s)
                else: self.stmt(s)
        except Ret as r:
            for d in reversed(defers):
                if d[1] == "" or (d[1] in ("catch", "(catch err)")) == r.f: self.defer(d, r)
            raise
        except (Brk, Cont, Next):
            for d in reversed(defers):
                if d[1] in ("", "try"): self.defer(d, None)
            raise
        for d in reversed(defers):
            if d[1] in ("", "try"): self.defer(d, None)
    def defer(self, d, r):
        self.block(d[2])
        if d[1] == "(catch err)": self.log.append("%d," % r.v)
    def stmt(self, s):
        k = s[0]
        if k == "ev": self.ev(s[1])
        elif k == "blk": self.block(s[1])
        elif k == "if":
            _, lab, ch, a, b = s
            try:
                if self.bit(ch): self.block(a)
                elif b is not None: self.block(b)
            except Brk as e:
                if e.l is None or e.l != lab: raise
        elif k in ("while", "for", "do", "foreach", "foreach_r"):
            _, lab, ch, body = s
            n = 0
            if k == "for": self.ev("i")
            first = True
            while True:
                if k in ("while", "for") or (k == "do" and not first):
                    if not self.bit(ch): break
                if k in ("foreach", "foreach_r"):
                    if n == 2: break
                    self.ev("12"[n if k == "foreach" else 1 - n])
                    n += 1
                first = False
                try:
                    self.block(body)
                except Brk as e:
                    if e.l is not None and e.l != lab: raise
                    break
                except Cont as e:
                    if e.l is not None and e.l != lab: raise
                if k == "for": self.ev("u")
        elif k == "switch":
            _, lab, ch, cases = s
            v = self.bit(ch) | self.bit(ch) << 1
            i = self.find(cases, v)
            while i is not None:
                body = cases[i][1]
                if body is None:  # empty: falls through
                    i += 1
                    continue
                try:
                    self.block(body)
                    break
                except Brk as e:
                    if e.l is not None and e.l != lab: raise
                    break
                except Next as e:
                    if e.l is not None and e.l != lab: raise
                    i = i + 1 if e.v is None else self.find(cases, e.v)
        elif k == "jump":
            j = s[1]
            if j == "break": raise Brk(s[2])
            if j == "continue": raise Cont(s[2])
            if j == "return":
                self.ev("r")
                raise Ret(5, False)
            if j == "fault":
                raise Ret(1, True)
            if j == "maybe":
                if self.bit("m"): raise Ret(2, True)
                raise Ret(6, False)
            if j == "rethrow":
                if self.bit("m"): raise Ret(2, True)
                return
            if j == "nextcase": raise Next(s[2], s[3])
        else: raise Exception(k)
    def find(self, cases, v):
        for i, (l, b) in enumerate(cases):
            if l == v: return i
        for i, (l, b) in enumerate(cases):
            if l == "default": return i
        return None


def emit(s):
    k = s[0]
    if k == "ev": return f"evt('{s[1]}');"
    if k == "defer":
        extra = " ev_num(err == NO1 ? 1 : err == NO2 ? 2 : 3);" if "err" in s[1] else ""
        return f"defer {s[1]} {{ {blk(s[2])}{extra} }}"
    if k == "blk": return f"{{ {blk(s[1])} }}"
    lab = f" {s[1]}:" if k not in ("jump",) and s[1] else ""
    if k == "if":
        return f"if{lab} (bit('{s[2]}')) {{ {blk(s[3])} }}" + (f" else {{ {blk(s[4])} }}" if s[4] is not None else "")
    if k == "while": return f"while{lab} (bit('{s[2]}')) {{ {blk(s[3])} }}"
    if k == "for": return f"for{lab} (int i_{s[2]} = ev_i(0, 'i'); bit('{s[2]}'); evt('u')) {{ {blk(s[3])} }}"
    if k == "do": return f"do{lab} {{ {blk(s[3])} }} while (bit('{s[2]}'));"
    if k in ("foreach", "foreach_r"): return f"{k}{lab} (v_{s[2]} : two) {{ evt(v_{s[2]}); {blk(s[3])} }}"
    if k == "switch":
        o = f"switch{lab} (bit('{s[2]}') | (bit('{s[2]}') ? 2 : 0)) {{ ".replace(f"(bit('{s[2]}') | (bit('{s[2]}') ? 2 : 0))", f"(sel('{s[2]}'))")
        for l, b in s[3]:
            o += ("default: " if l == "default" else f"case {l}: ") + (blk(b) if b is not None else "") + " "
        return o + "}"
    j = s[1]
    if j in ("break", "continue"): return f"{j}{' ' + s[2] if s[2] else ''};"
    if j == "return": return "return ev_i(5, 'r');"
    if j == "fault": return "return NO1?;"
    if j == "maybe": return "return maybe();"
    if j == "rethrow": return "maybe()!;"
    if j == "nextcase": return "nextcase" + (f" {s[2]}:" if s[2] else "") + (f" {s[3]}" if s[3] is not None else "") + ";"


def blk(stmts): return " ".join(emit(s) for s in stmts)


PRELUDE = """faultdef NO1, NO2;
char[2] two = { '1', '2' };
tlocal uint script;
tlocal int fuel;
fn bool bit(int c) @noinline { evt(c); bool b = (script & 1) == 1; script >>= 1; return b; }
fn int sel(int c) @noinline { int a = bit(c) ? 1 : 0; int b = bit(c) ? 2 : 0; return a | b; }
fn int? maybe() @noinline { if (bit('m')) return NO2?; return 6; }
"""


def wrap(kind, lab, ch, inner):
    """a construct around a statement list"""
    if kind == "blk": return ("blk", inner)
    if kind == "if": return ("if", lab, ch, inner, None)
    if kind == "else": return ("if", lab, ch, [("ev", ch.upper())], inner)
    if kind == "case": return ("switch", lab, ch, [(0, inner), (1, None), (2, [("ev", "2")]), ("default", [("ev", "d")])])
    if kind == "case2": return ("switch", lab, ch, [("default", [("ev", "d")]), (1, [("ev", "1")]), (0, None), (2, inner)])
    return (kind, lab, ch, inner)
