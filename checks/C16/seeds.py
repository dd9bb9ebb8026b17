"""The pieces programs are made of: a prelude, declarations and statements that use every construct, and the alphabet of tokens."""

PRELUDE = """module zz;
faultdef FA, FB;
struct St { int a; char* p; int[3] arr; union u { long l; float f; } }
enum En : char (int v) { AA = 1, BB = 2 }
bitstruct Bi : int { int x : 0..3; bool y : 4; }
union Un { int a; float b; }
typedef Di = int;
alias Ali = int;
alias Fn = fn int(int a);
interface Ifc { fn int im(int x); fn void opt() @optional; }
struct Imp (Ifc) { int q; }
fn int Imp.im(&self, int x) @dynamic => x;
fn int St.met(&self, int x) { return x; }
fn int fint(int a) { return a; }
fn int? fopt(int a) { return a ? a : FA?; }
fn void fvar(int a, int... b) {}
extern fn void fraw(int a, ...);
macro mac(x) => x;
macro @body(int x; @body(int a)) { @body(x); }
macro @expr(#e) => #e;
int glob;
const int CON = 3;
int[4] garr = { 1, 2, 3, 4 };
attrdef @Attr = @inline;
"""

DECLS = """
struct Aa { inline St s; int a; bitstruct : int { int k : 0..3; } struct { char c; } float[<4>] v; }
struct Ab @packed @align(8) { int a @align(16); char[*] tail; }
union Ac { int a; char[4] b; }
bitstruct Ad : ushort @overlap { int a : 0..5; bool b : 6; uint c : 2..15; }
bitstruct Ae : char[3] @bigendian { int a : 3..12; }
enum Af { XA, XB, XC }
enum Ag : int (char[] name, inline int val) { QA = { "a", 1 }, QB = { "b", 2 } }
enum Ah : inline int { HA, HB }
faultdef QFA, QFB;
typedef Ai = inline St;
typedef Aj @tag("a", 1) = char[];
alias Ak = fn int?(int x = 3, char* y, int... z);
alias al = fint;
alias AL_CON = CON;
interface Am : Ifc { fn int? more(int a, char* b = null); }
fn int an(int a, int b = 4, char* c = null) => a + b;
fn int? ao(int a) { defer catch fint(1); if (a > 1) return FB?; return a; }
fn void ap(int a, char[]... b) @inline @noinline { return; }
fn int aq(St* self, int... c) { return c.len > 1 ? c[0] : 0; }
fn int St.ar(&self, int x = CON) @private { return self.a + self.arr[x]; }
fn St St.plus(self, St o) @operator(+) { return o; }
fn int* St.at(&self, usz i) @operator(&[]) { return &self.arr[i]; }
fn usz St.len(&self) @operator(len) { return 3; }
macro @as(x, $y, #z, $Tt; @body(a)) { $if $y > 1: return x; $else return (int)$Tt.sizeof + $y; $endif }
macro int at(...) { var $n = $vacount; $for var $i = 0; $i < $n; $i++: fint($vaarg[$i]); $endfor return $n; }
macro au($Type, x) { $switch $Type: $case int: return 1; $case float: return 2; $default: return 3; $endswitch }
const int[] AV = { [0] = 1, [3] = 4, [5..6] = 2 };
const char[] AW = "abc" +++ `def` +++ x"ab 12" ;
tlocal int ax = 4;
int ay @export("ayy") @weak = CON > 2 ? 1 : 2;
extern fn int az(char* a, ...) @extern("printf");
extern int ba;
int[2][3] bb = { { 1, 2 }, { 3, 4 }, { 5, 6 } };
$assert CON == 3 : "text";
int bc @if($defined(St.a) &&& CON > 2);
fn int be() { $foreach $x : { 1, 2 }: fint($x); $endforeach return 1; }
module other {Type, VAL}; struct Gs { Type[VAL] a; } fn Type Gs.get(self) => self.a[0];
module zz2 @private; import zz; fn int bf() => zz::fint(1);
<* Doc @require a > 1 : "big" @ensure return > 2 @param [&in] b *> fn int bg(int a, int* b) { return a + *b; }
<* @return? FA, FB *> fn int? bh() { return FA?; }
attrdef @Bi(x) = @align(x), @inline;
fn void bj() @init(100) {} fn void bk() @finalizer {} fn void bl() @test {}
fn void bm(any x, typeid t, Ifc y, void* z) { y.im(1); }
fn void bn() { asm { nop; } asm("nop"); }
fn int[<4>] bo(int[<4>] v) => v * 2 + v.xyzw;
fn void bp() { char[] s = $embed("zin.c3"); }
"""

STMTS = """
int a = 1; a += 2; a++; --a; a <<= 1;
int a, b; char* c = null; St s = { 1, null, { 1, 2, 3 }, {} };
St s = { .a = 1, .arr[1] = 3 }; s.met(s.arr[0]); s = {};
if (fint(1) > 2 && glob) { glob = 1; } else if (!glob) { glob = 2; } else { return; }
if (try x = fopt(1)) { fint(x); }
if (catch e = fopt(2)) { switch (e) { case FA: return; default: return; } }
int? x = fopt(1); int y = x ?? 3; int z = fopt(2)!!;
(void)fopt(1); fopt(1)!!; int? o = fopt(1); fint(fopt(2)) ?? 3; return (void)(o ?? 1);
for (int i = 0, int j = 1; i < 10; i++, j--) { if (i == 3) continue; if (j == 4) break; }
for OUTER: (int i = 0; i < 3; i++) { while (true) { continue OUTER; } }
while (int k = fint(2)) { glob--; break; }
do { glob++; } while (glob < 3);
foreach (i, &x : garr) { *x = (int)i; } foreach_r (char x : "abc") { fint(x); }
switch (glob) { case 1: nextcase 3; case 2..5: glob = 3; nextcase; case 'a': break; default: nextcase default; }
switch (En e = AA) { case AA: glob = 1; case BB: glob = 2; }
switch LAB: { case glob > 1: break LAB; default: glob = 1; }
switch (int.typeid) { case int: glob = 1; default: break; }
switch (glob) @jump { case 1: glob = 2; case 3: glob = 4; default: glob = 5; }
defer glob = 1; defer { glob = 2; } defer (catch e) { glob = 4; }
assert(glob > 1, "x %d", glob); assert(CON == 3);
static int st = 3; const int LC = 4; tlocal int tl = 4; var $ct = 3; var $Ty = int;
int[3] a = { 1, 2, 3 }; int[] sl = a[0..1]; sl[^1] = a[:2][0]; a[1..] = 4; int[*] b = { 1 };
int[<4>] v = { 1, 2, 3, 4 }; v.xy = v.zw; v[1] = 3; bool[<4>] w = $$veccomplt(v, v); v += v.wzyx * 2;
Bi b; b.x = 3; b.y = !b.y; b = b | (Bi){ .x = 1 };
char* p = &&(char)3; *p = (char)glob; p += 2; p[1] = 3; long d = p - (char*)null;
Fn f = &fint; f(3); Fn g = fn int(int a) => a + 1; (*&f)(2);
Ifc i = &&(Imp){ 3 }; i.im(3); if (&i.opt) i.opt(); any an = &glob; typeid t = an.type; int* ip = (int*)an.ptr;
int x = glob ? 1 : 2; int y = glob ?: 3; bool z = glob > 1 || !x && y != 3; 
int m = mac(3) + @expr(glob + 1) * -4 % 3; m = ((m ^ ~2) & 0xff) | 1; @body(3; int q) { fint(q); };
char[] s = "a\\n\\x41\\u00e9" "b"; s = `raw`; s = s[1..]; char c = 'a'; char[3] bs = x'ab cd ef'; int fourcc = 'abcd';
double d = 1.5e3 + 0x1.8p3 + 0.5 - 1_000.0; float f = (float)d * 2f; long l = 0b1010_1 + 0o17 + 123u8 + 0xFFul;
$if $defined(glob): glob = 1; $else glob = 2; $endif
$for var $i = 0; $i < 3; $i++: glob += $i; $endfor $foreach $m : St.membersof: glob += (int)$m.offsetof; $endforeach
$switch CON: $case 3: glob = 1; $case 4: $default: glob = 2; $endswitch
int sz = (int)$sizeof(glob) + (int)int.max + (int)St.alignof + (int)$typeof(glob).sizeof + $alignof(glob);
char[] n = $nameof(glob) +++ $qnameof(fint) +++ $extnameof(fint) +++ $stringify(a + b) +++ St.nameof; En.values; En.names.len;
$eval("glob") = 3; $typefrom(int.typeid) q = 2; $evaltype("int") r = 3;
fvar(1, 2, 3); fvar(1, ...garr); fraw(1, "a", 2.0, glob); fint(a: 3); 
En e = AA; int v = e.v + e.ordinal; e = En.from_ordinal(1); Di di = 3; int raw = (int)di; Ali al = 3;
{ int inner = 3; { inner = inner; } } ; return;
int x @unused = 3; int? opt = FA?; fault ff = FB; opt = glob; ff = ff ?: FB;
glob = fint(fint(fint(1 + 2 * (3 - 4) / 5))); garr[glob] = garr[garr[0]] = 3;
$echo "x"; $assert true;
int q = $$clz(3); asm { addl $eax, 4; movl [$rsp + 8], glob; nop; }
$defined(glob, St.a, fint(3)); bool iz = $is_const(3); int z = $feature(XX) ? 1 : 2;
((St){ 1, null, {}, {} }).met(3); zz::fint(3); zz::glob = 3; 
"""

KEYWORDS = """void bool char double float int128 int long uint ulong usz any fault typeid alias assert asm attrdef bitstruct break case catch const continue default defer do else enum extern
false faultdef for foreach foreach_r fn tlocal if inline import macro module nextcase interface null return static struct switch true try typedef union var while
$alignof $assert $assignable $case $default $defined $echo $else $embed $endfor $endforeach $endif $endswitch $error $eval $evaltype $exec $extnameof $feature $for $foreach $if $include $is_const $nameof
$offsetof $sizeof $stringify $switch $typefrom $typeof $vacount $vatype $vaconst $vaarg $vaexpr $vasplat""".split()
OPS = "& ! ~ | ^ : , ; = > / . < { [ ( - % + ? } ] ) * && -> !! &= .. ?: == >= => <= [< -= -- != || += ++ >] ?? :: << >> ... <<= &&& +++ ||| @ $ # $$".split()
OTHERS = ["x", "glob", "St", "CON", "mac", "@body", "$x", "$Tt", "#e", "@attr", "fopt", "1", "0", "1.5", '"s"', "'c'", "0xFFFFFFFFFFFFFFFFF", "123456789012345678901234567890123456789012345", "zz::fint", "`r`", "x\"ab\"", "self",
          "$$clz", "@inline", "@if(true)", "FA", "En", "Bi", "Ifc", "int[3]", "int*", "int?", "fn int()", "int[]", "{}", "()", "St{int}", "other::Gs{int, 3}", "<* @require true *>", "/*", "\"", "'", "<*", "\\", "\x01", "\u00e9", "-1", "[..]", "[^1]"]
ALPHA = KEYWORDS + OPS + OTHERS
PUNCT = OPS + ["x", "1", "int", "St", '"s"', "glob", "null", "return", "$x", "$Tt", "@body", "if", "fn", "struct"]
USES = ["St s; s.met(s.a); s.arr[0] = s.u.l;", "En e = AA; e.v;", "Bi b; b.x = 1;", "Un u; u.a = 1;", "Di d = (Di)1; Ali al = 2; Fn f = &fint; f(1);",
        "Ifc i = &&(Imp){ 1 }; i.im(1);", "fopt(1)!!; fvar(1, 2); fraw(1, 2);", "mac(1); @body(1; int q) { q++; }; @expr(glob);", "glob = CON + garr[1];", "int yy @unused;"]
SOME = """int void char if else for while return switch case default fn struct enum union bitstruct macro const alias typedef import module interface faultdef attrdef defer try catch var static asm assert inline
$if $endif $for $switch $assert $defined $typeof $eval $vaarg $sizeof ( ) { } [ ] [< >] ; , : :: . .. ... = == => + - * / & && | ! !! ? ?? ?: @ $ # ++ < > << x glob St CON 1 "s" 'c' 1.5 @body $x $Tt #e @inline fopt FA null true any typeid""".split()
FEW = 'int fn ( ) { } [ ; , : = & ! ? $ x St "s" @body $if'.split()
MID = FEW + '] . => + * @ 1 $x $Tt #e if struct return ... CON null'.split()
