"""Writes properties.jsonl. Each entry: id, title, statement, over, quantifier text, why tests cannot, files, mechanism."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": over, "text": " ".join(q.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {}), "hook_needed": None}})
C = "src/compiler/"
L = "lib/std/"

# ---------------------------------------------------------------- the language and its compiler
p("C01", "Integer expressions mean the same to the compiler and to the program",
  """For every integer type from 8 to 128 bits, signed or unsigned, every binary and unary arithmetic, bitwise, shift and comparison
  operator (and its compound assignment) gives the two's complement / mathematically defined result in the generated program, at
  every optimization level. The same expression evaluated by the compiler as a constant gives that same value.""",
  ["inputs", "programs"], "all operators x all integer types x all operand values",
  "The suite samples a few constants of a few types; folding (Int128 arithmetic in the compiler) and code generation are separate implementations that must agree on every operand.",
  [C+"bigint.c", C+"sema_expr.c", C+"sema_const.c", C+"llvm_codegen_expr.c", L+"math/runtime/i128.c3"],
  [("constant folding on Int values", C+"bigint.c"), ("binary/unary operator code generation", C+"llvm_codegen_expr.c")], ["exit values of compiled programs", "compile-time constants"])
p("C02", "Numeric conversions and casts give the defined value",
  """Every explicit cast between integer, floating point and boolean types gives the C-defined value (truncation modulo 2^n, sign or zero extension, rounding toward zero from floats, nonzero test for bool), identically as a constant and at run time. An implicit conversion is accepted exactly when it is not narrowing (an integer to one at least as wide, of either sign, or to a float type; a float to a wider one) and gives the value of the explicit cast. Mixed arithmetic is done in the wider width (at least 32 bits), signed if either operand is; mixed signed/unsigned comparisons compare the mathematical values.""",
  ["inputs", "programs"], "all pairs of numeric types x all values",
  "A handful of pairs is tested; the conversion table is a type x type matrix with separate constant and run-time paths.",
  [C+"sema_casts.c", C+"sema_const.c", C+"bigint.c", C+"llvm_codegen_expr.c"],
  [("cast rule table", C+"sema_casts.c"), ("constant casts", C+"sema_casts.c"), ("signed/unsigned comparison lowering", C+"llvm_codegen_expr.c")])
p("C03", "Expressions group by the documented precedence and associativity",
  """Every expression groups its operators by the documented precedence table (from loose to tight: assignment; ternary, elvis and orelse; or; and; comparison; additive; bitwise; shift; multiplicative; unary; call and postfix), with left association where documented, and parentheses overriding; groupings the language refuses without parentheses are errors. Subexpressions with side effects are evaluated in left to right order, exactly once, with && || ?: and ?? skipping the operands they do not need.""",
  ["programs"], "all operator combinations up to three binary operators with unary and postfix operators, parentheses and the conditional forms",
  "The precedence suite checks a dozen expressions; operator pairs alone are hundreds.",
  [C+"parse_expr.c", C+"enums.h", C+"sema_expr.c", C+"llvm_codegen_expr.c"],
  [("Pratt rule table", C+"parse_expr.c"), ("short circuit code", C+"llvm_codegen_expr.c")])
p("C04", "Literals denote exactly what is written",
  """Every integer, floating point, character, string, raw string and byte (hex, base64) literal that the language's grammar allows denotes exactly its mathematical value (floats: the nearest value of the literal's type) or byte sequence, with the type its prefix or suffix names; an escape \\xHH is a byte in a character and a code point in a string; literals that violate the grammar or do not fit are rejected. Comments (nested block comments included) and whitespace never change meaning.""",
  ["inputs"], "all literal spellings up to a length over the relevant alphabet",
  "The lexing tests hold single samples per form; digit separators, escapes and width limits interact.",
  [C+"lexer.c", C+"parse_expr.c", C+"number.c", C+"float.c", C+"bigint.c"],
  [("number scanners", C+"lexer.c"), ("parse_integer / parse_double", C+"parse_expr.c"), ("escape decoding", C+"lexer.c")])
p("C05", "Safe mode traps exactly the invalid operations",
  """With safety on, an out-of-bounds array, slice or vector index or slice range, an explicit dereference of null (*p) or a call of a null function pointer, division or remainder by zero, an oversized or negative shift, an unreachable switch or assert failure, an invalid enum conversion or a fault forced with '!!' always panics before it has any effect; valid operations never panic and act on exactly the addressed element (an empty range starting at the end of an array may be refused). Subscripts counted from the end (^) and ranges in all their forms (a..b, a:n, open ends) denote the documented elements.""",
  ["inputs", "programs"], "all index/range/shift/divisor values around the bounds x all aggregate kinds and subscript forms",
  "Only a few failing indices are tested, since each needs a process that dies.",
  [C+"llvm_codegen_expr.c", C+"llvm_codegen_stmt.c", C+"sema_expr.c", C+"llvm_codegen.c"],
  [("bounds and null checks", C+"llvm_codegen_expr.c"), ("range parsing and checks", C+"sema_expr.c")])
p("C06", "Control flow and deferred statements run in the defined order",
  """Whatever the nesting of if/while/do/for/foreach/switch, labelled or not, with break, continue, nextcase and return, the statements of a function execute in
  the order the structured program defines. Deferred statements run exactly once when their scope is left, in reverse order of registration, 'defer try' only on normal and 'defer catch' only on failing exits.""",
  ["programs"], "all programs of a statement grammar up to a size, on all inputs that steer them",
  "Scope exits x jump kinds x defer kinds multiply; the suite has some dozens of hand picked shapes.",
  [C+"sema_stmts.c", C+"llvm_codegen_stmt.c", C+"parse_stmt.c", C+"sema_passes.c"],
  [("defer chains attached to jumps", C+"sema_stmts.c"), ("block and loop code generation", C+"llvm_codegen_stmt.c")])
p("C07", "Optionals carry either a value or the first fault, never both",
  """An optional expression is evaluated left to right; the first operand that yields a fault stops the evaluation, and exactly that fault reaches the nearest handler (??, !, !!, if (try), if (catch), @catch, @ok or the caller's return), the fault being what an optional variable assigned from it holds. With no fault the value is delivered unchanged whatever its type.""",
  ["programs", "inputs"], "all compositions of optional producers and consumers up to a depth x all success/failure assignments of the producers",
  "Fault paths double with every producer; the tests take one path each.",
  [C+"sema_expr.c", C+"llvm_codegen_expr.c", C+"llvm_codegen_stmt.c", C+"sema_stmts.c"],
  [("catch/try unwrapping", C+"llvm_codegen_stmt.c"), ("optional propagation", C+"llvm_codegen_expr.c")])
p("C08", "switch selects the matching case for every value",
  """For every switch, over integers, enums, booleans, faults, types and strings, with single values, ranges, default in any position, implicit fallthrough of empty cases, nextcase to a value, and jump tables,
  control enters the case whose label matches the value (first match for non-constant conditions), the default if none does, and nothing if there is no default. Overlapping constant labels are rejected.""",
  ["programs", "inputs"], "all small label sets x all values of the switched type around them",
  "Dense, sparse, ranged, signed and jump-table lowering differ; only a few are run.",
  [C+"sema_stmts.c", C+"llvm_codegen_stmt.c"],
  [("label checking", C+"sema_stmts.c"), ("switch, jumptable and if-chain lowering", C+"llvm_codegen_stmt.c")])
p("C09", "Aggregates have the C layout and cross the C ABI unchanged",
  """A struct, union or array of C-compatible members has the size, alignment and member offsets the platform C compiler gives it (packed and aligned variants included). Passed by value to or returned from a C function, or
  called from C, in any position and combination with other arguments (variadic included), it arrives with every byte of its members intact.""",
  ["programs", "inputs"], "all aggregate shapes up to a size x all signatures up to a length x both directions",
  "The ABI tests compare IR of selected shapes; classification depends on the whole shape and on the registers already used.",
  [C+"abi/c_abi_x64.c", C+"abi/c_abi.c", C+"llvm_codegen_function.c", C+"llvm_codegen_expr.c", C+"sema_decls.c"],
  [("SysV x64 classification", C+"abi/c_abi_x64.c"), ("struct layout", C+"sema_decls.c")])
p("C10", "Bitstruct members read and write exactly their bits",
  """Every member of a bitstruct occupies exactly the bits declared, in the declared byte order (@bigendian/@littleendian) and with the declared signedness: writing a member changes those bits and no others, reading
  returns the last value written truncated to its width. Constant and run-time initialization, whole-struct & | ^ and comparison agree with the bits.""",
  ["programs", "inputs"], "all bit ranges x base types x endianness x values",
  "A few layouts are tested; member extraction has many width/byte-crossing cases.",
  [C+"llvm_codegen_expr.c", C+"sema_decls.c", C+"sema_initializers.c", C+"llvm_codegen.c"],
  [("bit member load/store", C+"llvm_codegen_expr.c"), ("constant bitstruct emission", C+"llvm_codegen.c")])
p("C11", "Initializers fill exactly the named elements and zero the rest",
  """An initializer list (positional, designated by member, index, range or nested path, in any legal order, later designators overriding earlier ones, with splats) sets exactly the elements it names, evaluating each expression once, and zeroes everything else.
  The result is the same for a global, a constant, a local with constant values, a local with run-time values, an assignment and an argument.""",
  ["programs"], "all initializer shapes up to a size over nested structs, unions, arrays and slices",
  "Constant and run-time initialization are separate code; the suite tests chosen shapes of each.",
  [C+"sema_initializers.c", C+"llvm_codegen_expr.c", C+"llvm_codegen.c", C+"expr.c"],
  [("ConstInitializer building", C+"sema_initializers.c"), ("initializer emission", C+"llvm_codegen_expr.c")])
p("C12", "Vector operations act lane by lane",
  """Arithmetic, bitwise, shift, comparison, negation, conversion, swizzle read and write, scalar expansion and reduction on vectors, of any element type and length, equal the scalar operation applied to each lane (or folded over all lanes), as constants and at run time.
  Conversions between vectors and arrays preserve element order.""",
  ["programs", "inputs"], "all operators x element types x lengths (odd ones included) x swizzles",
  "Lane code is selected by LLVM type; the tests use few lengths.",
  [C+"llvm_codegen_expr.c", C+"llvm_codegen_builtins.c", C+"sema_expr.c", C+"sema_const.c", L+"core/builtin_comparison.c3"],
  [("vector operator lowering", C+"llvm_codegen_expr.c"), ("swizzling", C+"sema_expr.c")])
p("C13", "Names resolve by module and visibility rules",
  """A name refers to the innermost local declaration, else to the current module's (and its partitions'), else to a visible declaration of an imported module, and only as far as its visibility (@public, @private, @local, import @public) allows. An ambiguous,
  invisible or undeclared name is an error, and the order of files, imports or declarations changes nothing.""",
  ["programs", "configurations"], "all import graphs and declaration placements over a few modules x all references",
  "Resolution depends on combinations of module nesting, import lists and visibility; tests fix one each.",
  [C+"sema_name_resolution.c", C+"sema_passes.c", C+"decltable.c", C+"module.c", C+"symtab.c"],
  [("path and import search", C+"sema_name_resolution.c")])
p("C14", "Macros and generics expand faithfully",
  """A macro call evaluates each by-value argument exactly once and before the body, each #expression argument once per use in the caller's scope, and never captures or leaks names of the caller; its result is that of the body it describes, trailing blocks included. Instantiating a generic module with the same parameters
  always denotes the same types and functions, with different parameters different ones, and its code behaves as if the parameters were written in its place.""",
  ["programs"], "all small macro bodies x argument kinds x call contexts; all parameter tuples of a generic module",
  "Hygiene and single evaluation fail only in particular nestings.",
  [C+"sema_expr.c", C+"sema_decls.c", C+"copying.c", C+"sema_name_resolution.c"],
  [("macro expansion", C+"sema_expr.c"), ("generic instantiation", C+"sema_name_resolution.c"), ("AST copying", C+"copying.c")])
p("C15", "Dynamic calls and any values reach the dynamic type",
  """A call through an interface or any-value runs the method implemented by the value's dynamic type, with its arguments and receiver unchanged, wherever in the program the implementation is registered; optional methods can be tested for presence. Type identity (typeid comparison, any casts, type switches) holds exactly between equal types,
  and conversions between interfaces and any keep pointer and type.""",
  ["programs"], "all implementation matrices of a few types x interfaces x call sites",
  "Dispatch tables are built at start-up from all modules; tests use small fixed sets.",
  [C+"llvm_codegen_expr.c", C+"llvm_codegen.c", C+"sema_decls.c", C+"sema_casts.c", L+"core/private/macho_runtime.c3"],
  [("dynamic symbol tables", C+"llvm_codegen.c"), ("dynamic dispatch lookup", C+"llvm_codegen_expr.c")])
p("C16", "Any source text gets a verdict, never a compiler crash",
  """For every input text, valid or not, the compiler terminates with either success and no error, or at least one error diagnostic naming a location inside the input and a failing exit code; it never crashes, hangs, hits an internal assertion or an invalid intermediate state, and the programs it accepts also get through code generation.""",
  ["inputs", "programs"], "all short token sequences in each syntactic context, all truncations and single-token edits of valid programs",
  "Error paths are far more numerous than the error tests.",
  [C+"parse_expr.c", C+"parse_stmt.c", C+"parse_global.c", C+"lexer.c", C+"sema_expr.c", C+"diagnostics.c"],
  [("poisoning and error recovery", C+"parser_internal.h")])
p("C17", "Compilation is deterministic and independent of threads",
  """The same sources and options give byte-identical outputs and diagnostics whatever the number of codegen threads and their interleaving; every queued task runs exactly once before compilation continues, and the compiler always terminates.""",
  ["schedules", "configurations"], "all interleavings of the task workers; all thread counts",
  "A test runs one schedule.",
  ["src/utils/taskqueue.c", C+"compiler.c", C+"llvm_codegen.c"],
  [("taskqueue_run", "src/utils/taskqueue.c")])
p("C18", "Flow analysis accepts exactly functions that return on every path",
  """A function with a result is accepted only if no path through it can fall off its end, and is not rejected when every path ends in a return, a noreturn call or an endless loop (a loop with a condition is taken to possibly end, a switch to be exhaustive only with a default or all enum values); every accepted function called on any path returns the value of the return statement reached. Code after a jump is never executed.""",
  ["programs"], "all nestings of if/else, loops, switch, labelled jumps and returns up to a size",
  "The suite tests selected shapes only.",
  [C+"sema_stmts.c", C+"sema_decls.c", C+"llvm_codegen_stmt.c"],
  [("jump_end / missing return analysis", C+"sema_stmts.c")])
p("C19", "Reflection and enums describe the program as it is",
  """sizeof, alignof, offsets, member lists, kinds, names, min/max, inner and parent types given by compile-time and run-time reflection agree with the declarations and with the memory the program uses. Enum values keep declaration order, ordinals, names, associated values and lookups by name or ordinal for every enum.""",
  ["programs"], "all small type declarations x all reflection properties",
  "Properties x type kinds; tests print some of them.",
  [C+"sema_expr.c", C+"types.c", C+"llvm_codegen.c", C+"llvm_codegen_type.c", L+"core/types.c3"],
  [("type properties", C+"sema_expr.c"), ("typeid introspection data", C+"llvm_codegen_type.c")])
p("C20", "Contracts are checked on every call in safe mode",
  """In safe mode a call whose arguments violate a @require, or a function call whose result violates an @ensure, panics, whichever way the function or macro is reached (direct, method, function pointer for the callee's own checks, deferred, from another module); a call satisfying them never panics and computes the same as without contracts. A constant violation may be rejected at compile time. The @ensure of a macro is only checked, at compile time, for results known then; an extern function's contracts are checked by its callers.""",
  ["programs", "inputs"], "all small contracts x call forms x argument values",
  "Each violating call is a dying process; few are tested.",
  [C+"sema_decls.c", C+"sema_expr.c", C+"llvm_codegen_function.c", C+"parse_global.c"],
  [("@require on caller and callee", C+"sema_expr.c"), ("@ensure on return", C+"sema_stmts.c")])
p("C21", "Operator overloads are chosen and called as declared",
  """An operator applied to a user type calls exactly the overload whose declared operand types match, with operands in declared order (@operator_r, @operator_s reversed or symmetric), evaluating each operand once; compound assignment, indexing, reference indexing, length and foreach use their respective overloads; derived operators (!= from ==, compound assignment from the plain operator) agree with them.""",
  ["programs"], "all overload sets over two types x operators x operand orders",
  "Overload lookup combines lhs, rhs, symmetric and reverse tables.",
  [C+"sema_expr.c", C+"sema_decls.c", C+"sema_casts.c"],
  [("overload lookup", C+"sema_expr.c")])
p("C22", "Compile-time execution computes what run time would",
  """Compile-time variables, $if/$switch/$for/$foreach, constant slices, string and array concatenation, casts, comparisons, $eval/$typeof/$defined and constant struct/array member access produce the same values as the corresponding run-time code, and compile-time loops unroll exactly the iterations they denote.""",
  ["programs"], "all small compile-time programs paired with their run-time counterpart",
  "Constant evaluation of aggregates is a separate implementation with many shapes.",
  [C+"sema_const.c", C+"sema_expr.c", C+"sema_stmts.c", C+"sema_casts.c", C+"expr.c"],
  [("constant concatenation and subscripting", C+"sema_const.c"), ("compile time statements", C+"sema_stmts.c")])
p("C23", "Optimization and build options do not change behaviour",
  """A program without undefined behaviour prints the same output and ends with the same status at every optimization level, with safety on or off, with or without debug info, single- or multi-module, and whether its sources are given as one file or several in any order.""",
  ["configurations", "programs"], "all programs of the generated corpora x all option sets",
  "The test suite runs at one option set.",
  [C+"llvm_codegen.c", C+"llvm_codegen_function.c", C+"llvm_codegen_expr.c", "src/build/builder.c", C+"compiler.c"],
  [("option defaults per level", "src/build/builder.c")])

# ---------------------------------------------------------------- the build system
p("B01", "Build settings resolve from project file and command line as documented",
  """Every documented project and target setting has its documented effect on the build of that target only: target settings extend or override the project's as their name says, command line options override both, unknown or ill-typed keys are reported, and nothing else changes the build.""",
  ["configurations"], "all settings x levels (project, target, command line) x values",
  "Projects are tested by two examples.",
  ["src/build/project.c", "src/build/builder.c", "src/build/build_options.c", "src/build/common_build.c"],
  [("get_* readers and override rules", "src/build/common_build.c"), ("update_build_target_from_options", "src/build/builder.c")])
p("B02", "JSON documents parse to exactly their content or are rejected",
  """The compiler's reader of project.json and manifest.json accepts every well-formed document (also with comments and trailing commas) and yields its exact keys, strings, numbers, booleans and nesting in order; a malformed document is reported with its line, never accepted, never a crash. Project manipulation commands change only what they are asked to and keep every other key and value of the file (comments are not kept); a refused command leaves the file as it was.""",
  ["inputs"], "all short documents over the JSON alphabet",
  "Only well-formed project files occur in tests.",
  ["src/utils/json.c", "src/build/project_manipulation.c"],
  [("json lexer and parser", "src/utils/json.c"), ("print_json_to_file", "src/build/project_manipulation.c")])
p("B03", "Untrusted code runs nothing at build time",
  """Unless the user grants the trust level ('include' for $include, 'full' for $exec and library or project exec scripts), compiling a program or library never reads included files nor starts a process other than the configured C compiler and linker, and says which trust level is needed; with the level granted the directive takes effect exactly once with the given arguments, and its output is what is compiled. File names, library names and names of linked libraries are only ever passed on as arguments, never run as commands. (Link arguments and the C compiler a project or library names are used as given; the arguments of $exec are joined to a shell command line.)""",
  ["configurations", "programs"], "all trust levels x directive kinds x places (project, target, library, source, macro)",
  "Tests run with full trust or none only.",
  [C+"sema_passes.c", "src/build/libraries.c", C+"compiler.c", "src/build/builder.c"],
  [("trust checks", C+"sema_passes.c")])
p("B04", "Packed libraries unpack exactly and inside their directory",
  """A .c3l archive is used exactly as its directory form would be: every entry (other than hidden ones, whose name starts with a dot) is extracted with its exact bytes under the library's build directory, whatever the compression, sizes and nesting; a changed archive is unpacked anew; a malformed or hostile archive (bad offsets, sizes, checksums, path escapes) is rejected or contained and never writes outside that directory.""",
  ["inputs", "histories"], "all small archives, all single-field corruptions and truncations, sequences of archive changes",
  "No test unpacks an archive.",
  ["src/utils/unzipper.c", "src/build/libraries.c", "src/utils/file_utils.c"],
  [("zip directory iteration and inflate", "src/utils/unzipper.c"), ("checksum cache", "src/build/libraries.c")])
p("B05", "The exit status and the outputs tell whether the build succeeded",
  """A command exits with success only if the requested artifact exists, is complete and comes from the current sources, and the program it runs is that one; when any step (reading, analysis, code output, C compilation, linking, running) fails, the exit status is nonzero with a message, the compiler does not crash, no outdated program is run, and no incomplete executable or library appears (other than a part that a failing external linker leaves).""",
  ["fault_sequences", "crash_points"], "every failing system call or tool at every step of each build command",
  "Tests only build successfully or fail in analysis.",
  [C+"compiler.c", C+"linker.c", "src/utils/file_utils.c", C+"llvm_codegen.c", "src/main.c"],
  [("error_exit and exit codes", C+"compiler.c"), ("platform_linker status", C+"linker.c")])

# ---------------------------------------------------------------- the standard library
p("S01", "Sequence containers behave as sequences",
  """After any sequence of operations, List, ElasticArray, LinkedList, AnyList and RingBuffer hold exactly the elements, in order, that the same operations leave in an abstract sequence (bounded for ElasticArray, last-N for RingBuffer); every query, removal, search, bulk and conversion operation returns what that sequence implies,
  and empty or out-of-range accesses fail as documented. All memory is released when freed and no element outside the sequence is touched.""",
  ["histories", "inputs"], "all operation sequences up to a depth, from empty and from near-capacity states",
  "Unit tests run one scripted history per container.",
  [L+"collections/list.c3", L+"collections/list_common.c3", L+"collections/elastic_array.c3", L+"collections/linkedlist.c3", L+"collections/anylist.c3", L+"collections/ringbuffer.c3"],
  [("List storage growth", L+"collections/list.c3"), ("node linking", L+"collections/linkedlist.c3")])
p("S02", "Hash maps behave as maps",
  """After any sequence of operations a HashMap holds exactly the key/value pairs an abstract map would: set, get, remove, get_or_set, clear, copies, iteration, keys and values agree with it for every key type, also when keys collide and when the table grows; iteration visits each pair exactly once. Memory is released when freed.""",
  ["histories", "inputs"], "all operation sequences up to a depth over colliding keys, capacities and load factors",
  "Collisions and rehash with removals need particular keys; tests use few.",
  [L+"collections/hashmap.c3", L+"core/builtin.c3"],
  [("bucket chains and resize", L+"collections/hashmap.c3")])
p("S03", "Sorting, searching and priority queues order correctly",
  """Quicksort, insertion sort and counting sort leave an ordered permutation of any input under any comparison given, quickselect returns the k-th element, sorted/binary search answer correctly for every key; a priority queue always yields a minimal (maximal) element of what was pushed and not yet popped or removed.""",
  ["inputs", "histories"], "all arrays up to a length over a small alphabet x all key/comparison forms; all push/pop/remove sequences",
  "Random or fixed arrays only.",
  [L+"sort/quicksort.c3", L+"sort/insertionsort.c3", L+"sort/countingsort.c3", L+"sort/binarysearch.c3", L+"sort/sorted.c3", L+"sort/sort.c3", L+"collections/priorityqueue.c3"],
  [("partitioning", L+"sort/quicksort.c3"), ("heap moves", L+"collections/priorityqueue.c3")])
p("S04", "Bit sets, enum sets and maps and bit functions are exact",
  """BitSet, GrowableBitSet, EnumSet and EnumMap represent exactly the set or map built by their operations, for every size and element; ranges contain exactly their values; the bit functions (popcount, leading/trailing zeros, reverse, rotate, byteswap, funnel shifts, bit fields) return the defined value for every argument.""",
  ["histories", "inputs"], "all operation sequences up to a depth over word-boundary elements; all arguments of small widths, boundary arguments of wide ones",
  "Word boundaries are barely tested.",
  [L+"collections/bitset.c3", L+"collections/enumset.c3", L+"collections/enummap.c3", L+"collections/range.c3", L+"bits.c3"],
  [("word index arithmetic", L+"collections/bitset.c3")])
p("S05", "String functions compute their documented result",
  """Trimming, stripping, prefix and suffix tests, splitting and tokenizing (with limits and empty fields), searching for characters, sets and substrings from either end, joining, concatenation, copying, case conversion, and comparison return the documented result for all strings, without reading or writing outside them.""",
  ["inputs"], "all strings up to a length over a small alphabet x all arguments",
  "Overlaps, empty strings and ends of strings are sampled.",
  [L+"core/string.c3", L+"ascii.c3"],
  [("index_of / split loops", L+"core/string.c3")])
p("S06", "Dynamic strings behave as byte sequences",
  """After any sequence of appends, insertions, deletions, replacements, reversals, chops, formats and copies a DString holds exactly the bytes the same operations give an abstract byte sequence, its views and comparisons agree, its zero-terminated view is terminated, and growth never loses, exposes or overwrites memory.""",
  ["histories", "inputs"], "all operation sequences up to a depth with lengths around the capacity, self-insertion included",
  "Each test makes one history.",
  [L+"core/dstring.c3"],
  [("reserve/grow", L+"core/dstring.c3"), ("insert with overlap", L+"core/dstring.c3")])
p("S07", "Unicode conversions are exact and reject malformed input",
  """Conversions between UTF-8, UTF-16 and UTF-32 map every code point to its standard encoding and back, computed lengths equal the produced ones, and the checked converters reject malformed sequences as documented without reading beyond their input; iteration yields the same code points.""",
  ["inputs"], "all code points; all byte and unit sequences up to a length over boundary values",
  "Tests convert a few words.",
  [L+"core/conv.c3", L+"core/string.c3", L+"core/string_iterator.c3"],
  [("utf8_to_char32", L+"core/conv.c3")])
p("S08", "Numbers parsed from text are exact",
  """Parsing an integer of any width in any base accepts exactly the documented numerals and yields their value, failing on overflow, empty or malformed text; parsing a float or double yields the correctly rounded value of the decimal or hexadecimal numeral, and rejects malformed text.""",
  ["inputs"], "all strings up to a length over the digit/sign/prefix alphabet, and all numerals around the limits of each type and around rounding ties",
  "Overflow checks and rounding ties need particular digits.",
  [L+"core/string.c3", L+"core/string_to_real.c3"],
  [("to_integer", L+"core/string.c3"), ("decfloat", L+"core/string_to_real.c3")])
p("S09", "Formatted output is what the format string says",
  """Each format directive (%d %i %u %x %X %o %b %c %s %q %p %f %e %g %a %h with flags, width, precision, and their dynamic forms) prints its argument as documented and as C's printf does where they coincide, for all values of all argument types, padded to at least the width, and reports the number of bytes written; invalid formats are reported as faults.""",
  ["inputs"], "all flag/width/precision/directive combinations x boundary values of each type",
  "Tests cover dozens of the thousands of combinations.",
  [L+"io/formatter.c3", L+"io/formatter_private.c3", L+"io/io.c3"],
  [("ntoa and padding", L+"io/formatter_private.c3"), ("float formatting", L+"io/formatter_private.c3")])
p("S10", "Text encodings round-trip and reject everything else",
  """Hex, base32 and base64 (standard, hex and URL alphabets, with and without padding) encode any bytes to the standard text, decode it back to the same bytes, report exact lengths, and reject texts that are not encodings.""",
  ["inputs"], "all byte strings up to a length over boundary bytes; all texts up to a length",
  "Test vectors only.",
  [L+"encoding/hex.c3", L+"encoding/base32.c3", L+"encoding/base64.c3"],
  [("padding handling", L+"encoding/base64.c3")])
p("S11", "URLs, percent-encoding and internet addresses parse and print faithfully",
  """Percent-encoding and decoding are inverse for every text and mode and encode exactly the reserved characters; parsing a URL yields its components and printing it gives an equivalent URL; query values keep order and multiplicity; IPv4/IPv6 texts parse to exactly the address they denote or are rejected, and print so that they parse back; address classes are exact.""",
  ["inputs"], "all short texts over the delimiting alphabet; all component combinations; all group patterns of addresses",
  "Single examples per scheme are tested.",
  [L+"net/url.c3", L+"net/url_encoding.c3", L+"net/inetaddr.c3"],
  [("Url parse", L+"net/url.c3"), ("ipv6_from_str", L+"net/inetaddr.c3")])
p("S12", "JSON, CSV and dynamic objects carry data unchanged",
  """Parsing a JSON text yields exactly its value (strings with escapes, numbers, nesting) or a fault if malformed, CSV rows and columns are exactly the separated fields, and an Object built, read, changed, cloned or printed keeps exactly the data put in, printing text that parses back to it, releasing all memory when freed.""",
  ["inputs", "histories"], "all short JSON/CSV texts over the structural alphabet; all object operation sequences up to a depth",
  "A couple of documents are tested.",
  [L+"encoding/json.c3", L+"encoding/csv.c3", L+"collections/object.c3"],
  [("JSON lexer", L+"encoding/json.c3"), ("Object accessors", L+"collections/object.c3")])
p("S13", "Hashes, MACs and ciphers equal their standard in any chunking",
  """CRC-32, CRC-64, Adler-32, FNV, MD5, SHA-1, SHA-256, HMAC, PBKDF2 and RC4 of any message equal the published algorithm's result, however the message is split into updates and whatever its length relative to the block size.""",
  ["inputs", "histories"], "all message lengths over several blocks x all splits into up to three updates",
  "Test vectors hash whole messages of few lengths.",
  [L+"hash/md5.c3", L+"hash/sha1.c3", L+"hash/sha256.c3", L+"hash/hmac.c3", L+"hash/crc32.c3", L+"hash/crc64.c3", L+"hash/adler32.c3", L+"hash/fnv32a.c3", L+"hash/fnv64a.c3", L+"crypto/rc4.c3"],
  [("block buffering in update/final", L+"hash/sha256.c3")])
p("S14", "Allocators hand out disjoint, aligned, stable memory",
  """Under any sequence of allocate, zero-allocate, resize, aligned and free operations (and of pool push/pop, reset and clear), every allocator returns memory of at least the requested size and alignment, zeroed if asked, inside its buffer and disjoint from all live blocks, keeps block contents across other operations and resizes, reports exhaustion as a fault, and returns everything to its backing allocator.""",
  ["histories"], "all operation sequences up to a depth over sizes and alignments around the internal limits, for every allocator",
  "Tests make one short history for some allocators.",
  [L+"core/allocators/temp_allocator.c3", L+"core/allocators/arena_allocator.c3", L+"core/allocators/backed_arena_allocator.c3", L+"core/allocators/dynamic_arena.c3", L+"core/allocators/heap_allocator.c3", L+"core/allocators/on_stack_allocator.c3", L+"core/allocators/tracking_allocator.c3", L+"core/allocators/libc_allocator.c3", L+"core/mem_allocator.c3", L+"core/mem.c3"],
  [("headers and alignment arithmetic", L+"core/allocators"), ("pool derivation", L+"core/allocators/temp_allocator.c3")])
p("S15", "Streams deliver every byte once, in order, whatever the chunking",
  """Readers and writers (byte buffer, byte reader/writer, limit reader, multi reader/writer, tee, buffered reader/writer, scanner, varint and integer helpers) transfer exactly the bytes written, in order, for every pattern of short reads, short writes and faults of the underlying stream, and report end of data, positions and available counts correctly.""",
  ["histories", "fault_sequences"], "all operation sequences up to a depth x all short-transfer and fault answers of the underlying stream",
  "Tests use underlying streams that always transfer everything.",
  [L+"io/stream.c3", L+"io/stream/bytebuffer.c3", L+"io/stream/bytereader.c3", L+"io/stream/bytewriter.c3", L+"io/stream/limitreader.c3", L+"io/stream/multireader.c3", L+"io/stream/multiwriter.c3", L+"io/stream/teereader.c3", L+"io/stream/buffer.c3", L+"io/stream/scanner.c3"],
  [("ReadBuffer refill / WriteBuffer flush", L+"io/stream/buffer.c3")])
p("S16", "Paths normalize and decompose consistently",
  """Normalizing a path removes redundant separators and resolves '.' and '..' without changing what it denotes, is idempotent, and rejects invalid paths; append, parent, basename, dirname, extension, volume and absolute form agree with the normalized path for all POSIX and Windows paths.""",
  ["inputs"], "all strings up to a length over the separator/dot/drive alphabet, for both path environments",
  "Tests list some tens of paths.",
  [L+"io/path.c3"],
  [("normalize", L+"io/path.c3")])
p("S17", "Big and 128-bit integer arithmetic is exact",
  """BigInt addition, subtraction, multiplication, division, remainder, shifts, comparison, bit operations, gcd/lcm, modular power, square root and text conversion equal integer arithmetic within its capacity for all signs and sizes; the 128-bit runtime (multiply, divide, remainder, shifts, float conversions) is exact for all operands.""",
  ["inputs"], "all pairs of operands over limb-boundary values",
  "Carry, sign and quotient-estimate corrections need particular limbs.",
  [L+"math/bigint.c3", L+"math/runtime/i128.c3"],
  [("multi_byte_divide", L+"math/bigint.c3"), ("limb carries", L+"math/bigint.c3")])
p("S18", "Dates and times convert exactly",
  """Converting between time stamps and calendar fields (with or without a GMT offset) is exact and invertible for every day of the supported range, calendar arithmetic (add days, months, years) lands on the calendar-correct date, weekday and day of year are right, differences and comparisons agree with the time line, and formatting prints those fields.""",
  ["inputs"], "every day over centuries, month/year steps from every day of a leap cycle, offsets",
  "Some dates are tested.",
  [L+"time/datetime.c3", L+"time/time.c3", L+"time/format.c3", L+"time/os/time_posix.c3"],
  [("timegm/gmtime based conversion", L+"time/datetime.c3")])
p("S19", "Image and bit-level codecs are lossless",
  """QOI encoding then decoding returns the same pixels for every image and channel count, decoding rejects malformed data within its buffer; the bit reader and writer and the byte-order readers and writers return exactly the values written for every width, alignment and order.""",
  ["inputs", "histories"], "all small images over op-selecting pixels; all write width sequences up to a depth; all truncations",
  "Tests use one picture and few widths.",
  [L+"compression/qoi.c3", L+"io/bits.c3", L+"core/bitorder.c3"],
  [("QOI op selection", L+"compression/qoi.c3"), ("bit accumulator", L+"io/bits.c3")])
p("S20", "Numeric helpers obey their definitions",
  """The integer and float helpers (abs, sign, min/max, clamp, gcd/lcm, rounding family, powers, overflow-checked and saturating arithmetic, comparison of floats, classification), complex, quaternion and matrix operations satisfy their defining equations for all arguments; random generators are deterministic in their seed and bounded draws stay within their bounds.""",
  ["inputs"], "all arguments of small types, boundary arguments of large ones; all small integer matrices",
  "Sample values only.",
  [L+"math/math.c3", L+"math/matrix.c3", L+"math/complex.c3", L+"math/quaternion.c3", L+"math/random.c3", L+"math/vector.c3"],
  [("saturating/overflow builtins", L+"math/math.c3"), ("next bounded", L+"math/random.c3")])
p("S21", "Memory primitives, arrays and 2D slices address the right bytes",
  """Copy, move, set, clear, compare, swap, masked and gather/scatter loads and stores, volatile and unaligned access, array index search, concatenation, tail handling and Slice2d views read and write exactly the addressed elements for every size, overlap and alignment; atomic operations return the old value and store the defined new one.""",
  ["inputs"], "all sizes and overlaps up to a bound; all operations x types x boundary values",
  "Few sizes are tested.",
  [L+"core/mem.c3", L+"core/array.c3", L+"core/slice2d.c3", L+"atomic.c3", L+"core/values.c3"],
  [("macros over builtins", L+"core/mem.c3")])

# ---------------------------------------------------------------- threads
p("T01", "Channels deliver each message exactly once, in order, and never lose a wakeup",
  """For any number of senders and receivers and every interleaving, each value successfully pushed to a buffered or unbuffered channel is popped exactly once, in order per sender, an unbuffered push returns only after its value was taken, operations blocked on a channel that can proceed do proceed, and closing wakes everyone, failing later pushes and pops past the remaining values.""",
  ["schedules"], "all interleavings of small sets of push, pop and close threads, up to a preemption bound, spurious wakeups included",
  "A test sees one schedule.",
  [L+"threads/buffered_channel.c3", L+"threads/unbuffered_channel.c3"],
  [("condition variable protocol", L+"threads/buffered_channel.c3")])
p("T02", "Thread pools run every accepted job exactly once",
  """Under every interleaving a job accepted by a thread pool runs exactly once with its own arguments before stop-and-destroy returns; with destroy each runs at most once; pushing to a full fixed pool is refused without effect; destroying always terminates, no job starts after it returned, and all job memory is released.""",
  ["schedules"], "all interleavings of a pushing thread and one or two workers up to a preemption bound",
  "A test sees one schedule.",
  [L+"threads/pool.c3", L+"threads/fixed_pool.c3"],
  [("work queue and shutdown flags", L+"threads/fixed_pool.c3")])
p("T03", "Mutexes, conditions, once flags, threads and events synchronize as documented",
  """Under every interleaving: at most one thread holds a mutex (recursive ones nest), try-lock and timed lock fail exactly when it is held (for the given time), waits release and re-acquire the mutex, timed waits report timeouts, a once flag runs its function exactly once before any caller continues, thread creation passes the given function and argument, join returns its result.""",
  ["schedules", "inputs"], "all interleavings of small thread programs; all timeout values around the unit boundaries",
  "A test sees one schedule.",
  [L+"threads/os/thread_posix.c3", L+"threads/thread.c3", L+"threads/event/event_thread.c3"],
  [("pthread wrappers", L+"threads/os/thread_posix.c3")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
for x in P:
    for fl in x["anchors"]["files"]:
        if not os.path.exists("/repo/" + fl): print("missing", x["id"], fl)
print(len(P))
