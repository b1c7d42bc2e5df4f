#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for the list of properties)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "Integer expressions compute 63-bit two's complement results",
  "Every integer expression built from literals, variables, + - * / unary -, ~ & | ^ << >> evaluates to the mathematically defined result wrapped to signed 63-bit two's complement (division truncates toward zero, >> is arithmetic), with the documented precedence and left associativity and with parentheses overriding them. Decimal and hexadecimal literals denote their exact value, and a literal that does not fit in 63 bits is rejected at compile time.",
  ["inputs", "programs"], "all expression shapes, operator sequences and operand values",
  "tests/arith.clara and tests/bits.clara sample a few dozen expressions, nearly all with small operands and one or two operators",
  ["codegen.go", "parse.go", "lex/lex.go", "semantic.go", "peep.go"],
  [("operator code generation and int tagging", "codegen.go genExpr/tagAs/untagAs"), ("operator precedence parsing", "parse.go parseExpr, lex/lex.go Precedence"), ("literal range check and folding of negative literals", "semantic.go foldConstants")],
  ["stdout of compiled programs", "diagnostics of the compiler"])

p("C02", "Comparisons, boolean operators and ternaries yield the exact truth value",
  "For all operands, == < <= > >= decide the signed order of the two 63-bit integers, and/or/not compute the exact boolean function, and their results behave identically whether stored, passed, printed or used as a condition. A ternary evaluates its condition once and then exactly one of its two branches, and yields that branch's value.",
  ["inputs", "programs"], "all operand values and nestings of boolean expressions",
  "tests/bool.clara samples a handful of literal operand pairs",
  ["codegen.go", "parse.go", "typecheck.go"],
  [("comparison and boolean code generation", "codegen.go genExpr opGt.., opAnd/opOr/opNot, opTernary")],
  ["stdout of compiled programs"])

p("C03", "Operands and arguments are evaluated once, in order, and kept intact",
  "In every call, constructor, operator expression, array literal and index expression the operands are evaluated exactly once from left to right (both operands of and/or included), the right side of an assignment before its target. A value already computed is not altered by evaluating later operands or arguments, whatever those compute, for up to six arguments and any nesting depth.",
  ["programs"], "all nestings of calls and operators with up to six arguments",
  "tests/fns.clara calls functions with simple arguments; no test divides, shifts or nests calls in later argument positions",
  ["codegen.go", "peep.go"],
  [("argument registers are spilled around nested calls", "codegen.go SpillRegisters/RestoreRegisters/genFnCall"), ("intermediate values are pushed while later operands run", "codegen.go save/restore"), ("peephole pass", "peep.go ins")],
  ["stdout of compiled programs, order of side effects"])

p("C04", "Control flow follows if/elseif/else, while, for and return exactly",
  "Exactly the first branch of an if/elseif/else chain whose condition holds runs, a while body runs as long as its condition holds, and return leaves the function at once with its value from any nesting of loops, branches and cases. A range loop visits start, start+1, ... end-1 in order (nothing if start >= end), a range ending in the literal 0 visits start-1 down to 0, and an array loop visits every element in index order after evaluating the array once.",
  ["programs", "inputs"], "all nestings of control statements, conditions and bounds",
  "tests/flow.clara and tests/for.clara run a fixed set of short loops",
  ["codegen.go", "semantic.go", "parse.go", "ast.go"],
  [("statement code generation", "codegen.go genIfElseIfElseStmts/genWhileStmt/genReturnStmt"), ("for lowering", "semantic.go lowerForStatement")],
  ["stdout of compiled programs"])

p("C05", "Variables follow lexical scope and every call has its own locals",
  "A name always denotes the innermost declaration visible at that point; a declaration in a block, loop body, case or inner function shadows but never overwrites an outer variable of the same name and ends with its block. Every activation of a function, including recursive and mutually recursive ones, has its own parameters and locals, and assigning a parameter never changes the caller's variable.",
  ["programs"], "all nestings of scopes, shadowing and recursion",
  "existing tests contain almost no shadowing and only one-level recursion",
  ["typecheck.go", "symtab.go", "codegen.go"],
  [("scope tables", "symtab.go SymTab"), ("stack slot assignment", "codegen.go genFunc")],
  ["stdout of compiled programs"])

p("C06", "Closures capture the values of the variables they use at creation",
  "A function value that uses variables of enclosing functions sees, on every call and from anywhere, the values those variables had when the function value was created, independent of later assignments to them, of other instances of the same function value and of nesting depth. Captured structs and arrays are shared by reference, and function values without captured variables behave like named functions.",
  ["programs", "histories"], "all closures, capture sets (up to six variables), nestings and call sites",
  "tests/closures.clara covers a few fixed closures; none with colliding names, indexes or selectors of captured variables",
  ["closures.go", "codegen.go", "install/lib/runtime.clara"],
  [("free variable analysis and rewriting", "closures.go"), ("dynamic invocation", "install/lib/runtime.clara invokeDynamic")],
  ["stdout of compiled programs"])

p("C07", "Calls reach the function selected by name and argument types",
  "A call runs the overload whose parameter types match the argument types (the one declared first if several do), x.f(y) is the same call as f(x, y) unless the struct x has a field f, and a generic function behaves the same at every type it is used with. Named functions, overloads chosen by expected type and function values stored in variables, fields, arrays or returned from calls can be called with up to five arguments with the same result as calling the function directly.",
  ["programs"], "all overload sets, receiver forms, type instantiations and function value paths",
  "tests/fns.clara and tests/generics.clara exercise a few overload sets and instantiations",
  ["typecheck.go", "symtab.go", "closures.go", "codegen.go"],
  [("overload resolution and type parameter binding", "typecheck.go matchFuncCallBySymbol/matchFuncCallByType"), ("unique function names", "symtab.go AsmName")],
  ["stdout of compiled programs"])

p("C08", "Structs are shared references whose fields read back the last write",
  "A constructor stores each argument in the field of the same position, reading a field yields the value most recently written to that field of that object through any alias (variables, parameters, other structs, arrays, closures), and no write changes any other field or object. This holds for every number of fields up to six, every nesting and generic structs.",
  ["programs", "histories"], "all sequences of constructions, aliasing and field writes",
  "tests/structs.clara performs a few reads and writes on fixed structs",
  ["codegen.go", "semantic.go", "typecheck.go"],
  [("constructors", "codegen.go genConstructor, semantic.go generateStructConstructor"), ("field offsets", "codegen.go opDot")],
  ["stdout of compiled programs"])

p("C09", "A match runs exactly the case of the value's constructor",
  "For every enum value a match statement evaluates the matched expression once and runs exactly the case naming its constructor, with the case variables bound in order to the values given at construction, whatever the order of the cases, the number of constructors and parameters (up to five) and the nesting of matches.",
  ["programs"], "all enum declarations, values and match statements",
  "tests/enums.clara matches on a few fixed enums in declaration order",
  ["semantic.go", "typecheck.go", "codegen.go", "install/lib/enums.clara"],
  [("match lowering", "semantic.go lowerMatchStatement"), ("constructor tags", "codegen.go genConstructor, semantic.go processTopLevelTypes")],
  ["stdout of compiled programs"])

p("C10", "Array elements read back the last write and bad indexes stop the program",
  "An array of any length and element type yields for every index in 0..length-1 the value most recently written there (literals and array constructors included) and length reports its size; aliases see the same elements and no write affects other elements or arrays. Any read or write with an index outside 0..length-1, of any 63-bit value, performs no access and stops the program with exit status 1 and a message naming the index and the length, after all earlier output. Asking for an array of negative length or of one that memory cannot hold stops the program in the same way.",
  ["programs", "inputs", "histories"], "all arrays, indexes and access sequences",
  "tests/arrays.clara and tests/panic/ioob.clara use a few small arrays and one bad index",
  ["codegen.go", "install/lib/arrays.clara", "install/lib/runtime.clara", "semantic.go"],
  [("bounds check", "codegen.go opArray, genIoobTrampoline"), ("array construction", "install/lib/arrays.clara")],
  ["stdout and exit status of compiled programs"])

p("C11", "Byte access to bytes and strings is exact and bounds checked",
  "Reading byte i of a bytes value yields the last value written there reduced to a signed byte (zero if never written), reading byte i of a string yields its i-th byte, and neither affects neighbouring bytes or objects. Every index outside 0..length-1, negative ones included, stops the program with exit status 1 before any access.",
  ["inputs", "histories"], "all lengths, indexes, byte values and access sequences",
  "tests/bytes.clara and tests/panic/bytes.clara touch a few in-range bytes and one index past the end",
  ["install/lib/bytes.clara", "install/lib/strings.clara", "codegen.go"],
  [("index assertions", "install/lib/bytes.clara get/set, install/lib/strings.clara byte"), ("raw byte access", "codegen.go genRead/genWrite")],
  ["stdout and exit status of compiled programs"])

p("C12", "String and byte buffer operations agree with byte sequences",
  "String literals hold exactly the bytes written (escapes decoded), and length, append, Equals, Substring(start, end) within range, IndexOf (with and without start position), and byte buffer append/size/substring/reset/toString for any initial capacity compute what the corresponding operations on byte sequences compute, for all contents including empty strings and non-ASCII or zero bytes. Strings are never modified by later operations on the values they were made from.",
  ["inputs", "histories"], "all strings and sequences of string and buffer operations",
  "tests/strings.clara checks IndexOf and a few operations on fixed ASCII strings",
  ["install/lib/strings.clara", "install/lib/arrays.clara", "asm.go", "lex/lex.go"],
  [("string library", "install/lib/strings.clara"), ("copy loop", "install/lib/arrays.clara copyArray"), ("literal emission", "asm.go flush")],
  ["stdout of compiled programs"])

p("C13", "Conversions, mod and hashing are exact for every value",
  "For every 63-bit integer, toString yields its shortest decimal form, toBinary its 63 binary digits grouped from the right in eights, printing as decimal or hexadecimal shows its value, and mod(i, m) equals the remainder of truncated division. fnv1a yields the standard 32-bit FNV-1a hash of every string.",
  ["inputs"], "all integers and all strings",
  "tests/core.clara and tests/hash.clara check a few dozen values",
  ["install/lib/core.clara", "install/lib/hash.clara"],
  [("conversions", "install/lib/core.clara"), ("hash", "install/lib/hash.clara fnv1a")],
  ["stdout of compiled programs"])

p("C14", "The hash map behaves as a finite map under every operation history",
  "After any sequence of put, remove and get with any non-negative hash function (colliding ones included) and any key equality, get/contains/orElse report exactly the last value put for each key and not since removed, put and remove return the previous value if any, size counts the keys, and foreach visits each entry exactly once. This holds across growth of the table and for any number of entries.",
  ["histories"], "all operation histories, key sets and hash functions",
  "tests/maps.clara runs one fixed history with few keys",
  ["install/lib/map.clara", "install/lib/list.clara"],
  [("buckets, search and resize", "install/lib/map.clara")],
  ["stdout of compiled programs"], [dict(name="buckets/size/threshold", meaning="hash table", where="install/lib/map.clara")])

p("C15", "List, option and result functions agree with their mathematical meaning",
  "For every list, toList, append (which adds at the front), reverse, map, find, foreach, reduce and remove (first match, order of the rest kept) compute what the same operations compute on sequences and leave the original list unchanged. For every option and result, map, filter, peek, orElse, then, isSome and isNone apply the function exactly to a present (successful) value and pass an absent or failed value through unchanged.",
  ["inputs", "histories"], "all lists, options, results and functions passed",
  "tests touch list, option and result functions only through a few fixed calls",
  ["install/lib/list.clara", "install/lib/functional.clara"],
  [("library functions", "install/lib/list.clara, install/lib/functional.clara")],
  ["stdout of compiled programs"])

p("C16", "Garbage collection never changes what a program computes",
  "Whatever a program allocates and whenever collections happen, every object that is still reachable from a variable in scope of an active call, from a value already computed in an unfinished expression or argument list, from a captured variable or from the program's arguments and environment keeps its contents. A program therefore behaves exactly as if memory were never reclaimed.",
  ["programs", "schedules", "histories"], "all programs and all points at which an allocation can trigger a collection",
  "the only GC test is disabled or failing; other tests rarely hold a fresh object only in an intermediate value across an allocation",
  ["codegen.go", "gc.go", "install/lib/gc.clara", "install/lib/mem.clara", "install/lib/runtime.clara"],
  [("root maps at call sites", "codegen.go NewGcMap, gc.go GcState"), ("mark and sweep", "install/lib/gc.clara"), ("object layouts", "codegen.go genTypeInfoTable")],
  ["stdout of compiled programs run with an allocator that poisons freed memory", "frees of tracked objects"])

p("C17", "Unreachable objects are reclaimed by a collection",
  "After a collection, every object allocated by the program that can no longer be reached from the variables of active calls (directly or through structs, arrays, enums and closures, cycles included) has been released to the allocator exactly once. Variables of blocks that have ended and of calls that have returned keep nothing alive.",
  ["histories", "programs"], "all histories of allocating, linking and dropping objects",
  "no test observes reclamation",
  ["install/lib/gc.clara", "install/lib/mem.clara", "gc.go", "codegen.go"],
  [("sweep", "install/lib/gc.clara gcSweep"), ("root scopes", "gc.go OpenScope/CloseScope")],
  ["allocator calls of compiled programs"])

p("C18", "Programs that break the type rules are rejected",
  "A program in which an operator, condition, index, assignment, argument list, return value, field selection, type argument or case does not satisfy the type rules is never compiled: the compiler exits with status 1, reports an error and leaves no executable. This includes errors nested inside function values, array literals, ternaries, loops and cases. A program that satisfies all type rules is compiled.",
  ["programs"], "all programs with a type error at any place",
  "no test compiles an ill-typed program",
  ["typecheck.go", "semantic.go", "symtab.go"],
  [("type checker", "typecheck.go"), ("type matching", "symtab.go Matches/PolyMatch")],
  ["exit status, diagnostics and output directory of the compiler"])

p("C19", "Programs that satisfy the rules of the language are accepted",
  "Every program that satisfies the grammar, declaration and type rules and the documented limits compiles without errors to an executable, whatever identifiers, declaration order, nesting, overload sets and type instantiations it uses.",
  ["programs"], "all valid programs",
  "tests compile 23 fixed programs",
  ["parse.go", "semantic.go", "typecheck.go", "closures.go", "codegen.go", "asm.go", "main.go"],
  [("whole pipeline", "main.go Compile")],
  ["exit status and output of the compiler"])

p("C20", "The compiler always terminates with an executable or with diagnostics",
  "For every input file the compiler terminates without crashing: either it exits 0 and has written an executable, or it exits 1, reports at least one error and has not written an executable. A file that ends inside a declaration is never accepted.",
  ["inputs"], "all byte strings as program text",
  "the tests feed only valid programs to the compiler",
  ["lex/lex.go", "parse.go", "typecheck.go", "semantic.go", "codegen.go", "main.go"],
  [("error recovery", "parse.go need/syntaxError/onUnexpectedEof"), ("phases stop on errors", "main.go Compile")],
  ["exit status, stdout and output directory of the compiler"])

p("C21", "Diagnostics name the file, line and column of the offending construct",
  "Every type or declaration error is reported with the program's file name and the 1-based line and character column of a token of the offending construct, on the first as on any other line and after any multi-byte characters; the first diagnostic for ill-formed text is at the first token (or character) that cannot continue a program. Independent errors of the same kind in different functions are each reported, and correct functions are not blamed.",
  ["inputs", "programs"], "all erroneous programs and positions",
  "no test looks at a diagnostic",
  ["lex/lex.go", "parse.go", "typecheck.go", "semantic.go"],
  [("token positions", "lex/lex.go linePos/lineNumber"), ("error reporting", "semantic.go semanticError, parse.go syntaxError")],
  ["diagnostics of the compiler"])

p("C22", "Lexing tiles the input with correctly classified tokens",
  "For every input the token stream covers the text in order without gaps or overlaps up to the end of input or the first error, each token being the longest match of its kind (keywords only as whole words), with its 1-based line and column. Malformed text (unclosed strings, unknown escapes, unknown characters, hexadecimal literals without digits) yields an error token and nothing is accepted after it.",
  ["inputs"], "all character strings",
  "lex/lex_test.go checks the kinds of some twenty fixed strings and no positions",
  ["lex/lex.go"],
  [("state machine", "lex/lex.go lexText and friends")],
  ["tokens returned by the lexer"])

p("C23", "Programs see their exact arguments and environment",
  "A compiled program finds in its runtime arguments exactly the strings it was started with, in order, whatever bytes, options or lengths they have, and in its runtime environment exactly the variables it was started with, values containing = or empty values included.",
  ["inputs", "configurations"], "all argument vectors and environments",
  "tests/runtime.clara looks up one variable and passes no arguments",
  ["install/init/bootstrap.c", "install/lib/runtime.clara"],
  [("argument and environment parsing", "install/lib/runtime.clara parseArgs/parseEnv"), ("option parsing", "install/init/bootstrap.c")],
  ["stdout of compiled programs"])

p("C24", "Reading files returns exact contents or the right error",
  "Opening an existing readable file and reading it yields exactly its bytes for any size and content and reports its size without moving its position. When opening or reading fails the program receives an error naming the path and describing the cause, and continues.",
  ["inputs", "fault_sequences"], "all file contents, sizes and failing operations",
  "no test reads a file",
  ["install/lib/fs.clara", "install/lib/io.clara", "install/lib/err.clara", "install/init/runtime.c"],
  [("file functions", "install/lib/fs.clara, install/lib/io.clara"), ("error descriptions", "install/lib/err.clara")],
  ["stdout of compiled programs"])

p("C25", "Panics stop the program at once with their message and status 1",
  "A panic or failed assertion anywhere, at any call depth and inside loops, matches and function values, ends the program with exit status 1 after all earlier output and the panic message, and nothing after it is executed. A program that does not panic or exit runs to the end of main and ends with status 0, and exit(n) ends it with status n.",
  ["programs"], "all programs and points at which a panic occurs",
  "tests/panic holds two fixed programs and does not check exit statuses or output order",
  ["install/lib/runtime.clara", "install/init/bootstrap.c", "codegen.go"],
  [("panic, assert, exit", "install/lib/runtime.clara")],
  ["stdout and exit status of compiled programs"])

p("C26", "Declaration rules are enforced",
  "The compiler rejects every program that uses an undeclared or out-of-scope name, redeclares a name in the same scope (variables, parameters, fields, type parameters, types, functions with equal parameter types, enum constructors), misses a return on some path of a function with a result, has a match that is not exhaustive or repeats or invents cases, or exceeds the documented limits on parameters. Uses that only shadow an outer declaration are accepted.",
  ["programs"], "all declaration structures",
  "no test compiles a program with a declaration error",
  ["semantic.go", "typecheck.go", "ast.go", "symtab.go"],
  [("redeclaration checks", "semantic.go processTopLevelTypes/processFnType, typecheck.go opDas"), ("termination analysis", "ast.go isTerminating"), ("exhaustiveness", "typecheck.go opMatch")],
  ["exit status and diagnostics of the compiler"])

p("C27", "Compilations are independent of each other and repeatable",
  "Compiling a program any number of times, alone or while other compilations of the same or other programs (same file name included) run at the same time, always yields an executable, named like the program's file without its extension, with that program's behaviour, or that program's diagnostics. A compilation leaves no other files behind, and a failing one does not disturb executables of others.",
  ["schedules", "configurations"], "all interleavings of concurrent compilations and all repetitions",
  "the tests are run one at a time because the suite itself cannot run the compiler concurrently",
  ["main.go", "closures.go", "asm.go", "codegen.go"],
  [("temporary assembly file", "main.go Compile")],
  ["executables, diagnostics and files produced by concurrent compiler processes"])

p("C28", "External C functions receive the argument values and an aligned stack",
  "A call to an external function passes each argument, in order and for up to six arguments, as its C value (raw integer, pointer to the characters or elements when raw values are requested; the unconverted value otherwise) with the stack aligned as the C ABI requires, from any call depth and expression context. The integer result is converted back exactly and variables and other intermediate values of the caller are unaffected.",
  ["programs"], "all external signatures, argument values and calling contexts",
  "tests call printf and a few libc functions from simple statement contexts",
  ["codegen.go"],
  [("raw value conversion and stack alignment", "codegen.go genFnCall")],
  ["arguments and stack pointer observed inside a C function linked into compiled programs"])

p("C29", "Layout and comments do not change the meaning of a program",
  "Adding, removing or changing spaces, line breaks and comments between tokens (where the tokens remain separate) never changes whether a program is accepted, what it computes, or which construct a diagnostic blames. Renaming variables consistently to other fresh identifiers and redundant parentheses around expressions do not either.",
  ["programs", "inputs"], "all programs and layouts",
  "each test program exists in one layout",
  ["lex/lex.go", "parse.go", "main.go"],
  [("whitespace and comment tokens are dropped", "main.go lexAndParse")],
  ["stdout of compiled programs, diagnostics of the compiler"])

p("C30", "Options that show intermediate results change nothing else",
  "Compiling with any combination of -lex, -types, -ast, -asm and -in accepts and rejects the same programs as compiling without them, with the same diagnostics in the same order and the same exit status, and yields an executable with the same behaviour. With -lex the compiler lists every token of the program (spaces, line ends and comments left out), each with its line, column and text, up to the end of the file.",
  ["programs", "inputs"], "all programs and all combinations of options",
  "the tests call the compiler with one fixed set of options",
  ["main.go", "ast.go", "lex/lex.go", "console/consts.go"],
  [("printing of tokens, nodes and types between the passes", "main.go Compile, printLex, printTree, printTypeInfo")],
  ["output, exit status and executable of clarac"])

p("C31", "The clock is reported exactly",
  "Now() yields the seconds and microseconds the system reports at that call, each call anew, as a time value that later calls and collections do not alter. toMicros is sec * 1000000 + usec, toMillis and toSecs are that divided by 1000 and 1000000 and truncated toward zero, for every time whose microseconds fit an int.",
  ["inputs", "histories"], "all clock readings",
  "no test calls the clock; its values cannot be foreseen without controlling the system's answer",
  ["install/lib/time.clara", "codegen.go"],
  [("reading the system clock and the conversions", "install/lib/time.clara")],
  ["stdout of compiled programs under a controlled clock"])

p("C32", "The collector's log is truthful and does not disturb the program",
  "Started with -g or --gc.debug a program prints the same output (the log's lines apart) and ends with the same status as without, where nothing is logged. The log accounts for the heap: every block allocated is announced with an address not in use; in a collection each block found is reported newly marked once and as already marked thereafter, no block that was never allocated or is already reclaimed is ever marked or reclaimed, and exactly the live blocks not marked are reclaimed before the collection ends.",
  ["programs", "histories"], "all programs and all histories of allocations and collections",
  "no test starts a program with these options",
  ["install/lib/gc.clara", "install/lib/mem.clara", "install/init/runtime.c", "install/init/bootstrap.c"],
  [("mark and sweep with their log", "install/lib/gc.clara gcMark/gcSweep"), ("allocation", "install/lib/mem.clara claralloc"), ("options of compiled programs", "install/init/bootstrap.c main")],
  ["output and status of compiled programs started with the option"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
