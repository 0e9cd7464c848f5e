#!/usr/bin/env python3
# Source of properties.jsonl: edit here, then run  python3 tools/props.py
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":m,"where":w} for m,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Integer arithmetic is exact 63-bit two's complement",
"In a compiled Clara program `+`, `-`, `*`, unary `-`, `/` and the library's `mod` on ints yield the two's-complement 63-bit result (division truncates towards zero and `mod` takes the sign of the dividend) for every operand value, whether the operands are variables, literals, call results, fields or array elements, and however the operations are nested. Evaluating an arithmetic expression changes no other variable.",
["inputs","programs"],"all 63-bit operand values (divisor non-zero), for every operator and operand shape in the probe programs",
"tests/arith.clara evaluates a handful of constants; no run can cover 2^126 operand pairs or every operand shape",
["codegen.go","peep.go","asm.go","install/lib/core.clara"],
[("genExpr arithmetic cases, tag/untag","codegen.go"),("instruction fusing","peep.go"),("mod","install/lib/core.clara")],["values passed to an external function"])
p("C02","Bitwise and shift operators act on the 63-bit value",
"In a compiled Clara program `&`, `|`, `^`, `~`, `<<` and `>>` on ints yield the bitwise result on the 63-bit two's-complement value (`>>` is an arithmetic shift) for every operand value, with shift counts 0 to 62, for variable, literal and nested operands.",
["inputs","programs"],"all 63-bit operands and all shift counts in 0..62",
"tests/bits.clara uses about ten constants",
["codegen.go","peep.go"],[("genExpr bitwise cases, tag/untag","codegen.go"),("ins table","codegen.go")],["values passed to an external function"])
p("C03","Comparisons and boolean operators give the right truth value",
"In a compiled Clara program `<`, `<=`, `>`, `>=` and `==` compare ints as signed 63-bit numbers, and `and`, `or`, `not` compute the boolean function of their operands, for every operand value, and the result selects the right branch when used as the condition of `if`, `elseif`, `while` or `?:`.",
["inputs","programs"],"all 63-bit operand pairs and all boolean operands",
"tests/flow.clara and tests/bool.clara compare a few small constants; sign and extreme-value errors need particular values",
["codegen.go"],[("genExpr comparison and boolean cases","codegen.go"),("condition tests","codegen.go genIfElseIfElseStmts/genWhileStmt/opTernary")],["values passed to an external function"])
p("C04","Integer literals denote their value or are rejected",
"A decimal or hexadecimal integer literal (optionally negated) whose value fits in 63 bits evaluates to exactly that value in the compiled program, and a literal outside -2^62 .. 2^62-1 is rejected with a compile error instead of being altered.",
["inputs","programs"],"all digit strings up to the stated length, decimal and hexadecimal, positive and negated",
"tests use a few literals, none near the 32-bit or 63-bit boundary",
["lex/lex.go","semantic.go","codegen.go"],[("foldConstants","semantic.go"),("genExpr opLit","codegen.go"),("lexHexOrDecInteger","lex/lex.go")],["compile errors","emitted assembly","values passed to an external function"])
p("C05","Operators group by the documented precedence",
"An expression without parentheses means the same as its fully parenthesised form under the language's precedence order (calls, selection, prefix not/~, `* /`, `+ -`, shifts, relational, `==`, `&`, `^`, `|`, `and`, then `or` and `?:`), with binary operators of equal precedence grouping to the left and `?:` to the right; parentheses override it.",
["programs","inputs"],"every ordered pair of binary operators, prefix/binary combinations and ternary nestings that type-check, for all operand values",
"the tests parse a few fixed expressions; there are hundreds of operator pairs and grouping errors show only for particular operand values",
["lex/lex.go","parse.go"],[("Precedence, Associativity","lex/lex.go"),("parseExpr, parseBinaryOperator, parsePrefixOperator, parseTernaryOperator","parse.go")],["values computed by the compiled program"])
p("C06","String literals keep their bytes and length",
"A string literal in source (printable ASCII or UTF-8 text with the escapes \\n, \\r, \\\\ and \\\") is, in the compiled program, a string whose length is the number of bytes it denotes and whose bytes are exactly those, followed by a NUL; distinct literals are distinct strings and anything that is not a well-formed literal is rejected with a compile error, never a compiler crash.",
["inputs","programs"],"all literal bodies up to the stated number of bytes",
"tests/strings.clara contains a few fixed literals",
["lex/lex.go","asm.go","codegen.go"],[("lexString, isEscape","lex/lex.go"),("stringLit, flush","asm.go")],["emitted assembly","compile errors"])
p("C07","The lexer is lossless, maximal-munch and terminates",
"For every source text the lexer ends with exactly one end-of-file or error token; up to that point the token texts concatenated in order are exactly the source, each token's kind is determined by its text (keywords, identifiers, numbers, strings, comments, longest operator first), and each token reports the line on which it starts.",
["inputs"],"all byte strings up to the stated length over the full byte alphabet, and longer ones over the language's significant characters",
"lex/lex_test.go lexes a dozen fixed strings",
["lex/lex.go"],[("lexText and the state functions","lex/lex.go"),("emit, linePos, lineNumber","lex/lex.go")],["Lex / NextToken"])
p("C08","Source is parsed completely or rejected with an error",
"Compiling any source text either reports at least one error or parses every declaration and statement in it: no token is silently dropped, a program with a missing or surplus token is rejected, and lexing and parsing neither crash nor hang.",
["inputs","programs"],"all token sequences up to the stated length, and all single-token insertions, deletions and replacements in the sample programs",
"the tests parse well-formed programs only",
["parse.go","main.go"],[("Parse, need, next, syntaxError, onUnexpectedEof","parse.go"),("lexAndParse","main.go")],["errors returned by the compiler","parsed tree"])
p("C09","Operators are only accepted on operands of the right type",
"The compiler accepts a unary or binary operator application exactly when its operands have the required types (ints for arithmetic, bitwise, shift, ordering, equality and ranges; bools for `and`, `or`, `not`; array and int for indexing) and otherwise reports an error; it never crashes on an ill-typed one.",
["programs"],"every operator applied to every combination of operand types in the stated set",
"main_test.go compiles well-typed programs only, so nothing tests rejection",
["typecheck.go","semantic.go","codegen.go"],[("typeCheck operator cases","typecheck.go"),("operatorTypes","semantic.go")],["compile errors"])
p("C10","Values flow only into places of their own type",
"The compiler accepts a call, assignment, return, field initialiser, array element, ternary branch or condition exactly when the value's type equals the type required there (with the right number of arguments), and rejects unknown names, duplicate declarations, assignment to a length and assignment to something that is not a variable, field or element, with an error and without crashing.",
["programs"],"every pairing of the stated types at every kind of value position, argument counts 0..7",
"the tests contain no ill-typed program",
["typecheck.go","symtab.go","semantic.go","ast.go"],[("typeCheck, typeCheckFuncCall, typeCheckTernary, typeCheckArrayLit","typecheck.go"),("MatchesImpl","symtab.go")],["compile errors"])
p("C11","Calls resolve to the overload and type instance they name",
"A call to an overloaded function runs the declaration whose parameter types equal the argument types, a call to a generic function or constructor binds each type parameter consistently across its arguments, and a call that matches none, or binds a parameter inconsistently, or leaves a result type parameter unbound, is rejected.",
["programs","inputs"],"every pair of overloads over the stated types and every argument type, for all argument values",
"tests/generics.clara and tests/fns.clara exercise a few combinations",
["typecheck.go","symtab.go"],[("matchFuncCallBySymbol, matchFuncCallByType, substituteType","typecheck.go"),("PolyMatch, AsmName","symtab.go")],["which function body runs","compile errors"])
p("C12","Control-flow statements run the right bodies the right number of times",
"`if/elseif/else` runs exactly the body of the first true condition, `while` repeats while its condition holds, `for x in array` visits each element once in order, `for i in a .. b` visits a..b-1 ascending (except that a literal 0 as the end counts down, visiting a-1..0), `?:` evaluates only the chosen branch, and `return` leaves the function at once from any nesting, for all values and nestings.",
["inputs","programs"],"all condition values and loop bounds within the stated size, nested to the stated depth",
"tests/flow.clara and tests/for.clara use fixed counts",
["semantic.go","codegen.go"],[("lowerForStatement","semantic.go"),("genWhileStmt, genIfElseIfElseStmts, genReturnStmt","codegen.go")],["sequence of external calls"])
p("C13","match runs the case of the value's constructor with its fields",
"A `match` over an enum value runs exactly the case naming the constructor that built it, binding each case variable to the corresponding constructor argument and evaluating the matched expression once, for every enum shape (1..5 cases, 0..5 fields, generic or not); a match that misses, repeats or misnames a case is rejected.",
["inputs","programs"],"all constructor choices and field values for the stated enum shapes",
"tests/enums.clara matches a few fixed values",
["semantic.go","typecheck.go","codegen.go"],[("lowerMatchStatement","semantic.go"),("typeCheck opMatch, typeCheckCase","typecheck.go"),("genConstructor","codegen.go")],["sequence of external calls","compile errors"])
p("C14","Calls pass arguments and results faithfully, evaluating each once",
"A call evaluates its arguments exactly once, left to right, passes each value to the parameter in the same position, returns the callee's result and preserves the caller's variables and pending operands, for direct, dot-selection, nested, recursive and function-value calls with 0 to 6 arguments (0 to 5 for function values).",
["inputs","programs"],"all argument values for the stated call shapes",
"tests/fns.clara checks fixed calls with small constants",
["codegen.go","closures.go","typecheck.go"],[("genFnCall, SpillRegisters, RestoreRegisters","codegen.go"),("invokeDynamic","install/lib/runtime.clara"),("dot-selection rewrite","typecheck.go")],["sequence of external calls"])
p("C15","Closures capture exactly the variables they use",
"Calling a closure computes its body with every free variable standing for the value that variable had when the closure was created (or was last given by that closure), wherever in the body the variable occurs (operand, index, call argument, receiver, condition, nested block or nested closure), with up to 6 captured variables, and distinct closures do not share captured state.",
["inputs","programs"],"all captured and argument values for the stated closure shapes",
"tests/closures.clara has a few fixed closures",
["closures.go"],[("clIdentifyFreeVars, clRewriteFreeVars","closures.go"),("invokeDynamic, isClosure","install/lib/runtime.clara")],["sequence of external calls"])
p("C16","Names refer to the innermost declaration in scope",
"A variable reference denotes the innermost enclosing declaration of that name, inner declarations shadow outer ones without altering them, sibling blocks' variables are independent, and a name used outside its block or declared twice in one block is rejected.",
["inputs","programs"],"all values for the stated nestings of blocks, loops, cases and closures",
"no test reuses a name in nested scopes with observable values",
["symtab.go","typecheck.go","codegen.go"],[("SymTab.Child/Define/Resolve","symtab.go"),("stack slot assignment","codegen.go genFunc")],["sequence of external calls","compile errors"])
p("C17","Structs hold and update their fields independently",
"A struct constructor stores each argument in its own field, reading a field returns the last value stored in it, assigning one field changes no other field or object, and all references to the same struct observe the update, for structs of 1 to 6 fields of any type including nested structs.",
["inputs","programs"],"all field values for the stated struct shapes",
"tests/structs.clara checks fixed values",
["codegen.go","semantic.go"],[("genConstructor, opDot","codegen.go"),("generateStructConstructor, field offsets","semantic.go")],["sequence of external calls"])
p("C18","Array access is bounds-checked and exact",
"Indexing an array reads or writes exactly the addressed element when 0 <= index < length and otherwise stops the program with a non-zero exit before any memory is touched, for every 63-bit index; a new array has the requested length and every element equals the supplied default or literal element.",
["inputs"],"all 63-bit indices, lengths 0..N",
"tests/panic/ioob.clara tries one bad index",
["codegen.go","install/lib/arrays.clara","semantic.go"],[("opArray bounds check, ioob trampoline","codegen.go"),("array, initWith","install/lib/arrays.clara"),("rewriteArrayLiteralExpr","semantic.go")],["sequence of external calls","exit status"])
p("C19","bytes and string access is bounds-checked and exact",
"`get`/`set` on bytes and `byte` on strings touch exactly the addressed byte when 0 <= index < length and otherwise stop the program with a non-zero exit, for every 63-bit index and value; a written byte reads back as its low 8 bits sign-extended and no other byte changes.",
["inputs"],"all 63-bit indices and values, lengths 0..N",
"tests/panic/bytes.clara tries one bad index",
["install/lib/bytes.clara","install/lib/strings.clara","codegen.go"],[("get, set","install/lib/bytes.clara"),("byte","install/lib/strings.clara"),("genRead, genWrite","codegen.go")],["sequence of external calls","exit status"])
p("C20","The collector never frees or corrupts a reachable object",
"In every program, an object that the program can still reach through a variable, parameter, pending operand or argument, field, array element, captured variable or runtime global survives every allocation unchanged; no read, write or collection touches freed memory or memory outside an object.",
["programs","inputs","histories"],"the stated program shapes, with a collection at every allocation, for all input values",
"a missed root corrupts memory silently and depends on where an allocation falls; tests/gc.clara only runs one program",
["gc.go","codegen.go","install/lib/gc.clara","install/lib/mem.clara","semantic.go"],[("GcState, NewGcMap","gc.go, codegen.go"),("gcMark, gcSweep","install/lib/gc.clara"),("claralloc","install/lib/mem.clara")],["memory accesses of the compiled program","sequence of external calls"])
p("C21","The collector reclaims unreachable objects",
"Once an object is unreachable, the next collection frees it exactly once: the number of live heap objects after a collection equals the number reachable, so a loop that drops its objects runs in bounded memory.",
["programs","histories"],"the stated program shapes and loop counts, for all input values",
"the existing test only runs out of memory",
["gc.go","install/lib/gc.clara","codegen.go"],[("gcSweep","install/lib/gc.clara"),("CloseScope","gc.go")],["allocator calls of the compiled program"])
p("C22","String functions agree with their definition on bytes",
"`Equals` holds exactly for equal byte sequences, `append` yields the concatenation, `Substring(start, end)` yields bytes start..end-1 and `IndexOf(sub, from)` the least matching position at or after `from` (or -1; 0 for an empty `sub`), for all strings and in-range arguments; results are NUL-terminated and operands are unchanged.",
["inputs"],"all byte contents of strings up to the stated lengths, all in-range positions",
"tests/strings.clara checks a few literals",
["install/lib/strings.clara","install/lib/arrays.clara"],[("Equals, append, Substring, IndexOf","install/lib/strings.clara"),("copyArray","install/lib/arrays.clara")],["sequence of external calls"])
p("C23","Rendering values as text is exact",
"`toString` of an int yields its shortest decimal representation (minus sign for negatives) for every 63-bit value, `toString` of a bool yields true/false, and `toBinary` yields the 63 bits, most significant first, separated before each whole byte.",
["inputs"],"all 63-bit values",
"tests check a few values",
["install/lib/core.clara"],[("toString, toBinary","install/lib/core.clara")],["sequence of external calls"])
p("C24","The hash map behaves as a finite map",
"After any sequence of `put`, `get`, `contains`, `remove`, `orElse` and `foreach` the map returns for each key the value last put and not since removed, reports the previous value on `put` and `remove`, visits each entry exactly once and keeps its size equal to the number of entries, across resizes and for any hash function, including negative, colliding and extreme hashes.",
["histories","inputs"],"all key, value and hash assignments for operation sequences up to the stated length",
"tests/maps.clara runs one short history",
["install/lib/map.clara","install/lib/list.clara"],[("search, put, remove, resize, indexFor","install/lib/map.clara")],["sequence of external calls"])
p("C25","List functions agree with the sequence they represent",
"`append` (prepend), `toList`, `reverse`, `find`, `foreach`, `map`, `reduce` and `remove` on lists give the result of the corresponding sequence operation (first match for `find` and `remove`, order preserved, callbacks once per element in order) and leave the input list unchanged, for all lists and predicates.",
["inputs"],"all element values, predicate outcomes and lengths up to the stated bound",
"few list tests exist and only on fixed data",
["install/lib/list.clara"],[("list functions","install/lib/list.clara")],["sequence of external calls"])
p("C26","option, result and pair combinators obey their definitions",
"`isSome`, `isNone`, `filter`, `orElse`, `map`, `peek` on option and `map`, `then`, `peek` on result return the contained value, the alternative, the mapped value or the unchanged error as their names say, calling the supplied function exactly once when there is a value and never otherwise, for all values.",
["inputs"],"all contained values and predicate outcomes",
"not covered by tests beyond fixed values",
["install/lib/functional.clara"],[("option and result functions","install/lib/functional.clara")],["sequence of external calls"])
p("C27","The string hash is 32-bit FNV-1a",
"`fnv1a` returns the 32-bit FNV-1a hash of the string's bytes for every string, a value in 0..2^32-1 that depends only on the content, so equal strings hash equally.",
["inputs"],"all byte contents up to the stated length",
"tests/hash.clara hashes a few strings",
["install/lib/hash.clara"],[("fnv1a","install/lib/hash.clara")],["sequence of external calls"])
p("C28","A function with a result always returns one",
"The compiler accepts a function that declares a result exactly when every path through its body ends in a return by structure (a final return, an `if` chain with an else, or a `match`, whose branches all end so); an accepted function never runs off its end.",
["programs"],"all nestings of statements up to the stated depth and length",
"no test has a missing return",
["ast.go","semantic.go"],[("isTerminating","ast.go"),("processFnType","semantic.go")],["compile errors"])
p("C29","Command line and environment reach the program intact",
"A program sees exactly the arguments it was started with, in order and byte for byte, and an environment map that gives, for each NAME=VALUE entry, the text after the first `=` under NAME, for all argument and environment contents.",
["inputs","configurations"],"all byte contents of up to the stated number and length of arguments and environment entries",
"tests/runtime.clara looks at the environment of the test run",
["install/lib/runtime.clara","codegen.go"],[("entrypoint, parseArgs, parseEnv, parseCString","install/lib/runtime.clara"),("genAsmEntrypoint","codegen.go")],["sequence of external calls"])
p("C30","File operations report exactly what the system reports",
"`open`, `seek`, `size`, `read` and `readAll` return the system's result when the calls succeed (size leaves the file position as it was, readAll returns the file's bytes) and an error carrying the system's error number and the path when any underlying call fails, for every sequence of system outcomes; `describe` of an error names that error number.",
["fault_sequences","inputs"],"every combination of success and failure of the underlying system calls, all result values in range",
"the tests read one existing file",
["install/lib/fs.clara","install/lib/io.clara","install/lib/err.clara"],[("open, seek, size, read, readAll","install/lib/fs.clara, install/lib/io.clara"),("describe","install/lib/err.clara")],["sequence of external calls"])
p("C31","External C functions are called by the platform's rules",
"A call to an external function passes its arguments in the System V order with the stack 16-byte aligned; with RawValues ints arrive as plain C integers, strings, arrays and bytes as pointers to their first byte or element, and an int result comes back as the same number, for every value, argument count 0..6 and nesting of the call in an expression.",
["inputs","programs"],"all 63-bit argument values, for every argument count and pending-operand depth in the probe programs",
"tests only call printf-like functions, which tolerate misalignment",
["codegen.go"],[("genFnCall raw values, alignment","codegen.go")],["values and stack pointer at the external call"])
p("C32","A byte buffer holds exactly what was appended",
"After any sequence of appends (strings or single bytes) and resets a byte buffer's text is the concatenation of what was appended since the last reset, regardless of its initial capacity and growth, and `substring(pos, length)` returns exactly that range or stops the program when it is out of range.",
["histories","inputs"],"all append sequences up to the stated length, all byte contents, all capacities in range",
"tests/strings.clara appends a few literals",
["install/lib/strings.clara","install/lib/arrays.clara"],[("byteBuffer functions, grow","install/lib/strings.clara"),("copyArray","install/lib/arrays.clara")],["sequence of external calls"])
p("C33","Times convert exactly",
"`Now` returns the system clock's reading as it was given, and `toMicros`, `toMillis` and `toSecs` give the exact number of whole microseconds, milliseconds and seconds it stands for, for every reading.",
["inputs"],"every pair of seconds and microseconds within the stated range",
"no test converts a time",
["install/lib/time.clara"],[("Now, toMicros, toMillis, toSecs","install/lib/time.clara")],["converted values"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
