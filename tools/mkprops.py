#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                   observe_at=list(observe), hook_needed=hook)))

p("E01", "Run-time integer expressions have the C value and the C type",
  "For every well-typed integer expression over variables (arithmetic, bitwise, shift, comparison, logical, conditional, comma, casts, over all integer types), the compiled program computes exactly the value C's integer promotions, usual arithmetic conversions and modular/two's-complement arithmetic (8/16/32/64 bit) prescribe. The static type of the expression is the one those rules prescribe. Operands with side effects are sequenced at &&, ||, ?: and comma.",
  ["programs", "inputs"], "every expression tree over the integer types and every operand value for which C defines the result",
  "the tests evaluate fixed library code on fixed inputs; they exercise only the operator/type/operand-width combinations libc happens to use",
  ["c.c", "w.c"], [("usual conversions and cast insertion", "c.c: ts_arith_common, compile_binary, compile_unary, compile_cast, asm_numerical_cast"), ("conditional / logical lowering", "c.c: compile_cond")],
  observe=["output of compiled programs"])
p("E02", "Constant expressions are evaluated to the run-time value",
  "A constant integer expression (literals of every spelling, sizeof/alignof, enum constants, casts, arithmetic) denotes the same value and type whether it initialises a global, an enumerator, sizes an array, labels a case, sits in a static_assert, or is folded inside a function body. That value is the one the C rules prescribe.",
  ["programs"], "every constant expression whose value C defines, in every context that accepts one",
  "tests contain a handful of constants; the folder has its own arithmetic, separate from the generated code",
  ["c.c", "p.c"], [("constant folder", "c.c: numval_*, static_eval, arithmetic_eval, expr_fold_constants"), ("literal scanner", "p.c: numeric and character literal lexing")],
  observe=["output of compiled programs", "exit status of the compiler"])
p("E03", "Assignments and increments update exactly the designated object",
  "Every assignment, compound assignment, ++ and -- (prefix and postfix) stores the converted C result in exactly the designated object - local, parameter, global, array element, structure member or pointer target of any integer or pointer type - and in no other, and the expression's own value is the one C prescribes. Loads and stores of narrow objects truncate and extend per the object's type.",
  ["programs", "inputs"], "every kind of lvalue, every scalar type, every operator and operand value",
  "the effect on neighbouring objects and on the result value of each operator/lvalue/type combination is not observed by the tests",
  ["c.c"], [("lvalue update code", "c.c: compile_asncombo, asm_load, asm_store, expr_wasmify")],
  observe=["output of compiled programs"])
p("F01", "Statements execute in the order C prescribes on every path",
  "For every nesting of if/else, while, do, for, switch (dense, sparse, with fall-through and default anywhere), break, continue, labelled-block goto and return, and for every outcome of their conditions, the sequence of side effects is the one C prescribes. A loop or switch transfers control only to the statement its operator designates.",
  ["programs", "inputs"], "all statement trees within the accepted subset and all outcomes of the conditions",
  "tests follow one path through hand-written functions",
  ["c.c", "p.c"], [("structured lowering to wasm blocks", "c.c: expr_wasmify, compile_switch_table, compile_switch_ifs, compile_if, compile_branch")],
  observe=["sequence of probe events of the compiled program"])
p("F02", "Calls bind arguments, isolate activations and restore the stack",
  "Each call - direct, through a function pointer, recursive, variadic, or returning a structure - binds every parameter to the converted argument value, gives each activation its own locals, returns the converted result, and leaves every caller's locals and the stack depth unchanged. Variadic callees see the exact number, order and promoted values of the extra arguments; block-local variables shadow outer ones.",
  ["programs", "inputs"], "all call graphs, recursion depths, argument lists and nestings of calls",
  "the tests never compare a nest of calls against a reference and never check that the stack pointer is balanced",
  ["c.c", "lib/include/stdarg.h"], [("calling convention", "c.c: compile_call, compile_return, fundef_wasmify, fundef_hoist_locals")],
  [("stack pointer", "top of the linear-memory stack", "crt sp$")], ["output of compiled programs"])
p("D01", "Objects are laid out and copied as the type prescribes",
  "For every struct, union and array type, sizeof, alignof, offsetof and countof agree with the addresses the program actually uses, members are naturally aligned, ordered and non-overlapping (unions overlay), and pointer arithmetic, subtraction and comparison scale by the element size. Writing a member changes exactly its own bytes; assigning an aggregate copies exactly its bytes.",
  ["programs", "inputs"], "all nestings of scalar, pointer, array, struct and union types and all access paths",
  "layout bugs show only for particular member sequences and access paths",
  ["c.c", "p.c"], [("layout", "c.c: measure_type, measure_offset"), ("access", "c.c: compile_dot, compile_subscript, compile_ataddr, compile_bulkasn")],
  observe=["byte dumps by the compiled program"])
p("D02", "Static data starts with the declared contents at disjoint addresses",
  "When a program starts, every global and string literal holds exactly the bytes its initialiser (nested braces, strings, escapes, addresses of other objects and of their elements or members, implicit zeros) denotes. Distinct modifiable objects, the stack and the heap occupy disjoint, properly aligned memory, whatever the order in which objects are declared and referenced.",
  ["programs", "configurations"], "all sets of global definitions and initialisers, in any declaration and reference order, spread over any modules",
  "the existing tests use few initialised globals and never check placement",
  ["c.c", "w.c"], [("initialiser evaluation", "c.c: initialize_bulk_data, initialize_scalar"), ("data segment merging", "w.c: watify_wat_module, finalize_wat_module")],
  observe=["byte and address dumps by the compiled program"])
p("M01", "Macros expand by substitution of whole expressions",
  "A use of an object-like, function-like or variadic macro means its body with each parameter replaced by the whole argument expression or statement, expanded recursively through other macros; generic selection picks exactly the branch for the type of its controlling expression, and inactive conditional-compilation sections have no effect whatever they contain.",
  ["programs"], "all macro bodies, argument expressions, nestings and conditional sections",
  "the tests use a few library macros with simple arguments",
  ["p.c", "c.c"], [("macro expansion", "p.c / c.c: macro lookup and substitution"), ("conditional sections", "p.c: line reader")],
  observe=["output of compiled programs"])
p("R01", "Ill-formed programs are diagnosed and produce no executable",
  "A translation unit that breaks a rule of the language (undeclared name, wrong argument count, incompatible or narrowing implicit conversion, bad lvalue, duplicate or non-constant case label, misplaced break/continue/goto, redefinition, failed static_assert, missing return value, syntax error) is rejected with a diagnostic, a non-zero exit status and no output file, while the corrected unit is accepted.",
  ["programs"], "every rule times every place in a program where it can be broken",
  "the test suite contains no negative test",
  ["p.c", "c.c"], [("type checks", "c.c: assign_compatible, cast_compatible, neprintf call sites"), ("parser errors", "p.c")],
  observe=["exit status, stderr and output file of the compiler"])
p("O01", "Optimisation and compilation route never change behaviour",
  "The observable behaviour of a program is the same at every optimisation level, whether it is compiled and linked in one step or through separately compiled object modules, and whatever the order in which files are given. Compiling the same input twice yields identical output.",
  ["programs", "configurations"], "all programs, all -O levels, all partitions into object modules and all command-line orders",
  "the tests use one level and one route",
  ["c.c", "w.c"], [("peephole optimiser", "c.c: fundef_peephole"), ("object writer/reader", "w.c: write_wat_module, read_wat_object_module"), ("binary writer", "w.c: wat_to_wasm")],
  observe=["output of compiled programs", "bytes of the produced files"])
p("K01", "Linking resolves every reference to its one definition or fails",
  "Linking a set of modules succeeds exactly when there is one main function, no duplicate module, and every function, variable and data object reachable from the program's entry is defined by the module that declares it; otherwise it fails with a non-zero status and writes no executable. In a linked program each reference reaches the definition of its own module (module-private names never clash), and everything reachable is retained.",
  ["programs", "configurations"], "all module graphs, all reference patterns (calls, function addresses, variables, data) and all file orders",
  "tests link one module with libc",
  ["w.c"], [("dependency tracing", "w.c: link_wat_modules, process_depglobal"), ("index assignment", "w.c: wat_to_wasm")],
  observe=["exit status of the linker", "behaviour of the linked program"])
p("H01", "The heap hands out disjoint, aligned, content-preserving blocks",
  "In every sequence of malloc, calloc, realloc and free, live blocks never overlap each other or static data, are aligned to 16 bytes and at least as large as requested; calloc memory is zero, realloc preserves contents up to the smaller size, and a request that cannot be met returns a null pointer leaving all live blocks intact. Freed memory is reused, so bounded live data needs bounded memory.",
  ["histories", "inputs"], "all interleavings of allocation calls, sizes including 0 and huge, and memory exhaustion at any call",
  "no allocator test exists; overlap or loss appears only after particular histories",
  ["lib/src/stdlib.c", "lib/src/unistd.c"], [("buddy allocator", "lib/src/stdlib.c: malloc, free, realloc, calloc"), ("heap growth", "lib/src/unistd.c: sbrk")],
  [("free lists", "blocks available per size class", "lib/src/stdlib.c")], ["returned addresses and block contents"])
p("S01", "Streams behave as a byte sequence with one position, even under faults",
  "For every sequence of stream operations (open modes, character/line/block input and output, ungetc, seek/tell/rewind, flush, buffering mode changes, error/EOF queries, close) the bytes delivered and the file contents are those of an unbuffered byte sequence with one position, independent of buffer sizes and of short host transfers. A host error is reported as an error indication and a failing return value, never as success, and bytes not reported as written or read are never lost or duplicated otherwise.",
  ["histories", "fault_sequences", "inputs"], "all operation sequences, data sizes around the buffer boundary, and short or failing host transfers at any call",
  "the stdio tests drive fixed sequences on a fault-free host",
  ["lib/src/stdio.c", "lib/src/unistd.c"], [("stream buffer", "lib/src/stdio.c: fillbuf, flushbuf, fread, fwrite, fseek, ungetc")],
  [("FILE", "buffer, position and flags of a stream", "lib/include/stdio.h")], ["return values, delivered bytes, host call log"])
p("S02", "Formatted output follows the conversion specification exactly",
  "For every combination of flags, width, precision, length modifier and conversion for integers, characters, strings, pointers, %n and %%, the formatted-output functions write exactly the characters the C standard prescribes and return their number; the bounded variants write at most the given size, always terminate, and still return the full length. All output functions (file, string, va_list) agree.",
  ["inputs"], "all format directives, argument values and buffer sizes",
  "stdio-tests sample a few hundred directive/argument pairs",
  ["lib/src/stdio.c"], [("formatter", "lib/src/stdio.c: vprintf engine, snprintf family")],
  observe=["formatted text and return value"])
p("S03", "Formatted input and number parsing consume and convert exactly",
  "For every input text and format, the scanning functions assign the items C prescribes, consume exactly the characters C prescribes, and return the number of assignments or EOF; the string-to-integer functions return the clamped value of the longest valid prefix for any base and report its end and overflow.",
  ["inputs"], "all texts, formats, widths, bases and numeric magnitudes",
  "stdio-tests sample a few scans; overflow, bases and partial matches are not covered",
  ["lib/src/stdio.c", "lib/src/stdlib.c"], [("scanner", "lib/src/stdio.c: vscanf engine"), ("integer parsing", "lib/src/stdlib.c: strtol family")],
  observe=["return values, stored items, end pointers"])
p("S04", "String and memory functions compute their definition and stay in bounds",
  "Every string and memory function returns the value and leaves the bytes its definition prescribes for all argument contents, lengths, alignments and (where allowed) overlaps, and reads and writes no byte outside the ranges the definition names. Character classification and case mapping agree with the C locale for every character code.",
  ["inputs"], "all byte strings, lengths, offsets and overlaps",
  "no string test exists beyond use by other tests",
  ["lib/src/string.c", "lib/src/ctype.c"], [("string functions", "lib/src/string.c"), ("classification", "lib/src/ctype.c")],
  observe=["return values and guarded buffers"])
p("S05", "Sorting permutes into order and searching finds exactly the present keys",
  "For every array, element size and consistent comparison function, qsort leaves a permutation of the original elements in non-decreasing order without touching other memory, and bsearch on a sorted array returns a matching element exactly when one exists. abs/div and the seeded random sequence obey their definitions.",
  ["inputs"], "all arrays, element sizes and orderings",
  "no sort or search test exists",
  ["lib/src/stdlib.c"], [("quicksort / binary search", "lib/src/stdlib.c: qsort, bsearch")],
  observe=["array contents, comparison-call log"])
p("X01", "Programs start with the given arguments and end with the given status",
  "main receives exactly the host's argument list and getenv exactly the host's environment, for any number and length of strings and any argument-area setting. On return from main or exit, registered handlers run once each in reverse order, open output streams are flushed, and the host sees the given status; abort and _exit skip these steps.",
  ["configurations", "histories"], "all argument/environment lists, handler registrations, exit routes and compile-time argument-area sizes",
  "tests run with one fixed argument list and always leave main normally",
  ["lib/src/crt.args.c", "lib/src/crt.argv.c", "lib/src/crt.void.c", "lib/src/stdlib.c"], [("startup", "lib/src/crt*.c"), ("termination", "lib/src/stdlib.c: exit, atexit, abort; lib/src/stdio.c flush at exit")],
  observe=["argv/env seen by the program, exit status, output order"])
p("T01", "Calendar conversions are exact inverses on the Gregorian calendar",
  "For every representable time, the broken-down time has the correct Gregorian date, weekday, day of year and clock fields; mktime inverts it and normalises out-of-range fields; and the formatting functions print those fields within the given buffer size and report the length.",
  ["inputs"], "all times (before and after 1970, leap centuries) and all out-of-range field combinations",
  "no time test exists",
  ["lib/src/time.c"], [("civil calendar", "lib/src/time.c: gmtime, mktime, strftime, asctime")],
  observe=["struct tm fields, times, formatted text"])
p("P01", "File-system calls reach exactly the named object and report its outcome",
  "Every path-taking call is directed at the longest pre-opened directory that is a prefix of the path on component boundaries, with the remaining path unchanged, and fails without any host effect when none matches. Descriptor and directory calls pass flags, offsets and data through unchanged; directory enumeration returns every entry exactly once in order, across buffer refills and after rewind or seek, and every host error code is reported as failure with that error number.",
  ["inputs", "configurations", "fault_sequences"], "all sets of pre-opened directories, paths, directory sizes, entry-name lengths, host errors and operation sequences",
  "tests never touch pre-open resolution, directories or host errors",
  ["lib/src/fcntl.c", "lib/src/unistd.c", "lib/src/stat.c", "lib/src/dirent.c", "lib/src/errno.c"], [("path resolution", "lib/src/fcntl.c"), ("directory buffer", "lib/src/dirent.c")],
  observe=["host call log, return values, errno"])
p("U01", "Multibyte conversions implement UTF-8 both ways",
  "For every byte sequence and every code point, the multibyte/wide-character conversion functions decode and encode UTF-8 with the lengths, values, terminators and error returns C prescribes, never writing past the given limits; wide string literals in source denote the decoded code points.",
  ["inputs"], "all code points and byte sequences, all limits",
  "no multibyte test exists",
  ["lib/src/stdlib.c", "p.c"], [("UTF-8 coding", "lib/src/stdlib.c: mblen, mbtowc, wctomb, mbstowcs, wcstombs")],
  observe=["return values and guarded buffers"])
p("N01", "Floating-point library results are accurate",
  "The mathematical functions and the decimal conversions of floating-point numbers return results within their documented accuracy for all arguments.",
  ["inputs"], "all double arguments",
  "the tests sample about 400 points",
  ["lib/src/math.c", "lib/src/stdio.c", "lib/src/stdlib.c"], [("math kernel", "lib/src/math.c")],
  observe=["returned doubles"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), [ (x["id"], x["title"]) for x in P if len(x["title"])>80])
