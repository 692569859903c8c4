#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below; a property is claimed when vf/checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level))


REF = "Reference: the same program built by gcc -O0; before an alarm the case is confirmed with gcc -O2, clang and a UBSan/ASan run, so compiler-dependent or undefined cases never alarm. "
TR = "runtime monitoring: event-trace recorder in the generated program, offline differential trace checker"

prop("C01", "Integer arithmetic of compiled programs is C17 integer arithmetic",
     "For every integer expression free of undefined behaviour, a program compiled by kefir computes the value, width and signedness C17 prescribes. This covers all integer types, all unary, binary, compound-assignment, increment and conditional operators, integer promotions, usual arithmetic conversions and every implicit or explicit integer conversion, for operands in any storage.",
     ["programs", "inputs"], "all well-defined integer expressions over all integer types and operand values, at every operand location",
     "The end2end tests evaluate a few dozen fixed expressions; operator x type x type x boundary value is a product space of millions of cells.",
     ["source/ast-translator/nodes/binary_operation.c", "source/ast-translator/nodes/assignment_operator.c", "source/ast-translator/nodes/unary_operation.c", "source/ast-translator/nodes/unary_operation.c", "source/ast-translator/typeconv.c", "source/ast/type_conv.c", "source/runtime/amd64_sysv.s"],
     [("usual arithmetic conversions", "source/ast/type_conv.c"), ("result normalisation", "source/ast-translator/typeconv.c"), ("integer opcodes", "source/runtime/amd64_sysv.s")],
     TR, REF + "Enumerates every operator x type x type cell with boundary operands, plus random UB-free expression trees.")
prop("C02", "Floating-point arithmetic and conversions of compiled programs follow IEEE/C17",
     "For every operation on float, double and long double, and every conversion between floating and arithmetic types whose value is representable, a program compiled by kefir produces the bit pattern (up to NaN payload) that C17 with IEEE 754 formats prescribes. This includes mixed integer/floating operands, comparisons, controlling expressions, increment and compound assignment, infinities, NaNs, subnormals and values at the edges of the integer ranges.",
     ["programs", "inputs"], "all floating expressions over all floating formats and mixed integer types, all operand bit patterns",
     "Tests sample a handful of ordinary values; NaN, infinities, subnormals, 2^63 boundaries and mixed-type cells are not sampled.",
     ["source/ast-translator/typeconv.c", "source/ast-translator/nodes/binary_operation.c", "source/ast-translator/nodes/assignment_operator.c", "source/runtime/amd64_sysv.s"],
     [("floating conversions", "source/ast-translator/typeconv.c"), ("SSE and x87 opcodes", "source/runtime/amd64_sysv.s")],
     TR, REF + "Enumerates operator x type x type cells with special values, plus random floating expression trees; recorded findings are skipped by construction.")
prop("C03", "Constant expressions have the value the same expression has at run time",
     "Wherever kefir must evaluate an expression during compilation (static initialisers, enumerators, case labels, array bounds, bit-field widths, static assertions, alignment specifiers, #if), the value and type it uses equal the value and type the same expression has when executed. Address constants with offsets denote the same addresses.",
     ["programs", "inputs"], "all constant expressions in all constant contexts", "The unit tests evaluate constant expressions on a few literals; agreement of two evaluators over all expressions is a universal statement.",
     ["source/ast/analyzer/constant_expression.c", "source/ast/constant_expression", "source/preprocessor/ast_context.c", "source/ast-translator/initializer.c"],
     [("constant evaluator", "source/ast/analyzer/constant_expression.c"), ("static data emission", "source/ast-translator/scope/data_initializer.c")],
     TR, REF + "The same random expression is placed in a constant context and in run-time code over opaque variables; both event logs and the reference must agree.")
prop("C04", "Statements and operands execute exactly as often and in the order C prescribes",
     "The sequence of side effects performed by a compiled program is the one the C abstract machine prescribes: if, switch (any case layout, fall-through, nested, default anywhere), loops, break, continue, goto, return, &&, ||, ?: and comma evaluate exactly the prescribed operands once and in order. Full expressions and sequence points are never reordered, duplicated or dropped.",
     ["programs", "inputs"], "all structured and unstructured control-flow graphs and all execution paths through them", "Tests run a few fixed functions; the number of nestings and paths is unbounded.",
     ["source/ast-translator/flow_control.c", "source/ast-translator/nodes", "source/ast/analyzer/nodes", "source/ast/flow_control.c"],
     [("flow-control tree", "source/ast/flow_control.c"), ("branch resolution", "source/ast-translator/flow_control.c")],
     TR, REF + "Random control-flow programs log every statement and operand evaluation; the exact event order is compared.")
prop("C05", "Type layout agrees with the System V x86-64 ABI",
     "For every complete object type, the size, alignment and member offsets (including bit-field placement, nested and anonymous aggregates, unions, arrays, flexible array members, enumerations and _Alignas) that a kefir-compiled unit uses are those of the System V x86-64 ABI as used by the system compiler. Hence objects can be exchanged between kefir-compiled and gcc-compiled units in memory.",
     ["programs"], "all complete object types", "Layout tests compare a few hand-written structures; the type grammar is unbounded.",
     ["source/codegen/amd64/system-v/abi/data_layout.c", "source/ast-translator/layout.c", "source/ast-translator/type.c", "source/ir/type.c", "source/codegen/amd64/system-v/bitfields.c", "source/ast-translator/environment.c"],
     [("layout computation", "source/codegen/amd64/system-v/abi/data_layout.c"), ("bit-field allocator", "source/ast-translator/type.c")],
     TR, REF + "Random type declarations; sizeof/_Alignof/offsetof and byte images written member by member are compared.")
prop("C06", "Bit-field reads and writes affect exactly their bits",
     "Reading a bit-field yields its value with the width and signedness declared, and storing to it (assignment, compound assignment, increment, initialisation) changes exactly its bits, yields the stored value, and leaves every other member, padding-adjacent byte and neighbouring object unchanged. Promotions of bit-field operands follow C17.",
     ["programs", "inputs"], "all bit-field layouts, all values and all operators on them", "Tests use a few fixed layouts and values.",
     ["source/ast-translator/lvalue.c", "source/ast-translator/value.c", "source/codegen/amd64/system-v/bitfields.c", "source/runtime/amd64_sysv.s"],
     [("bit extraction and insertion", "source/runtime/amd64_sysv.s"), ("bit-field load and store", "source/ast-translator/lvalue.c")],
     TR, REF + "Byte images of guarded objects are recorded after every bit-field operation.")
prop("C07", "Calls interoperate with the system compiler's code in both directions",
     "A kefir-compiled function can call, and be called by, code compiled by the system C compiler with any fixed-argument prototype: scalars, pointers, structures, unions, long double and arrays in structures pass and return bit-exactly, callee-saved registers and the stack pointer survive, and the stack is aligned as the ABI requires. This also holds through function pointers, recursion and deeply nested calls.",
     ["programs", "inputs"], "all prototypes, argument values and caller/callee pairings", "Tests pin a few signatures; classification of aggregates is a combinatorial function of their layout.",
     ["source/codegen/amd64/system-v/abi/qwords.c", "source/codegen/amd64/system-v/abi/registers.c", "source/codegen/amd64/system-v/abi/function.c", "source/codegen/amd64/system-v/abi/invoke.c", "source/codegen/amd64/system-v/instr.c", "source/codegen/amd64/system-v/runtime.c", "source/runtime/amd64_sysv.s"],
     [("argument classification", "source/codegen/amd64/system-v/abi/qwords.c"), ("register allocation", "source/codegen/amd64/system-v/abi/registers.c")],
     "runtime monitoring: cross-compiler call monitors (register/stack-alignment sentinels, argument event logs)",
     "Each random prototype runs in all four caller/callee pairings of kefir and gcc; assembly sentinels check callee-saved registers and stack alignment at each boundary.")
prop("C08", "Variable arguments interoperate in both directions",
     "Arguments passed through '...' arrive with the promoted type and value whichever of kefir and the system compiler compiled caller and callee, for any number and mixture of integer, floating, long double, pointer and aggregate arguments. va_list objects can be copied, passed on to other functions and re-read.",
     ["programs", "inputs"], "all variadic signatures, argument mixes and va_list operations", "Tests use a few fixed calls such as printf.",
     ["source/codegen/amd64/system-v/abi/vararg.c", "source/codegen/amd64/system-v/abi/builtins", "source/ast/analyzer/nodes", "source/ast-translator/nodes", "source/codegen/amd64/system-v/instr.c"],
     [("va_arg expansion", "source/codegen/amd64/system-v/abi/vararg.c"), ("save area", "source/codegen/amd64/system-v/abi/prologue.c")],
     "runtime monitoring: cross-compiler variadic call monitors over recorded argument logs",
     "Each random variadic call sequence runs in all four caller/callee pairings of kefir and gcc.")
prop("C09", "Initialised objects hold exactly the prescribed contents",
     "Every object with static, thread or automatic storage duration, and every compound literal, starts with exactly the contents its initialiser prescribes: designators in any order, nesting and overriding, brace elision, string literals, unions, bit-fields, address constants, unspecified elements zero. Initialisation never writes outside the object.",
     ["programs", "inputs"], "all object types and well-formed initialisers", "Tests contain a few fixed initialisers; the designator grammar over nested types is unbounded.",
     ["source/ast/initializer.c", "source/ast/initializer_traversal.c", "source/ast-translator/initializer.c", "source/ast-translator/scope/data_initializer.c", "source/ast/type_completion.c"],
     [("designator traversal", "source/ast/analyzer/initializer.c"), ("static data", "source/codegen/amd64/system-v/abi/static_data.c")],
     TR, REF + "The same random initialiser is used at file scope, in a block, as static local and as compound literal; all members are recorded.")
prop("C10", "Objects live, persist and stay distinct as their storage duration prescribes",
     "Automatic, static, thread-local, variable-length and dynamically allocated stack objects keep their last-stored value for their whole lifetime, are distinct from all other live objects, and are addressed correctly from nested scopes, loops, recursion and jumps. Name lookup always denotes the innermost visible declaration.",
     ["programs", "inputs"], "all nestings of scopes, recursion depths and array sizes", "Tests exercise isolated fixed cases; aliasing between live objects depends on the whole scope tree.",
     ["source/ast/scope.c", "source/ast-translator/scope", "source/codegen/amd64/system-v/abi/prologue.c", "source/runtime/amd64_sysv.s", "source/ast/local_context.c"],
     [("scope layout", "source/ast-translator/scope/scope_layout_impl.c"), ("stack allocation", "source/runtime/amd64_sysv.s")],
     TR, REF + "Every live object carries a canary pattern that is re-verified at scope boundaries.")
prop("C11", "Every aggregate, array or pointer access touches exactly the designated object",
     "Member access, indexing, pointer arithmetic and comparison, aggregate assignment, and passing or returning aggregates read and write exactly the designated bytes for any nesting of structures, unions, arrays and pointers. Neighbouring objects are never modified and copies are complete and independent.",
     ["programs", "inputs"], "all aggregate types, access paths and pointer expressions", "Tests use a few fixed structures.",
     ["source/ast-translator/lvalue.c", "source/ast-translator/value.c", "source/ast-translator/nodes", "source/codegen/amd64/system-v/instr.c"],
     [("lvalue translation", "source/ast-translator/lvalue.c"), ("block copy", "source/runtime/amd64_sysv.s")],
     TR, REF + "Random access paths over random types with canaries around every object.")
prop("C12", "Every expression has the type C17 assigns to it",
     "For every valid expression, the type that kefir derives - as observable by _Generic selection, sizeof, _Alignof, pointer arithmetic and accepted assignments - is the C17 type, including promotions, qualifier and array/function decay rules, composite types, typedefs and enumerations.",
     ["programs"], "all expressions over all types", "The analyzer unit tests list individual cases.",
     ["source/ast/analyzer", "source/ast/type", "source/ast/type_conv.c"],
     [("expression analysis", "source/ast/analyzer/nodes"), ("type compatibility", "source/ast/type")],
     TR, REF + "Types of random expressions are observed with _Generic over all basic and pointer types.")
prop("C13", "Macro expansion yields the token sequence C17 prescribes",
     "For every set of macro definitions and every source text, preprocessing yields the token sequence prescribed by C17: argument pre-expansion, #, ##, variadic arguments, rescanning, self-reference suppression, #undef and redefinition, regardless of spacing, line breaks and comments.",
     ["inputs"], "all macro definitions and invocations", "Tests contain a few fixed macros; interactions of nesting, pasting and suppression are unbounded.",
     ["source/preprocessor/substitutions.c", "source/preprocessor/user_macro.c", "source/preprocessor/preprocessor.c", "source/preprocessor/directives.c"],
     [("substitution", "source/preprocessor/user_macro.c"), ("rescan", "source/preprocessor/preprocessor.c")],
     "runtime monitoring: token-stream checker over preprocessor output, differential oracle of two reference preprocessors",
     "Alarm only when gcc and clang agree with each other and kefir differs in the token sequence.")
prop("C14", "Conditional inclusion, #include and #line select the right text",
     "Exactly the groups whose conditions hold are processed, for any nesting of conditional directives; #include finds the file that the quote/angle and -I search order prescribes and inserts its text each time; #line, __FILE__, __LINE__ and predefined macros report the right values, and definitions persist in textual order across files.",
     ["inputs", "configurations"], "all directive nestings, include trees and option orders", "Tests contain a few fixed trees.",
     ["source/preprocessor/preprocessor.c", "source/preprocessor/directives.c", "source/cli", "source/preprocessor/predefined_macro.c", "source/preprocessor/ast_context.c"],
     [("condition state", "source/preprocessor/preprocessor.c"), ("include lookup", "source/cli")],
     "runtime monitoring: token-stream checker over preprocessor output for generated include trees",
     "Generated trees in a scratch directory; alarm only when gcc and clang agree and kefir differs.")
prop("C15", "Lexical analysis: every literal and token denotes what C17 prescribes",
     "Every spelling of integer, floating, character and string constants (prefixes, suffixes, escapes, universal character names, concatenation), identifiers, operators, digraphs, comments, and line splices yields the token, type and value C17 prescribes, independent of how the text is laid out.",
     ["inputs"], "all token spellings and layouts", "Lexer tests list individual spellings.",
     ["source/lexer", "source/util/char32.c", "source/parser", "source/lexer/format.c", "source/lexer/tokens"],
     [("literal scanners", "source/lexer"), ("string literal merge", "source/lexer")],
     TR, REF + "Values and types of random literals in random layouts are recorded by the compiled program.")
prop("C16", "Staged processing equals direct compilation",
     "Compiling the preprocessed output of a unit with preprocessing skipped yields the same program behaviour as compiling the unit directly; preprocessing is idempotent on its own output, and the token stream kefir reports is the one it compiles.",
     ["programs"], "all translation units", "No test relates the two paths beyond fixed files.",
     ["source/preprocessor/format.c", "source/lexer/format.c", "source/compiler/compiler.c", "source/main/main.c"],
     [("token formatting", "source/preprocessor/format.c")],
     "runtime monitoring: metamorphic relation checker over recorded outputs",
     "Outputs of three pipelines are compared for generated programs and for the repository's own sources.")
prop("C17", "The compiler never crashes, corrupts memory or hangs, whatever its input",
     "For every input text and option set, kefir terminates with either success or a diagnosed failure, and performs no out-of-bounds access, use after free, double free, undefined arithmetic or failed internal assertion on the way.",
     ["inputs", "configurations"], "all byte strings, including malformed and hostile programs, in all modes", "Tests feed well-formed programs and a few errors.",
     ["source/lexer", "source/parser", "source/preprocessor", "source/ast", "source/ast-translator", "source/core"],
     [("error propagation", "source/core/error.c"), ("parser backtracking", "source/parser/parser.c")],
     "AddressSanitizer + UndefinedBehaviorSanitizer on the compiler under mutation fuzzing, with hang watchdog",
     "Grammar-aware mutations of a generated corpus; the sanitizers decide.")
prop("C18", "Preprocessing and tokenisation survive every allocation failure",
     "If any single memory allocation (or every one from some point on) fails while a unit is preprocessed or tokenised, the library reports a failure to its caller, without crashing, corrupting memory or leaking any block, and a following run in the same process works normally.",
     ["fault_sequences", "inputs"], "every allocation index of every preprocessing run, single and persistent failure", "No test injects allocation failures.",
     ["source/core", "source/preprocessor", "source/lexer", "source/compiler/compiler.c"],
     [("allocator interface", "headers/kefir/core/mem.h"), ("error-path clean-up", "source/preprocessor"), ("containers", "source/core/hashtree.c")],
     "fault injection through the allocator interface under AddressSanitizer with a leak-accounting allocator monitor",
     "Enumerates failing allocation indices (strided in the quick tier) for generated units; monitors crash, report, leak and recovery.", "fault_enumeration")
prop("C19", "Library compilations neither leak nor influence each other",
     "Every block the library obtains while compiling a unit is returned exactly once when its contexts are freed, whether compilation succeeded or was rejected at any stage; and the result of a compilation does not depend on which units the process compiled before it.",
     ["histories", "inputs"], "all sequences of successful and rejected compilations in one process", "Tests run one unit per process and only check selected unit tests for leaks.",
     ["source/compiler/compiler.c", "source/core", "source/ast", "source/parser", "source/lexer", "source/preprocessor", "source/ir"],
     [("ownership callbacks", "source/core"), ("context free functions", "source/compiler/compiler.c")],
     "allocation-ledger monitor (exactly-once release) in the library allocator, history checker over repeated compilations",
     "Histories of accepted and rejected units in one process; outputs compared with fresh processes.")
prop("C20", "Invalid programs are rejected with a located diagnostic, valid ones accepted",
     "A translation unit that violates a C17 syntax rule or constraint which kefir diagnoses is rejected with a nonzero exit status, a diagnostic naming the offending file and line, and no output program; a valid unit is never rejected.",
     ["programs"], "all translation units with an injected violation at any place", "Tests contain a few negative cases.",
     ["source/ast/analyzer", "source/parser", "source/core/source_error.c", "source/core/error_format.c"],
     [("constraint checks", "source/ast/analyzer/nodes"), ("error source locations", "source/core/source_error.c")],
     "runtime monitoring of exit status and diagnostics under single-fault program mutation",
     "Violations are injected at known lines into generated valid programs; gcc -pedantic-errors confirms that the unmutated program is valid and the mutant invalid.")
prop("C21", "Compilation is deterministic and independent of its environment",
     "The output of kefir is a function of its input (source, headers, the files' names as given, the encoding of the locale, and, for __DATE__ and __TIME__, the clock) and options only: repeated runs, address-space layout, heap contents, other environment variables and locale settings, working directory, stdin versus file input and stdout versus file output give identical bytes, and no decision depends on uninitialised memory.",
     ["configurations", "inputs", "histories"], "all inputs and process environments", "Tests run each input once in one environment.",
     ["source/core/hashtree.c", "source/core/hashtree.c", "source/compiler/compiler.c", "source/main/main.c", "source/codegen"],
     [("deterministic containers", "source/core")],
     "MemorySanitizer and repeated-execution comparison monitors under perturbed environments",
     "Compares outputs under ASLR, heap poison, locale and channel perturbations; MSan decides uninitialised reads.")
prop("C22", "Token, AST, IR and diagnostic dumps are well-formed and faithful",
     "Every machine-readable dump (tokens, syntax tree, IR, JSON diagnostics) is a valid JSON document for every input, lists the tokens, declarations, literal values and locations of the input faithfully, and requesting it does not alter what is accepted.",
     ["inputs", "configurations"], "all inputs and dump modes", "Tests compare a few golden files.",
     ["source/util/json.c", "source/ast/format.c", "source/lexer/format.c", "source/ir/format_impl.c", "source/compiler", "source/main/main.c", "source/core/error_format.c"],
     [("JSON writer", "source/util/json.c")],
     "runtime monitoring: schema and cross-reference checker over emitted dumps",
     "Dumps of generated programs are parsed strictly and cross-checked against an independent tokenizer.")
prop("C23", "Separately compiled units link as C linkage rules prescribe",
     "Objects and functions declared across translation units refer to the same entity exactly when C linkage rules say so: external, internal, tentative, extern, inline, static local and thread-local definitions from kefir- and gcc-compiled units link together without missing, duplicate or conflated symbols, and every accepted unit assembles.",
     ["programs"], "all sets of translation units and declarations", "Tests link pairs of fixed files.",
     ["source/ast/global_context.c", "source/ast/context.c", "source/codegen/amd64/system-v", "source/ast-translator/scope", "source/ir/module.c"],
     [("linkage resolution", "source/ast/global_context.c"), ("symbol emission", "source/codegen/amd64/system-v/abi/module.c")],
     "runtime monitoring: cross-unit address/value event logs of mixed kefir/gcc links",
     "Random multi-unit programs in all kefir/gcc mixes; addresses and values are observed from every unit.")
prop("C24", "Core containers behave as their abstract types under any operation history",
     "Lists, vectors, stacks, queues, trees, hash tables and sets, tries, string buffers, block trees and symbol tables return, after any sequence of operations, what the abstract container would return, call clean-up exactly once per removed element, and perform no invalid memory access.",
     ["histories"], "all finite operation sequences, including failing ones", "Unit tests run short fixed sequences.",
     ["source/core/list.c", "source/core/vector.c", "source/core/linked_stack.c", "source/core/tree.c", "source/core/hashtree.c", "source/core/hashtree.c", "source/core/trie.c", "source/core/string_buffer.c", "source/core/block_tree.c", "source/core/symbol_table.c"],
     [("container invariants", "source/core")],
     "runtime monitoring: model-based operation histories under ASan/UBSan with invariant assertions and exactly-once clean-up ledger",
     "Random histories with an in-process abstract model as oracle.")
prop("C25", "kefir compiles itself to an equivalent compiler",
     "Modules of kefir compiled by kefir behave exactly as when compiled by the system compiler: a compiler containing any of them produces identical output for every input, and so does a compiler built entirely from them.",
     ["programs", "inputs"], "every source module of kefir and every input", "The bootstrap test takes long and is not part of the stable tests.",
     ["source", "headers/kefir"], [("the whole pipeline", "source/compiler/compiler.c")],
     "runtime monitoring: self-compiled modules observed through output comparison of mixed compilers",
     "Random subsets of modules are compiled by kefir and linked with the rest; outputs are compared.")
prop("C26", "Language extensions apply exactly when enabled and mean what they say",
     "Each optional language feature is rejected or has its standard meaning when disabled, and when enabled has its documented meaning in every context without changing any program that does not use it.",
     ["configurations", "programs"], "all subsets of feature flags and programs", "Tests enable single features on fixed files.",
     ["source/cli", "source/ast/analyzer", "source/parser/rules", "source/compiler"],
     [("feature configuration", "source/compiler/compiler.c")],
     TR, REF + "Feature-using programs under flag subsets; gcc's GNU mode is the reference for meaning.")
prop("C27", "Command-line options do what they say",
     "Every combination of input selection, output selection, action, include, define and reporting options is honoured: the requested artefact is written to the requested place and nothing else, definitions and include paths apply in order, and unusable options or files yield a diagnostic and a nonzero status without producing output.",
     ["configurations"], "all option combinations and orders", "Tests use the compiler with a fixed command line.",
     ["source/cli", "source/main/main.c", "source/main/main.c", "source/cli"],
     [("option table", "source/cli")],
     "runtime monitoring: file-system and output monitors over generated command lines",
     "Random command lines in scratch directories.")
prop("C28", "Declarations and syntax are parsed with the structure C17 prescribes",
     "Every valid declaration, declarator, type name, statement and expression is given the structure the C17 grammar prescribes: operator precedence and associativity, declarator nesting, typedef-name ambiguity, scopes and name spaces of tags, labels, members and identifiers.",
     ["programs"], "all valid programs", "Parser tests contain individual constructs.",
     ["source/parser", "source/ast/declarator.c", "source/ast/analyzer/declarator.c", "source/parser/scope.c"],
     [("grammar rules", "source/parser/rules"), ("declarator resolution", "source/ast/analyzer/declarator.c")],
     TR, REF + "Random declarators, minimal-parenthesis expressions and name-space collisions whose interpretation is observable at run time.")
prop("C29", "Compiled code and library are safe under threads and signals",
     "Functions compiled by kefir are reentrant: concurrent threads and asynchronous signal handlers running compiled code never disturb each other's automatic, thread-local or register state. Compilations running concurrently in separate contexts of one process do not race and yield the same output as alone.",
     ["schedules", "programs"], "all interleavings of threads and signal deliveries", "All tests are single-threaded and signal-free.",
     ["source/runtime/amd64_sysv.s", "source/core/error.c", "source/codegen/amd64/system-v", "source/compiler/compiler.c"],
     [("thread-local error stack", "source/core/error.c"), ("stack machine on the native stack", "source/runtime/amd64_sysv.s")],
     "ThreadSanitizer on concurrent library compilations; signal-storm and multi-thread monitors on compiled code",
     "Signals are injected at random instructions by a timer and by single-stepping; TSan decides races in the library.")


def main():
    built = [p for p in P if os.path.exists(os.path.join(V, "vf/checks", p["id"].lower() + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                 "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "checks": [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
                     "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"], "technique": p["technique"],
                     "level": p["level"], "level_note": p["note"]} for p in built],
         "not_applicable": [{"property": p["id"], "reason": "not claimed: its monitor is not built yet"} for p in P if p not in built]}
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
    print(len(built), "claimed of", len(P))


if __name__ == "__main__":
    main()
