#!/usr/bin/env python3
"""The properties, in one place: writes properties.jsonl and MANIFEST.json.

usage: spec.py   (run after editing; the checks do not use it)
"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
import jobs as J

PIPE = ["skull/real_main.c", "skull/pipeline.c"]
PARSE = ["skull/parse/token.c", "skull/parse/classify.c", "skull/parse/ast_node.c"]
LLVM = ["skull/codegen/llvm/core.c", "skull/codegen/llvm/expr.c", "skull/codegen/llvm/assign.c", "skull/codegen/llvm/flow.c", "skull/codegen/llvm/func.c"]

# id, title, statement, (over, text), why tests cannot, files, [(mechanism, where)], note
P = [
("P01", "Every input file gets a verdict: no crash, hang or memory error",
 "Whatever bytes a source file holds, and with either back end, the compiler terminates with a verdict (exit status 0 or a failure status). On the way it never reads or writes memory it does not own, never uses freed or uninitialised memory, never dereferences a null pointer and never aborts.",
 (["inputs"], "every source text within the byte and token bounds, both back ends, and as a fragment inside declarations, functions, loops and blocks"),
 "the tests compile a few hundred hand-written programs; truncated and malformed texts are sampled one by one, and no test looks at out-of-bounds reads",
 PIPE + PARSE + ["skull/semantic", "skull/codegen"], [("tokenizer state machine", "skull/parse/token.c"), ("recursive-descent parser and its end-of-file checks", "skull/parse/ast_node.c"), ("semantic walk", "skull/semantic/entry.c")]),
("P02", "A rejected program fails loudly and leaves nothing behind",
 "When a program has an error the compiler exits with a failure status, prints at least one diagnostic naming the file, writes no output file and runs no linker. When it exits with status 0 it printed no error and produced the requested output. The quiet flag hides warnings but never errors, and with --werror a program that has any warning is rejected.",
 (["inputs", "configurations"], "every token sequence within the bounds, with the flags for quiet, warnings-as-errors, object, assembly, IR and C output"),
 "tests look at one status or one message at a time for fixed programs, never at the joint condition status/diagnostic/output for arbitrary ones",
 PIPE + ["skull/common/errors.c", "skull/codegen/backend.c", "skull/codegen/llvm/write.c", "skull/codegen/c/write.c"], [("errors are collected and printed at the end", "skull/common/errors.c"), ("code generation only runs after validation", "skull/pipeline.c")]),
("P03", "Diagnostics name the right line and column",
 "An error is reported at the line and column (counted from 1, in characters, not bytes) of the token that causes it. This holds whatever blank lines, spaces, tabs, comments, strings or multi-byte characters come before that token.",
 (["inputs"], "every layout of prefix pieces (spaces, tabs, newlines, comments, block comments over lines, strings, runes, multi-byte characters) before each kind of offending token"),
 "tests pin positions for a handful of fixed texts; the position depends on the whole prefix",
 ["skull/parse/token.c", "skull/common/errors.c"], [("location tracking while reading characters", "skull/parse/token.c"), ("message location", "skull/common/errors.c")]),
("P04", "Layout and comments never change what a program means",
 "Spaces, tabs and carriage returns between tokens, blank lines and comments between statements, comments after a statement (other than a definition), a line break before or after the brace of a control-flow block, and parentheses around a subexpression can be added freely: none of them changes whether a program is accepted or what it does. Keywords are only recognised as whole words, and a name that merely begins with or contains one is an ordinary name.",
 (["inputs"], "every choice of layout at any one place (two in the thorough tier) of whole programs using every construct and of all generated programs within the bounds, and every name up to the bound and near each word of the language"),
 "the number of layouts is exponential in the number of tokens; tests use one layout per program",
 PARSE, [("token boundaries", "skull/parse/token.c"), ("classification of whole words", "skull/parse/classify.c")]),
("P05", "Integer literals denote exactly the value they spell",
 "Decimal, hexadecimal, octal and binary integer literals, with underscores between digits and an optional minus sign on decimals, are accepted exactly when well formed and representable in 64 signed bits, and the program then uses exactly that value. Anything else that looks like a number is rejected.",
 (["inputs"], "every literal text up to the bound over the literal alphabet, and every value around the 64-bit limits"),
 "tests try about twenty literals; the boundary values and malformed spellings are unbounded",
 ["skull/parse/classify.c", "skull/semantic/types.c"], [("number classification", "skull/parse/classify.c"), ("conversion with overflow check", "skull/semantic/types.c")]),
("P06", "Float literals denote the nearest double",
 "A decimal float literal, with underscores before the point and an optional minus sign, and the names for infinity and not-a-number, are accepted exactly when well formed, and the program uses the double nearest to the decimal value. Everything else is rejected.",
 (["inputs"], "every literal text up to the bound, all digit values"),
 "tests try about ten literals",
 ["skull/parse/classify.c", "skull/semantic/types.c"], [("float classification", "skull/parse/classify.c"), ("conversion", "skull/semantic/types.c")]),
("P07", "Rune and string literals keep every character and escape",
 "A string literal becomes exactly the bytes it spells, with each documented escape replaced by the character it names, and a rune literal becomes the code point of its single character or escape. Unknown or incomplete escapes, runes that are empty, too long or control characters, and unterminated quotes are rejected.",
 (["inputs"], "every quoted text up to the bound over characters, quotes and escapes"),
 "escapes interact with quotes, length limits and multi-byte characters; tests try each escape once",
 ["skull/parse/token.c", "skull/parse/classify.c", "skull/semantic/types.c", "skull/common/str.c"], [("quote handling", "skull/parse/token.c"), ("escape decoding", "skull/common/str.c")]),
("P08", "Operators group by the documented precedence, left to right",
 "An expression without parentheses means the same as the fully parenthesised one given by the precedence table (power, then unary, multiplicative, additive, then logic and shifts, then comparison), with operators of equal rank grouping to the left, and parentheses overrule it. So it is accepted exactly when that grouping is well typed, and evaluates to that grouping's value.",
 (["programs", "inputs"], "every sequence of operators within the bound, with unary operators and parenthesised ranges, over all values of the operands"),
 "tests try a few pairs of operators with constant operands; wrong grouping shows only for particular triples and values",
 ["skull/parse/ast_node.c"], [("precedence table and operator-precedence parsing", "skull/parse/ast_node.c")]),
("P09", "Operators accept exactly the operand types the language allows",
 "Each operator is accepted for exactly the operand types the language defines (arithmetic on Int or Float, shifts on Int, logic on Bool, ordering on numbers, equality on any plain value type), never for mixed types, references or functions without a value, and its result has the defined type. The value can then only be used where that type is expected: initialiser, assignment, condition, argument or return.",
 (["programs"], "every operator, pair of operand types, kind of operand, and context of use"),
 "the table has thousands of entries and tests cover a few dozen",
 ["skull/semantic/expr.c", "skull/semantic/types.c", "skull/semantic/assign.c", "skull/semantic/flow.c", "skull/semantic/func.c"], [("type checks per operator", "skull/semantic/expr.c")]),
("P10", "Variables: declared once, typed, constant unless mutable",
 "A variable can be used only after its declaration and inside the block that declares it, a name cannot be declared twice or hide a visible one, and only mutable variables can be reassigned, with a value of their type and not with themselves. A declared type must match the initialiser, and a call without a value cannot initialise anything. Every program that obeys these rules is accepted and every other one rejected.",
 (["programs"], "every program of up to four statements over two names, with nested blocks and functions"),
 "whether a name is visible depends on the whole history of scopes; tests pin single cases",
 ["skull/semantic/assign.c", "skull/semantic/scope.c", "skull/semantic/symbol.c", "skull/semantic/variable.c"], [("scope lookup", "skull/semantic/scope.c"), ("assignment checks", "skull/semantic/assign.c")]),
("P11", "Functions: calls match declarations, returns match signatures",
 "A call is accepted only for a declared function with exactly the declared number and types of arguments; a function with a result type must return a value of that type and one without must not return a value; names of functions and parameters follow the same uniqueness rules as variables; external and exported functions can only be declared at the top level. Every program that obeys these rules is accepted and every other one rejected.",
 (["programs"], "every program of up to four statements with functions, parameters, calls and returns"),
 "tests pin single cases; the rules interact with nesting and order",
 ["skull/semantic/func.c", "skull/semantic/flow.c"], [("declaration and call checks", "skull/semantic/func.c")]),
("P12", "Control flow statements are accepted exactly where they make sense",
 "Conditions must be boolean, elif and else must follow an if or elif, break and continue must be inside a loop of the same function, no block is empty and nothing follows a statement that leaves the block. Every arrangement of statements that obeys this is accepted and every other one rejected.",
 (["programs"], "every arrangement of up to four control-flow statements, at the top level and inside functions"),
 "the number of arrangements is exponential; tests cover single ones",
 ["skull/semantic/flow.c", "skull/semantic/entry.c", "skull/parse/ast_node.c"], [("flow checks", "skull/semantic/flow.c")]),
("P13", "Accepted programs always give a well-formed module",
 "Whenever the compiler reports success with the LLVM back end, the module it emits is valid: every block ends in exactly one terminator, operand types match, values are defined before use and calls match their function's signature. Code generation never fails or trips verification on a program that passed the checks.",
 (["programs"], "every accepted program among the token sequences and generated programs of all other checks"),
 "the verifier runs on the programs of the tests only; well-formedness must hold for every accepted program",
 LLVM, [("instruction building", "skull/codegen/llvm/expr.c"), ("block structure", "skull/codegen/llvm/flow.c")]),
("P14", "Every operator computes its defined result for all operand values",
 "The generated code for an expression computes what its operators mean on 64-bit signed integers, IEEE doubles, booleans, runes and strings: truncating division and remainder, ordered comparisons that are false for not-a-number, string equality by content, logical right shift. This holds for all values for which the result is defined, whether operands are literals, constants, variables, calls or dereferenced references, evaluated left to right.",
 (["inputs", "programs"], "all 64-bit operand values, every operator and kind of operand, and expression trees within the bound"),
 "tests compare the text of the generated code for fixed programs; no test runs an operator over its value range",
 ["skull/codegen/llvm/expr.c", "skull/shim.ll"], [("operator code generation", "skull/codegen/llvm/expr.c"), ("run-time helpers", "skull/shim.ll")]),
("P15", "Control flow executes as written",
 "The generated code runs exactly the statements the source prescribes: one branch of each if chain, loop bodies while the condition holds, break and continue acting on the innermost loop, return ending the function with its value. The sequence of external calls and the exit value are those of the source for every outcome of every condition.",
 (["programs", "inputs"], "every arrangement of up to five control-flow statements, all outcomes of conditions"),
 "tests compare generated text for fixed nests; wrong edges appear only in particular nestings",
 ["skull/codegen/llvm/flow.c", "skull/codegen/llvm/core.c"], [("basic-block construction", "skull/codegen/llvm/flow.c")]),
("P16", "Variables, calls and references behave as written at run time",
 "A read gives the last value written to that variable, assignments happen in program order wherever they are nested, each call gets the values of its own arguments in order and has its own parameters and locals, and a function's result is the value it returned. A reference always reaches the variable it was taken from.",
 (["programs", "inputs"], "every program of up to four or five statements with variables, functions, parameters and references, all input values"),
 "tests check generated text for fixed programs and never execute it with varying inputs",
 ["skull/codegen/llvm/assign.c", "skull/codegen/llvm/func.c", "skull/codegen/llvm/core.c"], [("variable storage", "skull/codegen/llvm/assign.c"), ("calls and parameters", "skull/codegen/llvm/func.c")]),
("P17", "Namespaces: names resolve to the declaration their path spells",
 "A declaration inside a namespace is visible by its plain name inside that namespace only, and by its qualified name afterwards; equal names in different namespaces are different things, and a qualified name that does not spell an existing path is rejected. The program then reads, writes and calls exactly the declaration its path names.",
 (["programs"], "every program of up to four statements with nested namespaces, variables, functions and qualified uses"),
 "resolution depends on the whole tree of scopes; tests use one or two fixed trees",
 ["skull/semantic/scope.c", "skull/semantic/entry.c", "skull/semantic/mangle.c"], [("qualified lookup", "skull/semantic/scope.c")]),
("P18", "Emitted symbols: exports, externals, entry point and private names",
 "Exported functions and variables get an externally visible symbol made of the module name and their own name, external functions keep exactly the name they were declared with, everything else is private to the module, and the top-level code becomes the module's entry function. An executable runs that entry function and exits with the value it returns, whatever names the program uses.",
 (["programs", "configurations"], "every combination of declared kinds and names, including names used by the run-time system, with object and executable output"),
 "tests check one export and one external; clashes between names of different kinds are not sampled",
 ["skull/codegen/abi.c", "skull/semantic/mangle.c", "skull/codegen/llvm/func.c", "skull/codegen/llvm/assign.c", "skull/codegen/llvm/write.c"], [("name mangling", "skull/semantic/mangle.c"), ("start function", "skull/codegen/llvm/write.c")]),
("P19", "The C back end produces a program with the same behaviour",
 "For a program that both back ends accept, the emitted text is a valid C program that makes the same external calls with the same arguments and exits with the same status as the source prescribes, for all values with a defined result. Literals keep their exact values, operators keep the grouping of the source, and every declaration keeps its name, type and visibility. (Left open, because C defines them differently: the order of calls within one expression, calls on the right of and/or, arithmetic on literals only, right shifts of negative numbers, namespaces, functions declared inside blocks, and blocks without any statement.)",
 (["programs", "inputs"], "every generated program of up to five statements, every operator and kind of operand, groups of three operators, literals of every kind at the edges of their range and strings of symbolic characters, all input values"),
 "tests compare emitted C text for fixed programs and never run it",
 ["skull/codegen/c/core.c", "skull/codegen/c/expr.c", "skull/codegen/c/assign.c", "skull/codegen/c/flow.c", "skull/codegen/c/func.c", "skull/codegen/c/write.c"], [("C text generation", "skull/codegen/c")]),
("P20", "Command line: flags select exactly the documented output",
 "Each combination of flags either is refused with a message and a failure status, because flags repeat or contradict each other or are unknown, or produces exactly the one kind of output asked for under the documented file name. The order of arguments does not matter, and the output name option, optimisation level and extra linker arguments reach the tool they are for unchanged.",
 (["configurations"], "every sequence of arguments within the bound over the whole flag vocabulary, every order"),
 "tests try single flags; contradictions and orders are combinatorial",
 ["skull/cli.c", "skull/codegen/shared.c", "skull/codegen/llvm/write.c", "skull/codegen/c/write.c", "skull/common/io.c"], [("argument parsing", "skull/cli.c"), ("phase selection", "skull/codegen/llvm/write.c")]),
("P21", "Failures of files, linker and code emission are never hidden",
 "If the source cannot be read, an output cannot be written, code emission fails, or the linker cannot be started, exits with a failure or is killed, the compiler exits with a failure status and says so. The intermediate object of an executable build is removed in every case, and a successful exit means that the linker ran once on it and succeeded.",
 (["fault_sequences"], "every single fault and pair of faults at each I/O and process operation, every child exit status and signal"),
 "tests inject no faults",
 ["skull/real_main.c", "skull/common/io.c", "skull/codegen/llvm/write.c", "skull/codegen/c/write.c"], [("child process handling", "skull/codegen/llvm/write.c"), ("file reading", "skull/common/io.c")]),
("P22", "Warnings are exactly the ones the program deserves",
 "Outside function bodies, a warning for a variable that is never read (unless exported), a function that is never called, a mutable variable that is never assigned, a literal condition or a type written next to a literal is printed for exactly the declarations and statements it applies to, once each, and names them. Warnings never change the generated code, and turned into errors they reject exactly the programs that have one.",
 (["programs"], "every program of up to four statements over two names"),
 "whether a symbol is unused depends on the whole program; tests pin single cases",
 ["skull/semantic/unused.c", "skull/semantic/flow.c", "skull/semantic/assign.c"], [("usage flags of symbols", "skull/semantic/unused.c")]),
("P23", "Internal tables and lists keep every entry",
 "The map from names to symbols returns, after any sequence of insertions, exactly the value last inserted for a name and nothing for other names, whatever the names hash to, and reports whether an insertion was new. The growable list returns exactly the elements pushed, in order, after any sequence of operations.",
 (["histories"], "every sequence of operations within the bound over symbolic keys, including colliding ones"),
 "tests insert a few fixed keys and never force collisions or growth at every point",
 ["skull/common/hashtable.c", "skull/common/vector.c"], [("open hash buckets", "skull/common/hashtable.c"), ("growth", "skull/common/vector.c")]),
("P24", "Run-time helpers are correct for all arguments",
 "The helpers linked into every executable compute string equality (true exactly when both strings have the same bytes) and integer power (the product of that many factors, one for exponents that are zero or negative) for all arguments, without reading past the end of a string.",
 (["inputs"], "all strings up to the bound, all bases and exponents up to the bound"),
 "no test executes the helpers",
 ["skull/shim.ll", "skull/codegen/c/write.c"], [("_strcmp and _int_pow", "skull/shim.ll")]),
("P25", "Imports are resolved next to the importing file, and missing ones refused",
 "An import names a module: the file NAME.sk in the directory of the importing file must exist and be openable, whatever directory the compiler is run from, otherwise the importing program is rejected with an error that names the import. What follows the keyword must be a plain name, and a valid import changes nothing about how the rest of the program is compiled.",
 (["programs", "fault_sequences"], "every import name within the bound, every directory of the importing file, and every outcome of opening the module"),
 "tests import one fixed module",
 ["skull/semantic/import.c"], [("module lookup and parsing", "skull/semantic/import.c")]),
("P26", "Debug and presentation flags never change the generated code",
 "Debug information, colour, quiet, disabled verification and optimisation-level flags change neither which programs are accepted nor what the code handed to the emitter computes. Only diagnostics text, debug metadata and the requested optimisation level differ.",
 (["programs", "configurations"], "every generated program within the bounds under each such flag"),
 "tests use debug information on a few fixed programs",
 ["skull/codegen/llvm/debug.c", "skull/codegen/llvm/core.c", "skull/cli.c"], [("debug metadata hooks in code generation", "skull/codegen/llvm/debug.c")]),
("P27", "A type alias means exactly the type it names",
 "After an alias for a type is declared, the alias can stand wherever a type name can (variables, parameters, results, references, further aliases) and a program behaves as if the original type had been written. Aliases obey scoping and uniqueness, cannot be mutable and are not values.",
 (["programs"], "every use of aliases in declarations within the bound"),
 "tests declare one alias and use it once",
 ["skull/semantic/types.c", "skull/semantic/assign.c", "skull/semantic/scope.c"], [("alias symbols", "skull/semantic/scope.c")]),
("P28", "Source text is decoded as UTF-8, and ill-formed text is refused",
 "Every well-formed UTF-8 source is decoded to its code points and non-ASCII characters in strings and runes come out unchanged in the generated program. Every ill-formed sequence (stray continuation bytes, overlong forms, surrogates, values beyond the last code point, truncation) is rejected with a diagnostic.",
 (["inputs"], "every byte sequence up to the bound inside a string, a rune, a comment or plain source"),
 "tests try two or three ill-formed sequences out of billions",
 ["skull/common/str.c", "skull/common/io.c", "skull/pipeline.c"], [("multi-byte conversion", "skull/common/str.c")]),
("P29", "Debug information describes functions, variables and calls truthfully",
 "With the debug flag, every function with a body, every parameter and every variable is described exactly once, under its own name, with its own type, the line of its declaration and the function it belongs to, and nothing else is described. Every call instruction carries the line and column of its call in the source.",
 (["programs"], "every program of up to four statements with variables, functions, parameters, references and namespaces"),
 "tests compare the metadata text of a few fixed programs",
 ["skull/codegen/llvm/debug.c", "skull/codegen/llvm/func.c", "skull/codegen/llvm/assign.c"], [("debug metadata hooks in code generation", "skull/codegen/llvm/debug.c")]),
]
NA = [
 dict(property="N02", title="Machine code produced by LLVM implements the emitted module",
  statement="The object file, assembly or executable LLVM produces from the emitted module, at every optimisation level, behaves as the module prescribes.",
  quantifier=dict(over=["programs"], text="every emitted module and optimisation level"),
  why_tests_cant="tests run a few executables",
  anchors=dict(files=["skull/codegen/llvm/write.c"], mechanism=[dict(name="LLVM target machine and pass pipeline", where="skull/codegen/llvm/write.c")]),
  reason="this is a property of libLLVM, which is not part of the repository and is far beyond what can be encoded; the checks decide the module handed to it"),
]
TECH = "symbolic execution of the compiler's real code (LLVM bitcode built from /repo), Z3 deciding feasibility and assertions over all symbolic inputs, counterexamples replayed on a native sanitizer build"
NOTE = "Holds for every value within the bounds listed in DESIGN.md and in the evidence file; nothing is claimed outside them. Trusts the executor (validated by native replay of sampled paths), the models of libc, files and processes in lib/, the model of the LLVM-C API with its interpreter, and the reference in the harness."


def main():
    have = [p for p in P if J.PROPS.get(p[0], {}).get("jobs")]
    with open(HERE + "/properties.jsonl", "w") as f:
        for i, t, s, (over, text), why, files, mech in have:
            assert len(t) <= 80, t
            f.write(json.dumps(dict(id=i, title=t, statement=s, quantifier=dict(over=over, text=text), why_tests_cant=why,
                                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))) + "\n")
        for n in NA:
            f.write(json.dumps(dict(id=n["property"], title=n["title"], statement=n["statement"], quantifier=n["quantifier"], why_tests_cant=n["why_tests_cant"], anchors=n["anchors"])) + "\n")
    m = dict(version=1, setup_cmd="make -C /verif",
             checks=[dict(property=p[0], quick_cmd="python3 check.py %s --tier quick" % p[0], thorough_cmd="python3 check.py %s --tier thorough" % p[0],
                          technique=TECH, level="model_checking", level_note=NOTE) for p in have],
             not_applicable=[dict(property=n["property"], reason=n["reason"]) for n in NA],
             notes="No hooks in /repo. check.py rebuilds everything from /repo's working tree in a temporary directory.")
    json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
    open(HERE + "/MANIFEST.json", "a").write("\n")


if __name__ == "__main__":
    main()
