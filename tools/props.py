#!/usr/bin/env python3
# Source of properties.jsonl: run it to write the file again.
import json, os
P = []
def prop(id, title, stmt, over, text, why, files, mech, obs, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": obs, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": stmt, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

EX = "expressions.go"; ST = "parser_stmt.go"; DE = "parser_decls.go"; LX = "lexer.go"; IR = "irbuilder.go"; DR = "driver.go"; MA = "main.go"; OP = "options.go"

prop("C01", "Every operator computes the value B gives it",
 "For every expression, the generated code computes for each unary, binary, assignment, increment, conditional, indexing, address and indirection operator exactly the 64-bit word result that B defines for the operands, comparisons and logical negation yielding 1 or 0, and indexing counting in 8-byte words. Compound assignments store the result of the plain operator of the old value and the right operand, and yield the value stored.",
 ["programs", "inputs"], "all expressions built from all operators, over all operand values, in all places an expression may stand",
 "tests evaluate a few expressions with a few operand values each; a wrong opcode, swapped operand or wrong width shows up only for particular operators and operands",
 [EX], [("binary operators", EX+": parseExpressionWithLevel, applyBinaryOp"), ("unary operators", EX+": parseUnary"), ("postfix", EX+": parsePostfix"), ("primaries", EX+": parsePrimary")], ["LLVM IR of each expression", "program output"])
prop("C02", "Operator precedence and associativity follow B's table",
 "Every sequence of operands and operators that B allows is accepted and grouped by B's precedence levels: unary and postfix first, then multiplicative, additive, shift, relational, equality, &, |, ?: and assignment last. Binary operators group to the left, conditional and assignment operators to the right; the longest operator that can be formed from the characters is taken.",
 ["programs"], "all token sequences, all operator pairs and nestings",
 "the tests contain a dozen mixed expressions; the number of operator pairs and contexts is far beyond that and a wrong grouping usually still compiles",
 [EX], [("precedence climbing", EX+": parseExpressionWithLevel"), ("operator recognition", EX+": parseBinaryOperator and friends")], ["structure of the generated IR"])
prop("C03", "Only storage can be assigned to, incremented or have its address taken",
 "An operator that needs a storage location is accepted exactly for names of variables, dereferences, subscripted elements and the results of prefix ++ and --, and is rejected with an error for every other operand. When accepted, it reads and writes that very location.",
 ["programs"], "all operand forms of =, compound assignments, ++, -- and &",
 "tests try a few valid and a few invalid operands; each operator handles its operand separately in every grammar position",
 [EX], [("lvalue flag", EX+": parsePrimary, parsePostfix, parseUnary, parseExpressionWithLevel")], ["compile errors", "stores in the generated IR"])
prop("C04", "Operands are evaluated exactly once, left to right, and only if needed",
 "The side effects of every operand of an expression happen exactly once when the expression is evaluated, in left-to-right order for operators and call arguments. A conditional expression evaluates its condition and then exactly the chosen one of its two arms.",
 ["programs", "inputs"], "all nestings of expressions with side effects (calls, assignments, increments)",
 "evaluation order and duplicate evaluation are invisible unless several operands have interacting side effects; the tests have hardly any such expression",
 [EX], [("emission order", EX+": parseExpressionWithLevel, parsePostfix, parseUnary")], ["order of loads, stores and calls in the IR"])
prop("C05", "Control flow follows the statements",
 "if, else, while, switch, case, goto, labels, compound statements and return transfer control exactly as B defines for every nesting of statements: conditions test for non-zero, else belongs to the nearest if, loops re-test the condition, a switch enters at the label of the matching case or skips the body, cases fall through, and return ends the function with the given value or zero.",
 ["programs", "inputs"], "all statement nestings and all condition values",
 "tests run a handful of programs; unusual nestings (case inside if inside while, else after nested if, code after goto) are combinatorially many",
 [ST], [("statements", ST+": parseStatementWithSwitch, parseIf, parseWhile, parseSwitch, parseCase, parseGoto, parseReturn")], ["control flow graph of the IR"])
prop("C06", "Generated code is well formed for every accepted program",
 "For every program the compiler accepts, each basic block it generates ends with exactly one terminator, every branch goes to a block that has been generated in the same function, nothing is emitted after a terminator, and every value used is computed on all paths that reach its use. Programs that would need anything else (jump to an undefined label, duplicate label, duplicate case) are rejected with an error.",
 ["programs"], "all accepted programs",
 "LLVM rejects malformed IR only when such a program is compiled; the tests contain few unusual statement sequences",
 [ST, IR, EX], [("block management", ST+" and "+IR), ("label table", IR+": DefineLabel, CheckLabels")], ["LLVM IR", "error messages of clang"])
prop("C08", "Integer and character constants have the value B gives them",
 "A sequence of digits has its decimal value, or its octal value (with 8 and 9 counting as digits) when it starts with 0. A character constant of up to eight characters is the word whose bytes are the characters, the last one in the least significant byte, with every escape sequence replaced by its character; undefined escapes, more than eight characters and unterminated constants are errors.",
 ["inputs"], "all digit sequences and all sequences of up to 9 characters and escapes",
 "tests sample some constants; an error for one escape, one length or one radix is easily missed",
 [LX], [("Number", LX+": Lexer.Number"), ("Character", LX+": Lexer.Character, Lexer.Escape")], ["constants in the IR"])
prop("C09", "String literals keep every character",
 "The text of a string literal is exactly the sequence of its characters with escape sequences replaced by the characters they stand for; undefined escapes and unterminated strings are errors. Every use of a string literal denotes the address of a NUL-terminated copy of that text in memory.",
 ["inputs", "programs"], "all character sequences, all places where a string can stand",
 "only a few escapes and short strings are tested",
 [LX, EX, DE], [("String", LX+": Lexer.String"), ("string constants", EX+": parsePrimary; "+DE+": initial values")], ["data of the IR"])
prop("C10", "Blanks and comments never change the meaning",
 "Any sequence of blanks, newlines and comments may stand between any two tokens of a program and changes nothing, and a comment extends to the first */ after its /*. A token is never split or joined by what is skipped.",
 ["inputs", "programs"], "all token boundaries of the grammar, all sequences of blanks and comments",
 "there are hundreds of token boundaries in the grammar; tests write programs in one customary layout",
 [LX, EX, ST, DE], [("Whitespace", LX+": Lexer.Whitespace, Lexer.Comment"), ("calls between tokens", "all parser functions")], ["acceptance and IR of re-laid-out programs"])
prop("C11", "No source character is lost, duplicated or reordered",
 "Every character of the source is consumed exactly once and in order: a character that a reading step looked at without using is seen by the next step, for every amount of look-ahead and also at the end of the file. Identifiers and keywords are made of exactly the letters, digits and underscores found in the source up to the first other character.",
 ["inputs"], "all source texts (ASCII), all look-ahead situations",
 "lost characters show only for particular neighbouring tokens, such as a keyword prefix or an operator at the end of the file",
 [LX, EX, ST, DE], [("pushback", LX+": ReadChar, UnreadChar"), ("look-ahead", "operator and keyword recognition in "+EX+", "+ST+", "+DE)], ["acceptance of programs"], [("pushback buffer", "characters to be read again", LX+": Lexer.buffer")])
prop("C12", "Errors are always reported and never produce output",
 "Whenever any step of a compilation fails (reading a file, any syntax or semantic error, writing the IR, running the external compiler), the command ends with a message and a non-zero status, and no later step runs as if it had succeeded.",
 ["inputs", "fault_sequences"], "all error points of all steps",
 "tests trigger a few errors; an ignored error result shows only when that very call fails",
 [MA, DR, LX, EX, ST, DE, IR], [("error propagation", "every call that returns an error")], ["exit status", "stderr", "absence of output files"])
prop("C13", "Names resolve by B's scope rules",
 "A name in a function denotes the variable, vector or parameter declared for it in that function, otherwise the global variable an extrn declaration of that function makes visible, otherwise the function of that name, which is declared as external when the file does not define it. Local and extrn declarations of one function are never visible in another. Assigning to a name that is not declared, using a global variable that is not made visible, giving one name to two parameters, and giving a function and a variable the same name are errors.",
 ["programs"], "all declaration and use patterns",
 "tests use few shadowing patterns and few functions per file",
 [DE, ST, EX, IR], [("symbol tables", IR+": locals, globals"), ("declarations", ST+": auto, extrn; "+DE+": parameters")], ["operands of loads, stores and calls in the IR"], [("locals", "variables of the current function", IR+": Compiler.locals"), ("globals", "variables of the file", IR+": Compiler.globals")])
prop("C14", "Automatic variables have their own storage once per call",
 "Each automatic variable, parameter and vector declared in a function has its own storage of the declared size, allocated exactly once per call no matter how often control passes the declaration, and a vector's name holds the address of its first word. A parameter holds the argument's value on entry.",
 ["programs", "histories"], "all declarations in all positions, also inside loops, and all call histories",
 "storage errors appear only with large sizes, loops over declarations or recursion",
 [ST, DE, IR], [("auto", ST+": parseAuto"), ("parameters", DE+": parseFunction")], ["allocas in the IR"])
prop("C15", "Global data has the declared size and initial values",
 "A global scalar or vector occupies the number of words it declares, at least as many as it has initial values, and starts with exactly the listed initial values (numbers, negated numbers, characters and strings) in order and zero elsewhere. A vector is preceded by a word that holds the address of its first element. A later declaration of the same variable replaces an earlier one completely.",
 ["programs"], "all global declarations and initialiser lists",
 "tests declare a few globals with one or two initialisers",
 [DE, IR], [("globals", DE+": parseGlobal, vector and scalar declarations")], ["global definitions in the IR"])
prop("C16", "Functions are defined and called with the right arguments",
 "A function definition binds its parameters to the arguments in the order written, and yields the value of the return statement executed, zero when it falls off the end. A call passes every argument expression's value in order to the function named or computed and yields its result, whatever the number of arguments.",
 ["programs"], "all definitions and calls, any number of arguments, direct and indirect",
 "tests call with few arguments and few shapes of callee",
 [DE, EX, IR], [("definitions", DE+": parseFunction"), ("calls", EX+": parsePostfix, parseCall")], ["IR of calls and definitions"])
prop("C17", "Symbol names agree between program, main and runtime",
 "Every global name of a B program is mangled in the one systematic way in definitions and in references: main keeps its name, every other name gets the fixed prefix. No two definitions of one output have the same symbol, and names made up by the compiler (strings, vector data) never coincide with those of the program.",
 ["programs", "configurations"], "all names, in all files and in the runtime library",
 "tests link a few names only",
 [IR, OP, "runtime/runtime.h"], [("prefix", OP+": GlobalPrefix; "+IR), ("aliases", "runtime/runtime.h: ALIAS and declarations")], ["symbol table of objects"])
prop("C18", "The external compiler is run with exactly the arguments the options ask for",
 "For every combination of options, the command run to produce the output names the generated IR (and other inputs, library directories and libraries in the order given), the requested optimisation, debug and output kind, and the output file, and nothing that the user did not ask for.",
 ["configurations"], "all combinations of command-line options and input lists",
 "the options multiply to thousands of combinations; tests use a few",
 [DR], [("command lines", DR+": functions that run clang")], ["arguments of the child process"])
prop("C19", "Temporary files are always removed, kept files are kept",
 "Every temporary file the command creates is removed on every way out, success or failure at any step, unless the user asked to keep temporaries, and no file that is not such a temporary is ever removed. ",
 ["fault_sequences", "configurations"], "all failure points of all output kinds",
 "failures between creation and removal are not exercised by tests",
 [DR], [("removal", DR+": deferred removals")], ["files left after the command"])
prop("C20", "Output names and input files are chosen and validated as documented",
 "For every input list and option combination, the output is written to the file given by -o or to the documented default for the kind of output, and inputs with unsupported suffixes, missing inputs or several inputs where one is required are rejected before anything is written. ",
 ["configurations", "inputs"], "all input names and option combinations",
 "tests cover only the usual names",
 [DR, MA], [("output name", DR), ("validation", DR+" and "+MA)], ["files written", "error messages"])
prop("C21", "Each command-line flag sets exactly its own option",
 "Each documented flag has the documented effect on the compilation and no other flag has it, contradictory output kinds are resolved as documented, and the exit status is zero exactly when the compilation succeeded (or help or version was asked for).",
 ["configurations"], "all flags and their combinations",
 "tests use each flag at most once and rarely in combination",
 [MA, OP], [("flags", MA), ("options", OP)], ["behaviour of the command", "exit status"])
prop("C22", "Compilation is deterministic",
 "Compiling the same sources with the same options always produces the same intermediate code, byte for byte, independent of the process, the time, the environment and of other compilations.",
 ["programs", "histories"], "all sources; all runs",
 "map iteration order or hidden state changes the output only sometimes",
 [IR, DE, ST, EX, LX, DR], [("whole compiler", "all functions reachable from the compilation of a file")], ["generated IR of repeated runs"])
prop("C23", "The compiler terminates on every input",
 "For every finite input, valid or not, the compiler ends: every loop and every recursion of the parser consumes source text or ends.",
 ["inputs"], "all source texts",
 "a test can only show that a particular input ends",
 [LX, EX, ST, DE], [("loops and recursion of the parser", "all parser functions")], ["termination"])
prop("C24", "The compiler never crashes on any source text",
 "For every source text, compiling ends in output or an error message, never in a run-time panic such as an index out of range, a nil dereference or a failed type assertion.",
 ["inputs"], "all source texts",
 "crashes hide in rare inputs",
 [LX, EX, ST, DE, IR], [("partial operations", "all functions reachable from the compilation of a file")], ["exit by panic"])
prop("C25", "printd and printo write the number in the right base",
 "printd writes the shortest decimal representation of any word with a leading minus for negative ones, and printo the shortest octal representation of any word taken as unsigned, each character once and in order. ",
 ["inputs"], "all 2^64 words",
 "tests print a few numbers",
 ["runtime/printd.c", "runtime/printo.c"], [("printd", "runtime/printd.c"), ("printo", "runtime/printo.c")], ["bytes written"])
prop("C26", "printf interprets its format exactly",
 "printf copies all characters of the format that are not conversions, and for each of %d, %o, %c and %s consumes the next argument and writes it as a decimal number, octal number (a minus sign and the octal magnitude for negative words), character constant or string, in order; %% writes one %, and any other conversion is copied unchanged. ",
 ["inputs"], "all formats and arguments",
 "tests use a few formats",
 ["runtime/printf.c"], [("printf", "runtime/printf.c")], ["bytes written"])
prop("C27", "Character input and output move each byte once",
 "write, writeb, char and lchar pick out and store exactly the characters they are asked for: write outputs the bytes of its word from the most significant non-zero one on, writeb outputs one byte, char returns the byte at the index and lchar replaces exactly that byte. ",
 ["inputs"], "all words, all indexes",
 "tests use few words",
 ["runtime/write.c", "runtime/writeb.c", "runtime/char.c", "runtime/lchar.c"], [("functions", "runtime/*.c")], ["bytes written and stored"])
prop("C28", "System call functions pass on arguments and results",
 "nread and nwrite make exactly one system call with the file descriptor, address and count given and return its result; read reads one byte of standard input and returns it when it is an ASCII character, 0 when it is not, and 4 at end of file or on an error; flush makes no system call; the program's exit status is zero when it calls exit, and the value of main when main returns. ",
 ["inputs", "fault_sequences"], "all arguments, all results of the system",
 "tests never see system call errors",
 ["runtime/read.c", "runtime/nread.c", "runtime/nwrite.c", "runtime/exit.c", "runtime/start.c"], [("functions", "runtime/*.c"), ("system calls", "runtime/x86_64.h and the other architectures")], ["system calls made"])
prop("C29", "The runtime stays inside its memory and needs no C library",
 "No function of the runtime library reads or writes memory other than its own variables and the objects its arguments designate, and none refers to a symbol that the runtime itself does not define.",
 ["inputs"], "all arguments",
 "buffer overruns happen only for extreme numbers",
 ["runtime/printd.c", "runtime/printo.c", "runtime/printf.c", "runtime/write.c"], [("buffers", "runtime/*.c")], ["memory accesses", "undefined symbols"])
prop("C30", "System call stubs obey the machine's convention on every architecture",
 "On each supported architecture, the system call stub puts number and arguments into the registers the kernel expects, takes the result from the right one, and tells the compiler every register and memory the kernel may change. ",
 ["configurations"], "all architectures, all surrounding code and optimisation levels",
 "tests run on one architecture and one compiler; a missing clobber shows only under particular register allocation",
 ["runtime/x86_64.h", "runtime/aarch64.h", "runtime/riscv64.h"], [("inline assembly", "runtime/*.h")], ["machine code of the stubs"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        p["statement"] = p["statement"].strip()
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
