AI = "path-sensitive abstract interpretation of the Go SSA form, "
TRUST = " Trusts the engine's models of the Go library and the SSA construction; source text is ASCII."
LEXNOTE = "Holds for every input: loops are abstracted to a fixpoint and compared with the regular language and the values of the specification by an inductive coupling." + TRUST
EXNOTE = "Holds for every source text and every run of the generated code: loops are abstracted to a fixpoint, sub-expressions are the analysed functions themselves (assume-guarantee on the call graph). The IR instructions have the meaning of the LLVM language reference." + TRUST
DRNOTE = "Holds for all combinations of options, input lists and outcomes of outside calls; loops over the inputs are summarised by their step. Trusts the models of os, os/exec, path/filepath and pflag; the content of the files in the model is abstract."
RT = "abstract interpretation of the unoptimised LLVM IR of the runtime library for x86_64, aarch64 and riscv64 (linear expressions over unknown words, case splits on conditions), "
RTNOTE = "Holds for all arguments and all results of the system calls. Trusts clang's translation to IR as the meaning of the C source, models va_list as the words that follow, and takes fout in 0..2^30."
CLAIMS = {
 "C25": (RT + "comparison of the bytes written on every path with the digits of the argument", RTNOTE),
 "C26": (RT + "loops to a fixpoint in lockstep with a specification of the format language", RTNOTE + " Formats and strings are shorter than 2^30 bytes."),
 "C27": (RT + "comparison of the bytes written, read and stored with the characters of the arguments", RTNOTE),
 "C28": (RT + "comparison of the system calls and results on every path with the documented ones", RTNOTE),
 "C29": (RT + "bounds and initialisation of every memory access; defined and undefined symbols of the objects", RTNOTE),
 "C30": ("comparison of the operands, clobbers and attributes of each inline assembly with the convention of its machine, on the LLVM IR for every architecture and system", "The conventions of the kernels are tables of the checker."),
 "C01": (AI + "lockstep comparison of the emitted code with specification programs", EXNOTE),
 "C02": (AI + "automaton product with the grammar of each precedence level", EXNOTE),
 "C03": (AI + "lockstep comparison of the emitted code, storage-flag tracking", EXNOTE),
 "C04": (AI + "lockstep comparison of the emitted code with specification programs", EXNOTE),
 "C08": (AI + "automaton product with the language of constants, inductive coupling of values", LEXNOTE),
 "C09": (AI + "automaton product with the language of strings, inductive coupling of contents", LEXNOTE),
 "C10": (AI + "automaton product with the language of blanks and comments", LEXNOTE),
 "C11": (AI + "stream accounting of the characters read and pushed back", LEXNOTE),
 "C05": (AI + "automaton product with the grammar of statements, matching of the emitted control-flow graph with specification graphs", EXNOTE),
 "C06": (AI + "typestate of the block under construction, matching of the emitted control-flow graph, uniqueness of block names", EXNOTE),
 "C14": (AI + "lockstep comparison of the emitted code, placement of storage in the entry block", EXNOTE + " Lengths of constants are tried for 0, 1, 2, 3 and 40."),
 "C13": (AI + "specification of name resolution per path, contents of the compiler's tables, freshness of tables at function start", EXNOTE),
 "C15": (AI + "automaton product with the grammar of declarations, inductive coupling of initial values, symbolic lengths", EXNOTE),
 "C16": (AI + "automaton product with the grammar of definitions, inductive coupling of parameters, lockstep comparison of the code of calls", EXNOTE + " The code LLVM generates for va_arg on each target is trusted."),
 "C17": (AI + "symbolic names of all symbols made, search facts over the lists of the module", EXNOTE),
 "C12": (AI + "every failed step must end the function at once with an error; typestate of the driver's steps", DRNOTE),
 "C18": (AI + "symbolic argument lists of the commands run, with unknown options, compared with the documented ones", DRNOTE),
 "C19": (AI + "ownership of temporary files on all paths, with every outside call succeeding or failing", DRNOTE),
 "C20": (AI + "symbolic output names and validation conditions compared with the documented ones", DRNOTE),
 "C21": (AI + "which option each flag variable reaches; exit status of every path", DRNOTE),
 "C22": ("effect analysis over the call graph of the compiler: map iteration whose order matters, state outliving the compilation, hidden inputs; " + AI + "what the driver writes", DRNOTE),
 "C23": (AI + "ranking of every loop by source text consumed or a counter, acyclicity of the calls made before anything is read", "Holds for every finite source text. Trusts that library functions end and that the stack is large enough for the nesting of the source."),
 "C24": (AI + "every partial operation (index, slice, nil dereference, type assertion, division, map store) proved safe on every path", EXNOTE + " Stack exhaustion by deep nesting is out of scope."),
}
NA = {}
