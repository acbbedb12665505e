"""Properties of the modules that only build with shim/absl (see DESIGN.md)."""


def add(prop, NA):
    prop("C14", "The opcode table is the 65816's",
         "Each of the 256 opcode bytes decodes to the mnemonic and addressing mode of the WDC 65816 data sheet, and a mnemonic with an addressing mode encodes exactly when the processor has that combination, to its opcode. Instruction lengths, operand widths, processor family and which of M or X sizes an immediate operand or a memory access follow the same table; every addressing mode and operand form has a name of its own.",
         ["inputs"], "256 opcodes; every mnemonic with every addressing mode",
         "a test of single opcodes cannot settle a table of 256 entries and 2500 combinations, most of them illegal",
         ["nsasm/opcode_map.cc", "nsasm/opcode_map.h", "nsasm/addressing_mode.cc", "nsasm/mnemonic.cc"],
         [("decode and encode tables", "nsasm/opcode_map.cc:DecodeOpcode/EncodeOpcode"), ("lengths", "nsasm/addressing_mode.cc:InstructionLength")],
         ["returned mnemonics, modes, opcodes and lengths"],
         "exhaustive enumeration against an independent transcription of the data sheet's opcode matrix", "complete over opcodes and mnemonic/mode pairs on every run")
    prop("C15", "Decoding and assembling instructions are inverse",
         "Any byte string decodes, under known M and X widths, to exactly the instruction the 65816 would fetch (length, mnemonic, mode, operand values, branch target) or to an error when bytes are missing or an immediate's width is unknown; assembling the decoded instruction at the same address writes the same bytes. In the other direction, an instruction with literal operands assembles to its opcode and little-endian operand, and decodes back to itself.",
         ["inputs"], "all byte strings, addresses and status flag states; all instructions with literal operands",
         "the existing decoder and assembler tests use a few dozen instructions",
         ["nsasm/decode.cc", "nsasm/instruction.cc"],
         [("decoder", "nsasm/decode.cc:Decode"), ("encoder", "nsasm/instruction.cc:Instruction::Assemble")],
         ["decoded instruction, bytes written to the output"],
         "property-based testing: round trip plus a reference decoder", "all opcodes every run; operands, addresses and truncation sampled")
    prop("C16", "A source line means exactly the labels and statements written on it",
         "A line parses, under the documented grammar (labels, `:` separators, instructions, directives, scope braces, comments), to exactly the labels and statements written on it, in order, each carrying the line's location. A line outside the grammar is an error that names the file and line; nothing on a line is ever silently dropped.",
         ["inputs"], "all source lines",
         "the parser tests check a few valid lines; nothing checks that trailing or damaged text is refused",
         ["nsasm/parse.cc", "nsasm/statement.cc", "nsasm/directive.cc", "nsasm/instruction.cc"],
         [("line parser", "nsasm/parse.cc:Parse")], ["returned labels and statements, or the error"],
         "property-based testing against a reference recursive-descent parser over generated and damaged lines", "sampled; lines of up to four items")
    prop("C17", "Operand syntax and size select the addressing mode",
         "For every mnemonic, operand form and operand size class (literal digits, `<`, `@`, names, suffix), parsing selects the addressing mode by the documented rule: the narrowest legal mode at least as wide as the operand, a 16-bit mode for plain names, the width given by a suffix for immediates, and a relative mode for branches. When the mnemonic has no such mode the line is an error.",
         ["inputs"], "all mnemonics, operand forms, size classes and suffixes",
         "the product of 93 mnemonics, 14 forms, 6 size classes and suffixes is far beyond the hand-written cases",
         ["nsasm/addressing_mode.cc", "nsasm/parse.cc", "nsasm/instruction.cc"],
         [("mode deduction", "nsasm/addressing_mode.cc:DeduceMode"), ("suffix handling", "nsasm/parse.cc")], ["parsed instruction's mode, or the error"],
         "enumeration of the product with generated operand spellings, against a reference rule", "every combination each run; spellings of each class sampled")
    prop("C18", "Expressions evaluate by the documented arithmetic",
         "An expression evaluates to the value, and has the width, given by ordinary precedence and left association over 32-bit wrapping arithmetic with `<`, `>`, `^` byte selection and name lookup; division by zero and undefined names are errors, never crashes.",
         ["inputs"], "all expressions over literals, names and operators; all name bindings",
         "the tests evaluate about twenty expressions",
         ["nsasm/expression.cc", "nsasm/expression.h", "nsasm/parse.cc"],
         [("operator semantics", "nsasm/expression.cc"), ("precedence climbing", "nsasm/parse.cc")], ["value and type of the parsed expression"],
         "property-based testing against a reference evaluator", "sampled expressions up to depth about 8")
    prop("C19", "The lexer splits any line as the lexical grammar says",
         "Any line tokenizes to exactly the tokens of the lexical grammar, in order and with their values (hex, binary and decimal literals, identifiers, keywords in any case, punctuation, comments dropped), or is an error naming file and line. A literal that does not fit in 32 bits (or has more than six hexadecimal digits) is an error. Tokens compare equal, with one another and with plain values, exactly when kind and value agree.",
         ["inputs"], "all strings",
         "the tests tokenize a handful of lines", ["nsasm/token.cc", "nsasm/token.h"],
         [("tokenizer", "nsasm/token.cc:Tokenize")], ["token list or error"],
         "property-based testing against a reference lexer over structured and random text", "sampled")
    prop("C20", "A printed statement reads back as the same statement",
         "Any statement (instruction with mnemonic, suffix, operands and return convention, or directive with its operands, flag state and convention) prints as text that parses to one statement with the same mnemonic or directive, addressing mode, suffix, flags, convention, and operands of the same value and width; compound operands print in prefix form `op+(a, b)`, which stands for the same infix expression. So does every mode the decoder can produce.",
         ["inputs"], "all statements the parser accepts",
         "the tests print about twenty statements, and never parse the result",
         ["nsasm/statement.cc", "nsasm/instruction.cc", "nsasm/directive.cc", "nsasm/expression.h", "nsasm/addressing_mode.cc"],
         [("printing", "nsasm/instruction.cc:Instruction::ToString"), ("printing", "nsasm/directive.cc:Directive::ToString")], ["printed text, and the statement it parses to"],
         "property-based testing: print/parse round trip over generated source lines", "sampled")
    prop("C21", "Assembling a program writes exactly the bytes it says",
         "A valid program of any number of files assembles without error, and writes, for every instruction and data directive and for nothing else, exactly its encoding (opcode, little-endian operand values, relative displacements) at the address it has by counting from the preceding `.org` and wrapping inside the bank. Every byte is written once.",
         ["inputs", "configurations"], "all valid programs: files, modules, scopes, names, modes, calls, branches, data",
         "the repository tests assemble a handful of short single-file programs",
         ["nsasm/assembler.cc", "nsasm/module.cc", "nsasm/instruction.cc", "nsasm/directive.cc", "nsasm/expression.cc"],
         [("passes", "nsasm/assembler.cc:Assemble"), ("module passes", "nsasm/module.cc:Module::Assemble")], ["bytes given to the output sink"],
         "model-based generation of valid programs with an independent encoder as oracle, under ASan and UBSan", "sampled programs of up to three files and some hundred statements")
    prop("C22", "The result does not depend on file order or hash table order",
         "Assembling the same files again, whatever the iteration order of hash tables, gives the same success or error, output bytes, reported jump targets, conventions and names of addresses. Giving the files in another order changes neither whether they assemble nor the output, the jump targets, nor which addresses have a convention or a name.",
         ["schedules", "inputs"], "all programs, all permutations of the files, all hash table orders",
         "a test runs one order, and the iteration order of the hash tables in use differs per process",
         ["nsasm/assembler.cc", "nsasm/module.cc"],
         [("module ordering", "nsasm/assembler.cc:Assemble"), ("names of addresses", "nsasm/module.cc:Module::NameForAddress")], ["success, error text, output bytes, reports"],
         "metamorphic testing: permuted file lists and salted hash table orders", "sampled programs, two permutations and two salts each; which of several duplicate definitions is reported may vary")
    prop("C23", "A name means the innermost definition in scope, or assembly fails",
         "An unqualified name means the label of the innermost enclosing scope that defines it, else of the file's top level (where exported labels of any scope belong), else of the unnamed namespace; a qualified name means the exported or top-level label of that namespace. A name defined twice in one scope or namespace, undefined, or (through `.equ`) defined in terms of itself makes assembly fail with nothing mistaken for it, and in every other case assembly succeeds.",
         ["inputs"], "all programs of several files, scopes, namespaces, exports and `.equ` chains",
         "the tests have about ten name lookups; shadowing, exports and dependencies across files interact",
         ["nsasm/module.cc", "nsasm/assembler.cc", "nsasm/identifiers.h"],
         [("scopes and lookup", "nsasm/module.cc:Module::LocalIndex"), ("cross-module dependencies", "nsasm/assembler.cc")], ["success or failure, and the values that end up in the output"],
         "property-based testing against a reference resolver, on valid, perturbed and unconstrained programs", "sampled; names come from a set of a dozen")
    prop("C24", "No byte is ever assembled twice",
         "Assembly fails iff two statements of the program (in one file or two) assemble some same byte, counting wrap-around at bank ends. Otherwise the assembler reports containing an address exactly when it wrote a byte there.",
         ["inputs"], "all layouts of code and data blocks over the 24-bit address space",
         "overlap depends on every pair of blocks; a test has one", ["nsasm/module.cc", "nsasm/assembler.cc", "nsasm/ranges.cc", "nsasm/ranges.h"],
         [("claiming bytes", "nsasm/module.cc"), ("merging of modules", "nsasm/assembler.cc")], ["success or failure, Contains()"],
         "property-based testing with blocks laid next to and over one another, against a byte set", "sampled layouts")
    prop("C25", "Every instruction of an accepted program runs at its assembled width",
         "If a program assembles, then whenever it is run from any `.entry` with any flag state and data that the entry allows, and every call returns as its declared convention says, each instruction executes with the M and X flags under which it was assembled, so its length is what the processor fetches. Execution does not run on into data or past the end of a block. Conversely, straight code in which constants, REP, SEP, CLC, SEC, XCE and matching pushes and pulls settle the width of every instruction is accepted.",
         ["inputs", "histories"], "all accepted programs, all paths through them, all processor states they can start in",
         "the property quantifies over every run of every program; tests assemble a few and run none",
         ["nsasm/module.cc", "nsasm/execution_state.cc", "nsasm/execution_state.h", "nsasm/instruction.cc"],
         [("flow analysis", "nsasm/module.cc:Module::RunFlowAnalysis"), ("abstract execution", "nsasm/instruction.cc:Instruction::Execute"), ("stack model", "nsasm/execution_state.h")], ["assembled bytes, executed on a concrete 65816 model"],
         "property-based testing: random programs, run with random data on an independent concrete processor model", "sampled programs of about 15 statements and several runs each; code that rewrites its own stack other than by stack-relative stores is out of scope")
    prop("C26", "Processor mode tracking is a sound abstraction",
         "A flag state means a set of concrete E, M, X, C values with M = X = 1 in emulation mode; merging two states gives the most precise state that allows both (commutative, idempotent), setting, exchanging and restoring bits follows the processor, a bit is called unchanged only if it still has its value from entry, and mode names convert both ways. Merging two execution states loses nothing that both agree on, keeps nothing that only one says, and a merge never changes again once repeated.",
         ["inputs", "histories"], "all 256 states and their pairs; all histories of operations on execution states",
         "termination and soundness of the flow analysis rest on these laws for all pairs of states", ["nsasm/execution_state.cc", "nsasm/execution_state.h"],
         [("merging", "nsasm/execution_state.h:StatusFlags::operator|="), ("stack merging", "nsasm/execution_state.cc")], ["state bits, registers and stack values"],
         "complete enumeration of states and pairs against a set model; stateful property-based testing of execution states", "pairs complete on every run; execution states sampled")
    prop("C37", "What is tracked of registers and stack holds on every run",
         "After any history of pushes, pulls, loads, additions, flag changes and merges on an execution state, everything it claims of A, X, Y, the data bank, the flags or a pulled byte (a value, or unchanged since entry) is true at the current register width on every processor run of that history, given that register claims are dropped when a width changes. Pulling what was pushed, in the opposite order at the same widths, gives back what was known of each item; after a merge exactly what both states know. Once the depth of the stack is not known, nothing pulled is claimed.",
         ["inputs", "histories"], "all histories of operations on execution states, all concrete machines",
         "the flow analysis of the assembler and the disassembler restores flags from this stack; no test covers it", ["nsasm/execution_state.h", "nsasm/execution_state.cc"],
         [("register values", "nsasm/execution_state.h:RegisterValue"), ("stack", "nsasm/execution_state.h:Stack"), ("merging", "nsasm/execution_state.h:ExecutionState::operator|=")], ["claims about registers, flags and pulled bytes"],
         "stateful property-based testing against several concrete machines at once; push/pull round trips", "sampled")
    prop("C38", "Executing an instruction keeps the tracked machine state true",
         "For every instruction and every execution state, the state after executing it claims nothing of A, X, Y, the data bank, the flags or the pushed bytes that is false on a processor which executes the same machine code from a state the claims before it allowed, whatever memory holds, whatever an operand that cannot be evaluated turns out to be, and whatever a call leaves in the registers; taken branches included. Instructions which touch nothing that is tracked change nothing; loading a constant, and counting a known register of known width up or down, gives a known value; REP and SEP with a known operand, CLC and SEC set exactly the bits they name. Operands that are names are looked up in the context given, and evaluation is asked for again only if a lookup failed.",
         ["inputs", "histories"], "all instructions with all operands, all execution states, all concrete machines",
         "flow analysis of assembler and disassembler consists of these steps; the tests execute none of them", ["nsasm/instruction.cc", "nsasm/execution_state.h"],
         [("abstract execution", "nsasm/instruction.cc:Instruction::Execute"), ("taken branches", "nsasm/instruction.cc:Instruction::ExecuteBranch")], ["the execution state after each instruction"],
         "stateful property-based testing: instruction sequences over the whole opcode table on a tracked state and four concrete machines", "sampled; writes to the stack through ordinary memory addresses are out of scope")
    prop("C27", "An instruction is assembled at the width its mode implies, or refused",
         "An instruction whose operand width depends on M or X assembles iff that flag is known, with the operand size it implies; a `.b` or `.w` suffix is accepted iff it does not contradict what the processor mode says about the flag that governs the instruction. An instruction not governed by a flag, with a suffix, is refused.",
         ["inputs"], "all instructions, suffixes and processor modes",
         "thousands of combinations of instruction, suffix and mode", ["nsasm/instruction.cc", "nsasm/opcode_map.cc", "nsasm/module.cc"],
         [("consistency check", "nsasm/instruction.cc:Instruction::IsConsistent"), ("sizes", "nsasm/instruction.cc:Instruction::SerializedSize")], ["success or failure, size of the output"],
         "complete enumeration of the grid of instructions, suffixes and modes against a reference table", "complete grid on every run; operand values sampled")
    prop("C30", "Relative branches reach exactly what the processor can",
         "A relative branch assembles iff its target is in the same bank and its displacement, counted from the next instruction and wrapping at the bank's ends, fits the signed 8-bit (or for BRL and PER 16-bit) operand, which is then exactly what is written. Any other target is an error.",
         ["inputs"], "all branch instructions, places and targets", "off-by-one limits and wrap-around at bank ends are not sampled by any test",
         ["nsasm/instruction.cc", "nsasm/address.h"], [("displacements", "nsasm/instruction.cc:Instruction::Assemble")], ["success or failure, bytes written"],
         "property-based testing around the limits against integer arithmetic", "sampled; half within two bytes of a limit")
    prop("C31", "Reported jump targets, conventions and names are exactly the program's",
         "After assembly, the reported jump targets are exactly the constant targets of JSR, JSL and JMP and of `.remote` outside the assembled bytes, each with the mode of the calling code (bits that differ between callers unknown). The reported conventions are exactly those declared by `.entry` and `.remote`, and the name of an address is the alphabetically first label with that value of the first named file that has one.",
         ["inputs"], "all valid programs", "no test inspects these reports for more than one jump; disassemble_more relies on them",
         ["nsasm/assembler.cc", "nsasm/module.cc", "nsasm/instruction.cc"],
         [("jump targets", "nsasm/assembler.cc:Assembler::JumpTargets"), ("names", "nsasm/module.cc:Module::NameForAddress")], ["JumpTargets(), JumpTargetReturnConventions(), NameForAddress()"],
         "model-based generation of programs with an independent account of what they declare", "sampled programs of up to three files")
    prop("C28", "A disassembly assembles back to the same bytes",
         "The listing quick_disassemble prints (labels, `.entry` with flag state, `.org`, instructions with suffixes and return conventions) of any disassembled code, found by following far targets from one or more entry points, assembles without error to exactly the disassembled bytes at their addresses, and the assembler then reports as jump targets exactly the far targets that lie outside them. (Not claimed for code in which one byte is part of two decoded instructions.)",
         ["inputs", "histories"], "all memory images, entry points, flag states, return conventions",
         "the tests never assemble a disassembly; suffixes, folded CLC/ADC pairs, labels and modes must agree between two independent analyses",
         ["nsasm/disassemble.cc", "nsasm/instruction.cc", "nsasm/module.cc", "nsasm/assembler.cc"],
         [("suffixes, labels and folding", "nsasm/disassemble.cc:Disassembler::Cleanup"), ("flow analysis of the listing", "nsasm/module.cc:Module::RunFlowAnalysis")],
         ["printed listing, and the bytes and jump targets of its assembly"],
         "property-based testing: disassemble, print, assemble round trip over generated machine code", "sampled images of up to five routines; images with PER, partly named states and code wrapping at a bank end are known findings")
    prop("C29", "A disassembly holds exactly the code that can run, decoded as it runs",
         "After any history of disassembly requests, each that succeeded has in the result every instruction the processor can run from its start under its flag state and the return conventions, decoded as the processor fetches it, with a recorded flag state that allows every run; every far target is reported with a state that allows every arrival, and nothing else is in the result or reported. A request is refused only if some instruction it may reach cannot be read or decoded, with an error that names the source, and then leaves the result unchanged. Cleanup gives names to exactly the entry points and branch targets, folds CLC/ADC and SEC/SBC pairs that no branch enters, and changes nothing else.",
         ["histories", "inputs"], "all memory images, histories of requests, flag states, return conventions; all runs of the code",
         "the tests disassemble a handful of short routines once each",
         ["nsasm/disassemble.cc", "nsasm/decode.cc", "nsasm/instruction.cc", "nsasm/execution_state.h"],
         [("work list", "nsasm/disassemble.cc:Disassembler::Disassemble"), ("renaming and folding", "nsasm/disassemble.cc:Disassembler::Cleanup")],
         ["Result(), far targets, errors; against execution on a concrete 65816 model"],
         "stateful property-based testing against a concrete processor model and a control-flow closure", "sampled images of up to four routines and histories of about four requests; code that rewrites its own stack other than by stack-relative stores is out of scope")
    prop("C33", "quick_assemble writes the ROM with exactly the assembled bytes, or fails cleanly",
         "quick_assemble, given a ROM, an output path and source files that assemble, exits with success and the output is the ROM file with exactly the assembled bytes replaced; with no output it only compares, and succeeds iff the ROM already holds those bytes. On any failure (bad arguments, unreadable files, a source that does not assemble, bytes outside the ROM, an output that cannot be written) it exits with failure and a message, and never leaves the source ROM changed.",
         ["inputs", "configurations"], "all ROMs, programs, and command lines",
         "no test runs the tool", ["util/quick_assemble.cc", "nsasm/rom.cc", "nsasm/rom.h", "nsasm/assembler.cc"],
         [("the tool", "util/quick_assemble.cc:main"), ("ROM sink", "nsasm/rom.cc:RomOverwriter")], ["exit status, messages, output file"],
         "property-based testing of the program with generated cartridges, sources and faulty command lines against a byte model", "sampled; a full disk is not simulated")
    prop("C35", "The disassembling tools list every routine they find, true to the ROM",
         "quick_disassemble lists, and disassemble_more adds to a partial disassembly given as source, the code reachable from the given entry points (or from the jump targets of the known part): every listed line shows the ROM's own bytes decoded as the processor runs them, the listing reassembles to those bytes, known parts that do not match the ROM are refused, and faulty command lines end in a message and a failure status, never a crash.",
         ["inputs", "configurations"], "all ROMs, entry points, partial sources and command lines",
         "no test runs the tools", ["util/quick_disassemble.cc", "util/disassemble_more.cc", "nsasm/disassemble.cc", "nsasm/rom.cc", "nsasm/assembler.cc"],
         [("listing", "util/quick_disassemble.cc:main"), ("continuing a disassembly", "util/disassemble_more.cc:main")], ["standard output, exit status"],
         "property-based testing of the programs with generated cartridges; reassembly by quick_assemble and a processor model as oracles", "sampled cartridges with a few routines")
    prop("C36", "dumb_disassemble, print_opcode_map and interactive_parse report truthfully",
         "dumb_disassemble lists, line after line, the instructions the processor would fetch from the given address under the given mode, with the flag states that result, and labels branches with states; print_opcode_map prints every opcode with its mnemonic and mode; interactive_parse prints for each input line what it means, or an error, and goes on to the next line. Faulty arguments end in a message, never a crash.",
         ["inputs", "configurations"], "all ROMs, addresses, modes and input lines",
         "no test runs the tools", ["util/dumb_disassemble.cc", "util/print_opcode_map.cc", "util/interactive_parse.cc", "nsasm/decode.cc"],
         [("the tools", "util/dumb_disassemble.cc:main")], ["standard output, exit status"],
         "property-based testing of the programs against a processor model and a reference lexer and parser", "sampled; print_opcode_map has no input and is checked completely")
    prop("C32", "An assembly error names the file and line of the statement at fault",
         "When a program fails to assemble because of one faulty statement (bad token or syntax, a name, label, scope or module directive out of place, a value or address out of range, a wrong operand width, unreachable code, code running into data or off the end), the error begins with the path of its file and its line number. If several statements conflict (overlapping bytes, duplicate definitions, branches too far), it names one that is in conflict; overlaps between files and `.equ` definitions that cannot be ordered name the file.",
         ["inputs"], "all programs with a fault, all kinds of faults, all places",
         "the tests check that some programs fail, not where the error points", ["nsasm/error.h", "nsasm/module.cc", "nsasm/assembler.cc", "nsasm/parse.cc", "nsasm/token.cc", "nsasm/instruction.cc"],
         [("locating errors", "nsasm/error.h:NSASM_RETURN_IF_ERROR_WITH_LOCATION"), ("passes", "nsasm/module.cc:Module::RunFirstPass")], ["the error text"],
         "property-based testing by fault injection: one fault put into a generated valid program, with the line known by construction", "sampled; sixteen kinds of faults, and four kinds of conflicts")
    prop("C34", "Any text assembles, or fails with a located error",
         "Assembling any list of files with any contents terminates without crash or undefined behaviour. It either succeeds, having written no byte twice and reporting as contained exactly the bytes written, or fails with a message about the program (not an internal `logic error`) located in one of the files, at a line that exists. Adding comment or blank lines to a file shifts the line of an error in it by their number, and changes nothing else.",
         ["inputs"], "all source texts",
         "tests feed the assembler well-formed programs and a few chosen errors", ["nsasm/token.cc", "nsasm/parse.cc", "nsasm/module.cc", "nsasm/assembler.cc", "nsasm/expression.cc", "nsasm/instruction.cc"],
         [("front end", "nsasm/parse.cc:Parse"), ("module loading", "nsasm/module.cc:Module::LoadAsmFile")], ["success, error text, output, reports; crashes and sanitizer reports"],
         "fuzzing with structured and damaged programs and raw text, under ASan and UBSan, with a metamorphic relation", "sampled; nesting depth is bounded by line lengths of a few hundred characters")
    prop("C39", "A source file is read as exactly its lines",
         "Opening a source file gives its path and exactly its lines in order: the bytes between line feeds, a last line without line feed included, and nothing for what follows the last line feed; two files compare equal exactly when paths and lines are. A path that cannot be opened or read (missing, a directory, a loop of links) is an error naming it, and no file is left open. The line ends (LF or CRLF), trailing blanks and comments, and the ending of the last line make no difference to what a program assembles to or to the error it gives, and it means the same from a file as from memory.",
         ["inputs"], "all file contents and paths",
         "no test reads a file", ["nsasm/file.cc", "nsasm/file.h", "nsasm/token.cc"],
         [("reading", "nsasm/file.cc:OpenFile"), ("files in memory", "nsasm/file.cc:MakeFakeFile")], ["lines, path and errors of a File; output and errors of assembling it"],
         "property-based testing: read back against a splitting model, and a metamorphic relation between ways of storing one program", "sampled; up to 130 KB per line; failures in the middle of a file are only those a directory gives")
    prop("C40", "Output that is refused stops assembly at the statement it belongs to",
         "If the output refuses bytes of a program (some addresses, or everything from some write on), assembly fails with the output's own message, located at the path and line of the statement whose bytes were refused (whatever location the output's error had), nothing more is written, and every byte written before that is one the program has at that address. If nothing is refused, everything is written.",
         ["inputs", "fault_sequences"], "all programs, outputs and refused addresses or points in time",
         "the test sinks of the repository accept everything", ["nsasm/module.cc", "nsasm/instruction.cc", "nsasm/directive.cc", "nsasm/statement.cc", "nsasm/assembler.cc", "nsasm/error.h"],
         [("writing statements", "nsasm/module.cc:Module::Assemble")], ["result of Assemble, and the writes that reached the output"],
         "property-based testing with an output that injects failures, against a generated program's own address and byte map", "sampled programs of up to three files")
    prop("C41", "Results depend on the input alone, not on earlier, nested or concurrent work",
         "What an assembly, a disassembly, the parsing of a line or the loading, reading and saving of a ROM gives (bytes, errors, reports, listings) is what it gives in a fresh process, whatever the process has done before, including with files of the same names or with work that failed; and a result kept does not change when other work is done. The same holds if the steps of several of them alternate, if one runs inside the output or input of another, and if they run in threads at the same time, each with its own objects, which is free of data races.",
         ["histories", "schedules", "inputs"], "all sequences, interleavings and concurrent sets of such jobs",
         "each test does one thing in one thread", ["nsasm/assembler.cc", "nsasm/disassemble.cc", "nsasm/disassemble.h", "nsasm/rom.cc", "nsasm/file.cc", "nsasm/mnemonic.cc", "nsasm/opcode_map.cc", "nsasm/directive.cc", "nsasm/addressing_mode.cc", "nsasm/parse.cc"],
         [("state shared by everything: tables", "nsasm/opcode_map.cc:ReverseOpcodeMap"), ("names of labels", "nsasm/disassemble.h:Disassembler::GenSym"), ("files", "nsasm/rom.cc:LoadRomFile")], ["results and errors of all jobs; reports of the thread sanitizer"],
         "property-based testing of histories and schedules: each job alone in a fresh process as the oracle for the same job in a sequence, interleaved, nested and in threads, under the thread sanitizer", "sampled sets of up to six jobs and sequences of up to ten; thread schedules are those the machine happens to give, races are found on any schedule by happens-before")
