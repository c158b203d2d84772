FRONT_T = "TLA+ specification of the lexer, grammar and static rules (HushLexer, HushParser); TLC computes the verdict on every source that hush is given"
FRONT_N = ("Model checking of the front end's specification on every source generated: hush's verdict, exit status and error lines have to be "
           "those that TLC computes. Bounded by the sources generated (seeded); trusts TLC. ")

prop("C10", "Invalid programs are rejected before anything runs",
     "A program is executed only if it is syntactically and statically valid: every variable used is declared in an enclosing scope, no name is declared twice in the same scope, return, self and ? occur only inside of functions and break only inside of loops of the same function, assignments have a variable or field on the left, dict literals have no duplicate keys, and builtin commands stand alone in synchronous blocks. "
     "Otherwise hush reports the first token that cannot continue a program, with its line, or else the violations of the static rules (at most twenty), each one once and in the order of the text, with its line, the rule and the name concerned, and ends with status 2 without having executed any of it; --check gives the same verdict and never executes anything.",
     ["inputs"], "all sources, with any number and kind of violations", "The tests have a few invalid scripts with one violation each; no test places violations at every position of nested constructs.",
     ["src/semantic/mod.rs", "src/semantic/scope.rs", "src/syntax/parser/mod.rs", "src/main.rs"],
     [("static rules", "src/semantic/mod.rs"), ("exit before execution", "src/main.rs run")], ["exit status", "stdout", "lines of the errors on stderr"], FRONT_T, FRONT_N)
prop("C11", "Operator precedence, associativity and free layout",
     "The grammar decides what a program means: from weakest to strongest, or, and, == and !=, the ordering operators, ++, + and -, *, / and %, then the prefix operators - and not, then calls, fields, indices and ?; binary operators associate to the left and parentheses override. "
     "The amount and kind of white space, newlines and comments between tokens never changes the meaning of a program.",
     ["inputs", "programs"], "all combinations of operators and all layouts", "The parser's tests only check that some sources parse; no test compares the value of expressions without parentheses.",
     ["src/syntax/parser/mod.rs", "src/syntax/lexer/"], [("levels of the expression grammar", "src/syntax/parser/mod.rs")], ["stdout of programs"],
     "TLA+ grammar (HushParser) composed with the abstract machine (HushCore): TLC parses the source, evaluates it, and matches the behaviour recorded",
     FRONT_N)
prop("C12", "Literals denote exactly what is written",
     "Int literals denote their exact value or, if they don't fit in 64 bits, are errors; float literals, byte literals of exactly one byte and string literals denote the value written, with the escapes \\n, \\t, \\0, \\\\, \\\" and \\' and every other byte taken as it is, including newlines and bytes that aren't UTF-8. "
     "Any other escape, an unclosed literal or a malformed number is an error, never another value; keywords are recognised as whole words only, and comments extend to the end of the line and are ignored.",
     ["inputs"], "all literals and all bytes in them", "The lexer's tests have one sample of each form.",
     ["src/syntax/lexer/automata/"], [("automata of literals", "src/syntax/lexer/automata/")], ["stdout of programs", "exit status"],
     "TLA+ lexer (HushLexer) composed with the abstract machine: TLC computes the value of every literal and matches the output recorded", FRONT_N)
prop("C26", "The front end is total",
     "For every sequence of bytes given as a source, hush comes to a verdict: it ends with status 0 or 2, as the language definition says, and never crashes, aborts or hangs. The same holds with --lex, --ast and --program.",
     ["inputs"], "all byte sequences", "The tests feed a handful of well-formed and slightly malformed sources.",
     ["src/syntax/", "src/semantic/", "src/main.rs"], [("error recovery of the parser", "src/syntax/parser/sync.rs"), ("lexer automata", "src/syntax/lexer/")],
     ["exit status"], FRONT_T, FRONT_N)

SHELL_T = ("TLA+ specification of the language together with files, processes, pipes and command blocks (HushShell over HushCore and HushSys); "
           "TLC decides whether what was observed is one of the behaviours of the specification, over all interleavings")
SHELL_N = ("Model checking along every behaviour recorded: TLC explores all interleavings of the processes and threads of the specification, and a run is accepted "
           "only if one of them has the output, exit status, files and command log observed. Bounded by the programs generated (seeded); trusts TLC and the kernel. ")
SH_FILES = ["src/runtime/command/mod.rs", "src/runtime/command/exec/mod.rs"]
prop("C13", "Commands receive exactly the arguments written",
     "The program and arguments of a command are exactly those that its words denote: quoted and escaped text verbatim, $name and ${name} replaced by the text of the variable as a part of one argument whatever bytes it contains (never split, never expanded again), an array expanding to one argument per element, in all combinations with the other parts of the same word, and adding nothing if it's empty, ~/ at the start of a word being the home folder, and every other word being one argument, also when it's empty. "
     "Substituting a dict, function, error or nested array panics before anything of the block is started; where one word is needed (program, file, value of an environment variable), any other number of them panics.",
     ["inputs"], "all words, quotes, values and bytes", "The tests only check that some commands parse; none observes the arguments received.",
     ["src/runtime/command/arg.rs", "src/syntax/lexer/automata/command/", "src/semantic/mod.rs"] + SH_FILES,
     [("expansion of words", "src/runtime/command/arg.rs"), ("lexing of command words", "src/syntax/lexer/automata/command/")],
     ["arguments received by the commands", "exit status", "stderr"], SHELL_T, SHELL_N)
prop("C14", "File name patterns",
     "A word with an unquoted * or % is replaced by the paths of exactly the files that exist when the command starts and match it, in order, relative ones starting with ./, and by nothing at all if there are none; quoted, escaped and substituted characters are never special. "
     "* matches any sequence of characters other than /, and % any single one; a component ** matches any number of nested folders; a pattern that ends with / matches folders only. std.glob yields the files that match a pattern in the same way, with ? for a single character, as an array.",
     ["inputs", "states"], "all folder contents and patterns", "There are no tests of patterns.",
     ["src/runtime/command/arg.rs", "src/runtime/lib/glob.rs"], [("expansion of patterns", "src/runtime/command/arg.rs")],
     ["arguments received by the commands", "value of std.glob"], SHELL_T, SHELL_N)
prop("C15", "Pipelines",
     "The commands of a pipeline all run concurrently, each one's standard output connected to the next one's standard input by a pipe that carries every byte in order and ends when the writer does; amounts beyond the capacity of a pipe neither block forever nor get lost, and a command whose reader is gone is ended rather than blocked. "
     "The pipeline ends once all of its commands have ended, and the result is nil if all of them were successful, one error if one failed, or an error with all of the errors, in the order of the commands; if one of them can't be started, the others see their pipes closed and are waited for.",
     ["schedules", "inputs"], "all lengths, amounts, failures, and orders in which the commands proceed", "There are no tests of pipelines.",
     SH_FILES, [("creation of pipes and stages", "src/runtime/command/mod.rs"), ("waiting for all children", "src/runtime/command/exec/mod.rs")],
     ["stdout", "files", "log of the commands", "result of the block"], SHELL_T, SHELL_N)
prop("C16", "Sequencing of commands and errors of a block",
     "The commands of a block run one after the other, each only after the one before has ended; one that ends with a status other than zero or by a signal ends the block, unless it is marked with ?, which keeps the block going but not the failure from being reported. "
     "The block yields nil if no command failed, and otherwise an error with the status and line of the failed command, or of all failed ones in order. "
     "A command that can't be started or redirected always ends the block, which then yields that error. Builtin commands act on the shell itself, at their place in the sequence.",
     ["programs", "fault_sequences"], "all sequences of successful and failing commands, with and without ?", "There are no tests of the execution of blocks.",
     SH_FILES + ["src/runtime/command/exec/error.rs"], [("abort on error", "src/runtime/command/exec/mod.rs"), ("builtins", "src/runtime/command/mod.rs")],
     ["log of the commands", "result of the block", "stdout"], SHELL_T, SHELL_N)
prop("C17", "Redirections",
     "The redirections of a command take effect from left to right, before it runs and only for it: > truncates or creates and >> appends to exactly the file named, 1 and 2 and their duplications (2>1) refer to what the descriptor denotes at that point, < reads the file, and << gives exactly the bytes of the text, of any length, and a newline. "
     "A file that can't be opened is an error of that command, which does not run, and other descriptors panic; no redirection ever affects another command, or the shell itself.",
     ["inputs", "states"], "all sequences of redirections, targets and contents", "The tests only check that redirections parse.",
     SH_FILES, [("resolution of redirections", "src/runtime/command/exec/mod.rs")], ["files", "stdout", "stderr", "result of the block"], SHELL_T, SHELL_N)
prop("C18", "Capture blocks",
     "${ } yields a dict with exactly the bytes that its pipelines write to standard output (stdout) and that the last command of each writes to standard error (stderr), in order and kept apart, of any amount and in any interleaving of the two, without ever blocking forever; nothing captured shows up in the output of the program. "
     "If a command fails, the block yields the error, whose context has the captured output along with the original context.",
     ["schedules", "inputs"], "all amounts and interleavings of output", "There are no tests of captures.",
     SH_FILES + ["src/runtime/mod.rs"], [("reader threads", "src/runtime/command/exec/mod.rs")], ["value of the block", "stdout", "stderr"], SHELL_T, SHELL_N)
prop("C19", "Asynchronous blocks",
     "&{ } starts its block and yields at once a handle; the program and the block then proceed independently, and whatever the program does to its variables afterwards doesn't change the block's arguments. "
     "join waits for the block to end and yields the result that the block would have had in the foreground; a panic of the block is raised by join, and the second join of a handle panics. Blocks that are never joined don't keep the program from ending. std.sleep suspends the program, and not its blocks, for at least the milliseconds given.",
     ["schedules", "programs"], "all interleavings of the program and any number of blocks", "There are no tests of asynchronous blocks.",
     SH_FILES + ["src/runtime/command/exec/join.rs"], [("thread and join handle", "src/runtime/command/exec/join.rs")], ["stdout", "files", "result of join"], SHELL_T, SHELL_N)
prop("C20", "Folder, environment and the shell's surroundings",
     "std.cd and cd change the folder, and std.export the environment, of the shell: every later command, redirection, pattern, std.cwd and std.env sees exactly the folder and variables that the preceding ones established, the last change of each winning; a failed change changes nothing and yields an error. "
     "Variables given to a command (name=value in front of it) are for that command only, and override the shell's. exec and exec0 replace the shell by the command, spawn0 runs it with the given name, and all that the shell printed before comes first.",
     ["histories"], "all sequences of changes, failures and commands", "There are no tests of the surroundings.",
     ["src/runtime/lib/cd.rs", "src/runtime/lib/env.rs", "src/runtime/lib/cwd.rs"] + SH_FILES, [("process state", "src/runtime/lib/")],
     ["environment and folder of the commands", "stdout"], SHELL_T, SHELL_N)
prop("C21", "Modules",
     "std.import evaluates a module once per program, whatever path denotes it, and yields the very same value to all importers; the path is relative to the folder of the importing file, whatever the current folder is. "
     "A module has variables of its own and sees none of its importer's; one that doesn't exist, is invalid, or is being imported panics, and the panics of its code are reported with its own lines; a module that failed can be imported again.",
     ["programs", "histories"], "all graphs of modules, paths and failures", "There are no tests of modules.",
     ["src/runtime/lib/import.rs", "src/runtime/source.rs", "src/runtime/mod.rs"], [("module cache", "src/runtime/source.rs"), ("path resolution", "src/runtime/lib/import.rs")],
     ["stdout", "stderr", "exit status"], SHELL_T, SHELL_N)
prop("C22", "Programs from outside: command line, input, output and exit status",
     "The exit status is 0 for a program that ends normally, the argument of std.exit, 1 for invalid flags, 2 for a source that is rejected and 127 for a panic. "
     "Flags come before the script, everything after it is passed to it verbatim and std.args yields exactly that; without a script, the source is read from standard input; --lex, --ast and --program print listings before the program runs, --check keeps it from running, and help or version are all that is printed if asked for. "
     "std.read yields the lines of standard input one at a time, with every byte, and an empty string at the end; std.print and std.println write exactly the text, in order with the output of the commands around them, and panic if it can't be written.",
     ["inputs", "histories"], "all argument lists, inputs, and sequences of reading, writing and commands", "There are no tests that run the program from outside.",
     ["src/main.rs", "src/args.rs", "src/runtime/lib/args.rs", "src/runtime/lib/read.rs", "src/runtime/lib/exit.rs", "src/runtime/lib/print.rs"],
     [("command line", "src/args.rs"), ("exit status", "src/main.rs")], ["exit status", "stdout", "stderr"], SHELL_T, SHELL_N)
