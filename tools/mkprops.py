#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept here so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
	P.append({'id': id, 'title': title, 'statement': statement,
		'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
		'anchors': {'files': files,
			'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
			'mechanism': [{'name': n, 'where': w} for n, w in mech],
			'observe_at': observe, 'hook_needed': None}})

RT = 'src/runtime/mod.rs'
p('C01', 'Operators give the exact specified value or a panic, never a wrong value',
  'For every operator and every pair of operand values the result is exactly the one the language defines, or a Hush panic: integers never wrap, integers and floats are never mixed implicitly, ordering is defined only within int, float, byte and string, and == / != are defined for all values. Operands are evaluated left to right, once; "and"/"or" evaluate their right side only when the left side does not decide, and accept only booleans.',
  ['inputs', 'programs'], 'all operators x all operand pairs (all types, integer and float boundary values)',
  'tests evaluate a few dozen expressions; nothing covers type pairs, overflow boundaries or skipped operands',
  [RT, 'src/runtime/value/float.rs', 'src/runtime/value/ops.rs', 'src/runtime/value/mod.rs'],
  [('unary_op/binary_op/arithmetic_op/ord_op', RT)], ['printed value and type', 'panic message'])
p('C02', 'Operator precedence, associativity and layout independence of expressions',
  'Every expression is evaluated according to the documented precedence (or < and < equality < comparison < ++ < additive < multiplicative < prefix < postfix) and left associativity, exactly as its fully parenthesised form. Replacing whitespace between tokens by newlines, tabs or comments, or adding redundant parentheses, never changes the meaning of a program.',
  ['programs'], 'all operator sequences up to 3 binary operators with prefix and postfix operators, all layouts',
  'tests check a handful of expressions; precedence of operator pairs is a quadratic table',
  ['src/syntax/parser/mod.rs', 'src/syntax/lexer/automata/root.rs', 'src/syntax/lexer/automata/symbol.rs', 'src/syntax/lexer/automata/comment.rs', 'src/syntax/lexer/token/mod.rs'],
  [('parse_expression/parse_binop/parse_prefix/parse_postfix', 'src/syntax/parser/mod.rs')], ['printed value', 'panic message'])
p('C03', 'Lexical scoping and closures',
  'Every identifier denotes the variable of the innermost enclosing declaration that precedes it; inner declarations shadow and never disturb outer ones. Every activation of a function has its own variables, closures capture variables by reference, and all closures and code that refer to one variable see each other\'s assignments, at any nesting depth and after the declaring function has returned.',
  ['programs', 'histories'], 'all small programs over declarations, assignments, nested functions, blocks and calls',
  'two closure tests exist; capture chains, shadowing and re-entrancy interact combinatorially',
  ['src/semantic/scope.rs', 'src/semantic/mod.rs', 'src/runtime/mem.rs', RT],
  [('slot resolution and capture chains', 'src/semantic/scope.rs'), ('Slot::capture/place/store', 'src/runtime/mem.rs')],
  ['printed trace'], [('stack', 'variable slots of all activations', 'src/runtime/mem.rs')])
p('C04', 'Control flow, evaluation order and block values',
  'Statements and sub-expressions are executed in source order and exactly as often as if, while, for, break and return prescribe, wherever these occur (including inside expressions and call arguments); a block has the value of its last statement. A call with the wrong number of arguments panics without executing the body, and a call in tail position behaves like any other.',
  ['programs'], 'all small programs with nested control flow, with break/return in every expression position',
  'tests exercise loops and returns only at statement level',
  [RT, 'src/runtime/flow.rs', 'src/semantic/mod.rs', 'src/syntax/parser/mod.rs'],
  [('Flow propagation and eval_tail_block', RT), ('argument vector truncation', RT)], ['printed trace'],
  [('arguments', 'pending call arguments', RT)])
p('C05', 'Static errors are found exactly, before anything is executed',
  'A script is rejected with exit status 2 and no side effect at all if and only if it contains a static error: an undeclared or duplicate variable or parameter, a duplicate literal dict key, return/try/self outside a function, break outside a loop (a loop around a function does not count), an invalid assignment target, or a shell builtin in a pipeline, redirection, capture or async block. The check-only mode gives the same verdict and never executes anything.',
  ['programs'], 'all small programs over the constructs with static rules, in every nesting context',
  'about thirty hand-written files; acceptance of every valid nesting is not covered',
  ['src/semantic/mod.rs', 'src/semantic/scope.rs', 'src/main.rs', 'src/syntax/parser/mod.rs'],
  [('Analyzer', 'src/semantic/mod.rs')], ['exit status', 'stdout', 'files created'])
p('C06', 'The front end terminates with a verdict on every input',
  'For every byte sequence given as a script, analysis terminates with either acceptance or exit status 2 and at least one error message, and the positions in the messages lie inside the source; it never crashes, hangs or silently accepts a part of the input.',
  ['inputs'], 'all byte strings over a syntax alphabet and all token sequences up to a bounded length, and all single-token mutations and truncations of larger programs',
  'tests feed well-formed files and a few malformed ones',
  ['src/syntax/lexer/automata/', 'src/syntax/parser/mod.rs', 'src/syntax/parser/sync.rs', 'src/syntax/parser/command.rs', 'src/syntax/lexer/cursor.rs'],
  [('lexer automata transitions', 'src/syntax/lexer/automata/mod.rs'), ('error synchronization', 'src/syntax/parser/sync.rs')],
  ['exit status', 'stderr', 'termination'])
p('C07', 'Literals denote exactly the written value',
  'Integer, float, byte, string, array and dict literals evaluate to exactly the written value: every byte of a string literal is preserved, each escape sequence denotes its byte, integers are exact, a float literal denotes the nearest representable double, and malformed literals and out-of-range integers are rejected statically instead of being altered.',
  ['inputs'], 'all byte values in strings and byte literals, all two-byte escape sequences, all number spellings up to a bounded length, i64 boundaries',
  'tests contain a dozen literals',
  ['src/syntax/lexer/automata/string.rs', 'src/syntax/lexer/automata/number.rs', 'src/syntax/lexer/automata/word.rs', RT],
  [('string/byte/number automata', 'src/syntax/lexer/automata/')], ['printed bytes', 'exit status'])
p('C08', 'An uncaught panic stops the program with status 127 and a correct position',
  'A panic that is not caught ends the process with exit status 127 and one message on stderr that names the script, line and column of the failing construct; output produced before it is kept, and no statement, call or command after it is executed. The reported line and column follow the construct wherever it is placed in the source.',
  ['programs', 'inputs'], 'all panic kinds x all nesting contexts x all source offsets in a bounded window',
  'negative tests only check that some panic occurs',
  ['src/runtime/panic.rs', 'src/runtime/source.rs', 'src/main.rs', 'src/syntax/lexer/cursor.rs', RT],
  [('Panic propagation', RT), ('Cursor position', 'src/syntax/lexer/cursor.rs')], ['exit status', 'stderr', 'stdout'])
p('C09', 'Catching a panic leaves the program state as if the call had returned',
  'std.catch returns the function\'s value, or an error value describing the panic, and the program then continues as after any other call: variables, closures, pending arguments, loops and collections keep exactly the effects performed before the panic, however deep in calls, loops, argument lists, iterators, bound functions or imported modules it was raised.',
  ['programs', 'histories'], 'all panic sources x all nesting contexts x all continuations that read and write the surrounding state, repeated',
  'one test file catches panics at top level',
  ['src/runtime/lib/catch.rs', RT, 'src/runtime/mem.rs', 'src/runtime/lib/import.rs'],
  [('stack shrink and argument truncation on unwinding', RT)], ['printed trace'],
  [('stack', 'variable slots', 'src/runtime/mem.rs'), ('arguments', 'pending arguments', RT)])
p('C10', 'Error values and the try operator',
  'Applying ? to an error value returns that very value from the enclosing function at once, skipping the rest of every enclosing expression, loop and block, and applying it to anything else yields the value unchanged. Error values expose exactly a string description and a context, which cannot be reassigned, and has_error reports whether an error is contained in a value.',
  ['programs'], 'all expression positions for ?, all values, nested calls up to a bounded depth',
  'one test file',
  [RT, 'src/runtime/value/error.rs', 'src/runtime/lib/error.rs', 'src/runtime/lib/has_error.rs'],
  [('UnaryOp::Try', RT)], ['printed trace'])
p('C11', 'Arrays and dicts behave as shared mutable sequences and maps',
  'Every sequence of literal construction, indexing, field access, assignment, push, pop, len, contains, is_empty and iteration on arrays and dicts gives the results of a plain list and map model; all aliases of a collection (variables, elements, captured variables, arguments) see every mutation, and out-of-range or missing keys panic without changing anything.',
  ['histories'], 'all operation sequences up to a bounded depth over two or three aliased collections',
  'tests use a few fixed sequences',
  ['src/runtime/value/array.rs', 'src/runtime/value/dict.rs', RT, 'src/runtime/lib/push.rs', 'src/runtime/lib/pop.rs', 'src/runtime/lib/length.rs', 'src/runtime/lib/contains.rs', 'src/runtime/lib/is_empty.rs'],
  [('Array/Dict over shared cells', 'src/runtime/value/array.rs')], ['printed trace'])
p('C12', 'Equality, dict keys and sorting are mutually consistent',
  'Equality of (acyclic) values is structural for strings, arrays, dicts and errors, distinguishes types, and is reflexive except for values containing NaN; a dict finds a key if and only if an equal key was inserted, for keys of every type. std.sort orders any array into a permutation sorted by one total order (nil < bool < byte < int < float < string < array < dict, then by value), and agrees with the comparison operators.',
  ['inputs', 'histories'], 'all pairs and triples over a nested value domain; all arrays up to a bounded length',
  'tests compare a few values and sort two arrays',
  ['src/runtime/value/mod.rs', 'src/runtime/value/float.rs', 'src/runtime/value/dict.rs', 'src/runtime/value/array.rs', 'src/runtime/value/string.rs', 'src/runtime/value/error.rs', 'src/runtime/value/function.rs', 'src/runtime/lib/sort.rs'],
  [('PartialEq/Ord/Hash of Value', 'src/runtime/value/mod.rs')], ['printed trace'])
p('C13', 'Iteration visits exactly the elements, in order, with the documented protocol',
  'A for loop calls its iterator until it reports finished and runs the body once per value, in order; std.range yields exactly from, from+step, ... strictly before the bound for integer and float arguments including the integer limits, std.iter yields every element, byte or entry exactly once, and exhausted or malformed iterators end the loop or panic. Breaking out, nesting and sharing iterators never skip or repeat elements.',
  ['programs', 'inputs'], 'all (from, to, step) in a grid including limits; all collections up to a bounded size; all nestings',
  'tests iterate a few fixed ranges',
  ['src/runtime/lib/range.rs', 'src/runtime/lib/iter.rs', 'src/runtime/lib/util.rs', RT],
  [('Statement::For', RT)], ['printed trace'])
p('C14', 'Library calls never crash: wrong arity or types give a Hush panic',
  'For every standard library function and every tuple of arguments of any types, the call either returns a value or raises a Hush panic that can be caught; it never crashes or hangs the interpreter, and calls with a wrong number of arguments or an unsupported argument type raise a panic without side effects.',
  ['inputs'], 'all library functions x all argument tuples up to length 4 over a domain with every type and boundary values',
  'tests call functions with valid arguments only',
  ['src/runtime/lib/', 'src/runtime/lib.rs', 'src/runtime/value/'],
  [('argument matching in every NativeFun::call', 'src/runtime/lib/')], ['exit status', 'panic or value type'])
p('C15', 'String functions are byte-exact',
  'len, indexing, ++, substr, split, replace, trim, contains, bytes and iteration on strings give exactly the results of the corresponding byte-sequence operations for every input, including empty, non-ASCII and overlapping patterns, and never modify their operands.',
  ['inputs'], 'all strings and patterns up to a bounded length over a small alphabet including multi-byte characters',
  'tests split one or two strings',
  ['src/runtime/lib/substr.rs', 'src/runtime/lib/split.rs', 'src/runtime/lib/replace.rs', 'src/runtime/lib/trim.rs', 'src/runtime/lib/contains.rs', 'src/runtime/lib/bytes.rs', 'src/runtime/value/string.rs', 'src/runtime/lib/length.rs'],
  [('library functions', 'src/runtime/lib/')], ['printed bytes'])
p('C16', 'Conversions and encodings round-trip and reject malformed input',
  'Decoding the base64, hex or JSON encoding of a value gives the value back, encodings match the standard formats, and malformed input yields an error value instead of a wrong value; std.int and std.float convert numbers and well-formed texts exactly and panic on malformed texts, std.to_string gives the text that print writes, and std.type / typecheck report the type of every value.',
  ['inputs'], 'all byte strings up to a bounded length; all nested JSON values up to a bounded size; all short malformed texts',
  'no test covers json, base64 or hex',
  ['src/runtime/lib/json.rs', 'src/runtime/lib/base64.rs', 'src/runtime/lib/hex.rs', 'src/runtime/lib/int.rs', 'src/runtime/lib/float.rs', 'src/runtime/lib/to_string.rs', 'src/runtime/lib/type_.rs', 'src/runtime/lib/typecheck.rs'],
  [('library functions', 'src/runtime/lib/')], ['printed bytes'])
p('C17', 'Commands receive exactly the arguments that were written',
  'A command is started with exactly the argument vector its words denote: quoting and escapes preserve every byte, a variable expands to exactly one argument (an array to one argument per element, combined with adjacent text), whatever bytes, spaces, quotes, newlines or glob characters it contains, and empty arguments are kept. Malformed words (an unknown escape, an invalid variable name) are rejected as static errors. Variable contents are never split, globbed, expanded or executed.',
  ['inputs', 'programs'], 'all words of up to a bounded number of parts over quoting styles, escapes, special characters and variable values of all types',
  'tests run a few fixed commands',
  ['src/runtime/command/arg.rs', 'src/runtime/command/mod.rs', 'src/syntax/lexer/automata/argument.rs', 'src/syntax/lexer/automata/expansion.rs', 'src/syntax/lexer/automata/command.rs', 'src/syntax/parser/command.rs'],
  [('Args cartesian expansion', 'src/runtime/command/arg.rs'), ('argument automata', 'src/syntax/lexer/automata/argument.rs')], ['argv seen by the child'])
p('C18', 'Glob patterns expand to exactly the matching paths',
  'An unquoted * or % in a command argument expands, in sorted order, to exactly the existing paths that match it when the command is executed (relative results start with ./; std.glob returns such paths without that prefix), to no argument if nothing matches, and literal text or variable contents in the same word match only themselves. ~/ at the start of a word denotes the home directory and nothing else does.',
  ['inputs', 'configurations'], 'all patterns up to a bounded length against all directory contents over a small set of file names, including names with glob characters',
  'no test covers globs beyond the lexer',
  ['src/runtime/command/exec/mod.rs', 'src/runtime/command/arg.rs', 'src/syntax/lexer/automata/expansion.rs', 'src/runtime/lib/glob.rs'],
  [('Argument::resolve', 'src/runtime/command/exec/mod.rs'), ('pattern_escape', 'src/runtime/command/arg.rs')], ['argv seen by the child'])
p('C19', 'Redirections route every byte to the written target',
  'Redirections are applied from left to right: > truncates, >> appends, n> redirects descriptor n (1 or 2), n>m duplicates the current target of m, < reads a file and << supplies exactly the given text plus a newline, of any size. Every byte a command writes arrives exactly once at the resulting target and nowhere else; a target that cannot be opened makes the command fail without running it.',
  ['programs', 'inputs'], 'all sequences of up to three redirections over all kinds, x block kinds x pipeline positions',
  'three fixed redirections are tested',
  ['src/runtime/command/exec/mod.rs', 'src/runtime/command/mod.rs', 'src/syntax/parser/command.rs'],
  [('BasicCommand::spawn/resolve_target', 'src/runtime/command/exec/mod.rs')], ['file contents', 'stdout', 'stderr', 'stdin seen by the child'])
p('C20', 'Command blocks stop at the first unguarded failure and report every failure',
  'The commands of a block run strictly one after another; a non-zero exit, death by signal or failure to start ends the block unless a failing exit is marked with ?, and nothing after that point is executed. The block\'s value is nil if and only if every command succeeded; otherwise it is an error value that carries, in order, the exit status (255+n for signal n, 127 if it could not be started) and source position of every failed command; of a pipeline that could not be started as a whole, the command that failed to start is the one reported.',
  ['programs', 'histories'], 'all blocks of up to a bounded number of commands/pipelines x all outcomes (success, exit codes, signals, missing program) x all ? placements',
  'one bail test',
  ['src/runtime/command/exec/mod.rs', 'src/runtime/command/exec/error.rs', 'src/runtime/command/mod.rs'],
  [('Block::exec', 'src/runtime/command/exec/mod.rs'), ('IntoValue', 'src/runtime/command/exec/error.rs')], ['printed value', 'markers left by the children'])
p('C21', 'Pipelines connect all stages, wait for all of them and never deadlock',
  'In a pipeline every stage\'s output reaches the next stage completely, in order, followed by end of file, for any amount of data; all stages run concurrently, and the block continues only after every stage has terminated, in whatever order the stages start, produce, stop reading or exit. Failures of any stage are reported, whichever stage it is.',
  ['schedules', 'programs'], 'all completion orders of up to 4 stages, all outcome vectors, data sizes around the pipe capacity',
  'one fixed pipeline is tested with one schedule',
  ['src/runtime/command/exec/mod.rs'],
  [('Command::exec', 'src/runtime/command/exec/mod.rs')], ['bytes received', 'order of events', 'printed value', 'termination'])
p('C22', 'Capture blocks return exactly the bytes written',
  'The value of ${...} contains exactly the bytes all commands of the block wrote to standard output and standard error, separately, in order and without loss or modification, for any size and interleaving; on failure the same data and the failure are found in the error\'s context. Nothing captured leaks to the terminal and capturing never deadlocks.',
  ['inputs', 'schedules'], 'all small byte contents, sizes around buffer and pipe capacities on both streams, all write interleavings of two streams up to a bound, failing and succeeding commands',
  'one capture test with one size',
  ['src/runtime/command/mod.rs', 'src/runtime/command/exec/mod.rs'],
  [('CommandBlockKind::Capture', 'src/runtime/command/mod.rs')], ['captured strings', 'stdout', 'stderr', 'termination'])
p('C23', 'Asynchronous blocks run concurrently and join exactly once',
  'An async block starts without waiting, runs its commands with the arguments evaluated when it was created, and join waits for all of them and returns what the same synchronous block would return, in every completion order of several blocks and joins; joining a block a second time panics.',
  ['schedules', 'programs'], 'all completion orders x all join orders of up to 3 async blocks, all outcomes',
  'no test covers async blocks beyond parsing',
  ['src/runtime/command/mod.rs', 'src/runtime/command/exec/join.rs'],
  [('Join', 'src/runtime/command/exec/join.rs')], ['order of events', 'printed value', 'termination'])
p('C24', 'System call failures surface as errors, never as silent success, hang or crash',
  'If any system call the interpreter makes to create a pipe, duplicate or open a descriptor, start a process, read a capture, wait for a child or write output fails, is interrupted or transfers fewer bytes than asked, the program either behaves as without the fault (interruption, short transfer) or the failure becomes an error value or a Hush panic; it never crashes, hangs, loses data silently or reports success for a command that did not run.',
  ['fault_sequences'], 'every single fault (call site occurrence x error kind) and short-transfer pattern of a set of command scripts',
  'no test injects faults',
  ['src/runtime/command/exec/mod.rs', 'src/runtime/command/mod.rs', 'src/runtime/lib/print.rs', 'src/runtime/lib/println.rs', 'src/syntax/source.rs'],
  [('io error mapping', 'src/runtime/command/exec/error.rs')], ['exit status', 'printed value', 'termination'])
p('C25', 'Environment and working directory changes have exactly the written scope',
  'NAME=value before a command sets the variable for that command only; std.export sets it for the script and all later commands, std.env reads the current value or nil, and cd (command or function) moves the script and all later commands, failing without effect on a bad path. No other construct changes either, and every command sees the state at the time it is started.',
  ['histories'], 'all sequences up to a bounded length of export/env/prefixed command/cd/failing cd/command operations',
  'one env test',
  ['src/runtime/lib/env.rs', 'src/runtime/lib/cd.rs', 'src/runtime/lib/cwd.rs', 'src/runtime/command/mod.rs', 'src/runtime/command/exec/mod.rs'],
  [('BasicCommand env', 'src/runtime/command/exec/mod.rs')], ['environment and cwd seen by children', 'printed value'])
p('C26', 'Imports run each module once, relative to the importing file, in isolation',
  'std.import evaluates a module found relative to the importing file at most once per process and returns the same value for every import of the same file by any path; a module has its own scope, sees none of the importer\'s variables, and does not disturb them. A missing, unreadable, malformed, panicking or circularly imported module raises a catchable panic that leaves the importer unharmed, and a later import tries again.',
  ['histories', 'configurations'], 'all import sequences up to a bounded length over a small set of module graphs (shared, nested directories, symlinked, failing)',
  'no test imports a module',
  ['src/runtime/lib/import.rs', RT], [('Import::resolve_path/load', 'src/runtime/lib/import.rs')], ['printed trace'],
  [('modules', 'cache of module values', RT)])
p('C27', 'Command line, script arguments and exit status',
  'The script given by path, or standard input if there is none or it is "-" (a first argument that names no existing file is an argument of a script on standard input), is executed with exactly the remaining arguments available to it, byte for byte and in order; the exit status is 0 on normal end, n after std.exit(n), 127 after a panic, 2 for a static error and 1 for invalid options. std.exit ends the process at once from any nesting depth, keeping earlier output.',
  ['inputs', 'configurations'], 'all argument vectors up to a bounded length over special words, all 256 exit codes, all nesting contexts of exit, script by path or stdin',
  'no test covers the command line',
  ['src/main.rs', 'src/args.rs', 'src/runtime/lib/args.rs', 'src/runtime/lib/exit.rs'],
  [('run', 'src/main.rs'), ('Args::parse', 'src/args.rs')], ['exit status', 'printed arguments'])
p('C28', 'Output is exact and in program order',
  'std.print and std.println write their arguments exactly (strings and bytes raw, other values in their literal form, separated by tabs), and the combined output of the script and the commands it runs appears in program order on the same stream, whatever mixture of printing, commands, panics and exits occurs. std.read returns input lines unmodified, including their newline, and an empty string at end of input.',
  ['programs', 'inputs'], 'all values of a domain, all sequences of print/println/command/capture/exit/panic up to a bounded length, all short inputs',
  'one print test',
  ['src/runtime/lib/print.rs', 'src/runtime/lib/println.rs', 'src/runtime/value/fmt.rs', 'src/runtime/lib/read.rs'],
  [('stdout flushing', 'src/runtime/lib/print.rs')], ['stdout bytes'])
p('C29', 'Methods: self is the object of the access, and bind fixes it',
  'When a function is called through a field or index access, self is exactly the accessed object, otherwise nil, independent of where the function was defined, stored or captured; std.bind yields a function whose self is always the bound object and which passes arguments and results through unchanged. self never leaks into callees, iterators or nested functions.',
  ['programs'], 'all call forms x all function origins x nesting up to a bounded depth',
  'two small tests',
  [RT, 'src/runtime/lib/bind.rs', 'src/semantic/scope.rs'], [('CallContext.obj / self_slot', RT)], ['printed trace'])
p('C30', 'Children inherit only their three streams; no descriptors or processes leak',
  'Every command is started with exactly descriptors 0, 1 and 2 open, whatever blocks, pipelines, captures, redirections or async blocks surround it; after a block has finished the interpreter holds no additional descriptor and leaves no unreaped child, also after failures to start or to open a redirection target.',
  ['programs', 'histories', 'fault_sequences'], 'all block shapes up to a bounded size x failure placements, repeated',
  'no test inspects descriptors or children',
  ['src/runtime/command/exec/mod.rs', 'src/runtime/command/mod.rs'],
  [('ownership of pipe ends', 'src/runtime/command/exec/mod.rs')], ['/proc/self/fd in the child', '/proc of the interpreter'])
p('C31', 'Regular expressions match what the pattern denotes',
  'std.regex returns an object whose match, split and replace operations agree with the denotation of the pattern on every subject string, and an error value for an invalid pattern; the object is reusable and keeps no state between uses.',
  ['inputs'], 'all patterns up to a bounded size over a small operator set x all subjects up to a bounded length',
  'no test uses regex',
  ['src/runtime/lib/regex.rs'], [('Regex', 'src/runtime/lib/regex.rs')], ['printed trace'])
p('C32', 'The dumps show the program that is run and do not change how it runs',
  '--lex lists every token of the source with its position; --ast shows the tree with the grouping that precedence and associativity give it; --program shows the same tree with every variable resolved to the slot of the declaration it refers to, captures included. No dump shows a different program than the one that runs, every combination of the options leaves the output, the errors and the exit status of the script as they are without them, and with --check nothing runs.',
  ['inputs'], 'every expression and statement shape nested in every other one, every form of command block, every combination of the options',
  'no test looks at a dump; an error shows only for particular nestings, literals or captures',
  ['src/main.rs', 'src/syntax/ast/fmt.rs', 'src/semantic/program/fmt.rs', 'src/syntax/lexer/token/fmt.rs'],
  [('the dumps', 'src/syntax/ast/fmt.rs'), ('slots and captures', 'src/semantic/program/fmt.rs')], ['text of the dumps', 'output and exit status'])
p('C33', 'Every static error is reported, once and at its own place',
  'For a script without syntax errors the report names every place at which a static rule is broken, once each, with the line and column of the offending token and the rule and name concerned, and nothing else; more than twenty errors are cut off with the number of those not shown. For a script with syntax errors the first report is at the first token with which no valid program can continue (or at the end of the file), and reports concern only places of the source. The same holds for check-only mode, for scripts named by any path, and for imported modules.',
  ['programs'], 'all combinations of errors in all contexts up to a bounded size; all programs one token away from valid ones',
  'tests look at whether a script is rejected, never at the report',
  ['src/semantic/mod.rs', 'src/semantic/error/fmt.rs', 'src/syntax/error/fmt.rs', 'src/syntax/parser/mod.rs', 'src/syntax/parser/sync.rs', 'src/syntax/lexer/cursor.rs'],
  [('Analyzer::report, analyze_items', 'src/semantic/mod.rs'), ('source positions', 'src/syntax/lexer/cursor.rs')], ['stderr', 'exit status'])
p('C34', 'Library functions answer exactly, and a rejected call says what is wrong with it',
  'std.type, len, is_empty, contains, has_error, to_string, assert, typecheck, try_typecheck, error and bind give the documented answer for every value, and return or keep the value itself, not a copy. A call with a wrong number of arguments panics with the numbers given and expected, a call with values of wrong types with one of the wrong values and the accepted types. std.randint draws from the whole inclusive range and never outside of it, std.rand from [0, 1); after std.randseed what is drawn is a function of the seed and of the draws since, different for different seeds; without it processes draw differently. std.sleep returns no earlier than asked.',
  ['inputs', 'histories'], 'all argument tuples up to length four over all types; all value trees to a depth; all histories of seeding and drawing to a depth',
  'tests call few functions, mostly with valid arguments; no test draws a random number or sleeps',
  ['src/runtime/lib/rand.rs', 'src/runtime/lib/sleep.rs', 'src/runtime/lib/typecheck.rs', 'src/runtime/lib/type_.rs', 'src/runtime/lib/contains.rs', 'src/runtime/lib/is_empty.rs', 'src/runtime/lib/length.rs', 'src/runtime/lib/has_error.rs', 'src/runtime/panic.rs'],
  [('argument patterns', 'src/runtime/lib/substr.rs'), ('RNG', 'src/runtime/lib/rand.rs')], ['printed trace', 'panic messages', 'time'])
p('C35', 'Garbage collection is invisible, and what is no longer used is given back',
  'A value stays intact as long as the script can reach it, through any chain of containers, closures, bound objects, iterators, errors and modules and from any place of a running expression, whenever the collector runs. A script that repeats an operation (also one that panics and is caught, fails, imports, or runs commands) whose results it drops, cyclic or not, runs in bounded memory.',
  ['programs', 'schedules'], 'all chains of holders up to a bounded length in all root places; all offsets of the collector within its period',
  'the collector runs only after enough has been allocated; the scripts of the tests are too short',
  ['src/runtime/mem.rs', 'src/runtime/mod.rs', 'src/runtime/value/mod.rs', 'src/runtime/value/function.rs', 'src/runtime/value/error.rs', 'src/runtime/lib/bind.rs', 'src/runtime/lib/iter.rs', 'src/runtime/lib/regex.rs'],
  [('Trace implementations', 'src/runtime/value/function.rs'), ('Stack', 'src/runtime/mem.rs')], ['printed trace', 'peak memory of the process'])

p('C36', 'What a program does is independent of the sizes of its parts',
  'Every construct that can be repeated or prolonged (variables, parameters, captured variables, elements, statements, branches, nested blocks and loops, operators, texts, names, comments, spaces, call and field chains, recursion, containers, arguments, commands, stages, redirections, captured output, input, files, modules, script arguments) works at every size that the machine has room for just as it does at small ones.',
  ['programs'], 'all sizes of every construct up to a bound, and the powers of two and their neighbours up to a larger one',
  'tests use a handful of parts of each kind; limits and special cases of certain counts go unnoticed',
  ['src/runtime/mem.rs', 'src/runtime/mod.rs', 'src/semantic/scope.rs', 'src/semantic/mod.rs', 'src/syntax/lexer/mod.rs', 'src/syntax/parser/mod.rs', 'src/runtime/command/mod.rs', 'src/symbol/mod.rs'],
  [('slots', 'src/runtime/mem.rs'), ('Interner', 'src/symbol/mod.rs')], ['stdout, stderr and status of the process'])

p('C37', 'Whether its streams are terminals changes nothing but colors',
  'A script behaves the same whichever of its standard input, output and error are terminals: the same output, messages, exit status, and the same bytes in every value, argument, environment variable and file. The only difference are colors, which appear only in what is shown on a terminal, when both standard output and error are one, and are always reset. Commands see the terminals as their own streams.',
  ['inputs', 'programs'], 'all kinds of values, messages, commands and dumps x all combinations of terminals and pipes',
  'tests never run on a terminal',
  ['src/term/color.rs', 'src/runtime/panic.rs', 'src/runtime/lib/catch.rs', 'src/runtime/lib/to_string.rs', 'src/runtime/lib/typecheck.rs', 'src/runtime/command/exec/error.rs', 'src/symbol/fmt.rs', 'src/main.rs'],
  [('IS_TTY', 'src/term/color.rs')], ['both outputs', 'exit status', 'files'])

if __name__ == '__main__':
	path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
	with open(path, 'w') as f:
		for x in P:
			assert len(x['title']) <= 80, (x['id'], len(x['title']))
			f.write(json.dumps(x, ensure_ascii=False) + '\n')
	print(len(P), 'properties')
