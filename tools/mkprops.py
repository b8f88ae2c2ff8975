#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as source because the file is one JSON object per line).
import json,os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":a,"where":b} for a,b in mech],
                 "observe_at":obs or ["the simulated file system, child processes, terminal and standard streams of a dunesh process"],"hook_needed":None}})
FS="src/binary/init/fs_module.rs"; OP="src/binary/init/operator_module.rs"; EX="src/expr.rs"; BIN="src/bin.rs"
WHY="The existing tests only tokenize and parse a few fixed strings; none runs the shell, so no {} is ever exercised."
p("C01","A successful file write leaves exactly the given contents in that file",
  "When `fs@write file value` or `value >> file` succeeds, the file named relative to the shell's current directory (created if missing, replaced if present) holds exactly the value - bytes verbatim, any other value as the text `str` gives - and nothing else in the file system has changed, the permissions of a file that was there included. If the operating system refuses any part of it, the expression raises an error instead of succeeding. Interrupted and partial system writes never change the outcome.",
  ["inputs","fault_sequences","histories"],"all values, paths and prior file states, all patterns of short/interrupted/failed system calls",
  WHY.format("write"),[FS,OP],[("fs@write builtin",FS+": write"),(">> operator",OP+": >> lambda")])
p("C02","Appending adds exactly the value to the end of an existing file",
  "When `fs@append file value` or `value >>> file` succeeds, the file holds its previous contents followed by exactly the value (bytes verbatim, other values as text), and nothing else changed. Appending to a file that does not exist raises an error and creates nothing. Data other programs append to the same file meanwhile is never overwritten or lost, and interrupted or partial system writes lose or repeat nothing.",
  ["inputs","fault_sequences","schedules"],"all values and prior contents, all interleavings with other writers, all patterns of short/interrupted/failed writes",
  WHY.format("append"),[FS,OP],[("fs@append builtin opens in append mode",FS+": append"),(">>> operator",OP+": >>> lambda")])
p("C03","Reading a file yields exactly its contents or an error",
  "`fs@read file` (also `<<`) yields the complete contents of the file: a string when they are valid UTF-8 and a byte list when they are not; `fs@head` and `fs@tail` of a UTF-8 file yield its first and last N lines, in file order, each ended by a newline (all lines when N exceeds their number). When the contents cannot be read completely an error is raised; truncated contents, or UTF-8 text delivered as bytes, are never returned. Reading changes nothing.",
  ["inputs","fault_sequences"],"all file contents, line counts, short/interrupted reads and read failures at any system call",
  WHY.format("read"),[FS,OP],[("fs@read / head / tail builtins",FS)])
p("C04","Copy duplicates the whole source, never clobbers, and never hides failure",
  "When `fs@cp src dst` succeeds and dst did not exist, dst is a complete copy of src (for a directory: every file and subdirectory; files with identical contents and permissions), and src and everything else are unchanged. If dst already exists (including as a dangling symbolic link) the copy fails and changes nothing. If any part cannot be read or written an error is raised, and copying a directory into itself or one of its own subdirectories fails promptly. Naming the source itself as dst changes nothing, and is an error if it does not exist.",
  ["inputs","fault_sequences"],"all directory trees, destinations and failures at any system call",
  WHY.format("copy"),[FS],[("copy_path",FS+": copy_path")])
p("C05","Move is atomic, never clobbers and never loses the source",
  "When `fs@mv src dst` succeeds, dst is what src was (same contents and permissions, whole tree) and src is gone; when it fails, both are as before. If dst already exists (including as a dangling symbolic link) the move fails and changes nothing; naming the source itself as dst changes nothing, and is an error if it does not exist. A process kill at any moment leaves the object complete under exactly one of the two names.",
  ["inputs","fault_sequences","crash_points"],"all trees and destinations, failures and kills at any system call",
  WHY.format("move"),[FS],[("move_path: existence check then rename",FS+": move_path")])
p("C06","Remove deletes exactly the named object and nothing outside it",
  "When `fs@rm path` succeeds, the named file, symbolic link or directory tree is gone and everything else is unchanged; symbolic links are removed themselves and never followed, so nothing outside the named tree is ever touched, whether the removal succeeds, fails or is cut short. `fs@rmdir` removes a directory only if it is empty. If anything cannot be removed an error is raised, never success with the object still present.",
  ["inputs","fault_sequences","crash_points"],"all trees with links inside and outside, failures and kills at any system call",
  WHY.format("removal"),[FS],[("remove_path",FS+": remove_path"),("rmdir builtin",FS+": rmdir")])
p("C07","mkdir creates the directory and all its parents, idempotently",
  "When `fs@mkdir path` succeeds, path is a directory, every missing parent was created, and no existing file, directory or content was changed; repeating it succeeds. It also succeeds when another program creates the same directories concurrently. If path or a parent is a non-directory, or the system refuses, an error is raised.",
  ["inputs","fault_sequences","schedules"],"all paths and prior trees, concurrent creators, failures at any system call",
  WHY.format("directory creation"),[FS],[("mkdir builtin: create_dir_all",FS+": mkdir")])
p("C08","Directory queries report the file system as it is",
  "`fs@ls` of a directory lists every entry exactly once (each prefixed with the path as given, in any order), of a file the file's own path; `fs@exists?`, `fs@is-dir?` and `fs@is-file?` answer for the object the path leads to; `fs@canon` gives its absolute link-free path; `fs@glob` lists exactly the entries matching the pattern, relative patterns being taken from the shell's current directory; `fs@tree` of a readable directory maps every entry's name to its path or, for a directory other than those it is itself in, to its own such map (with the directory itself under `.` and its parent under `..`), down to the maximum depth if one is given. These hold for every order and typing in which the system delivers entries, and after any sequence of earlier operations. When a directory cannot be read completely `ls` and `glob` raise an error rather than return a partial list, a malformed glob pattern is an error, and queries change nothing.",
  ["inputs","fault_sequences","histories"],"all trees, entry orders, missing entry types, failures at any system call, all preceding operations",
  WHY.format("query"),[FS],[("list_directory",FS+": list_directory"),("glob, tree, exists?, is-dir?, is-file?, canon builtins",FS)])
p("C09","The current directory is one consistent value everywhere",
  "After a successful `cd path` (or `sys@cd`), the shell's `CWD` variable and `sys@cwd` are the link-free absolute path of that directory, every later relative path given to file operations is resolved in it, every program launched (alone or in a pipeline) starts in it, and the prompt shows it - also inside functions. A failed one raises an error and changes none of these. A `cd` inside a function body, `eval` or an `import` does not move the caller; one made while the arguments of a call are evaluated moves the caller and reaches the called body.",
  ["histories","fault_sequences","inputs"],"all sequences of directory changes, through links, dots and functions, with failures at any system call",
  WHY.format("directory change"),["src/binary/init/os_module.rs","src/env.rs",EX],[("cd builtin: canonicalize, chdir, set CWD","src/binary/init/os_module.rs: cd"),("Environment::get_cwd / set_cwd","src/env.rs"),("lambda application hands the caller's directory to the body",EX+": eval_mut")],
  [{"name":"CWD binding","meaning":"the directory every path is resolved against","where":"src/env.rs"}])
p("C10","Running a program starts exactly that program once, with exactly those arguments",
  "Calling an undefined name or a string as a function starts exactly one process of that program, with the evaluated arguments in order (strings as they are, nested lists flattened, None dropped, other values as text), in the shell's current directory and with the shell's variables (those whose text is at most 1024 bytes; for longer ones nothing is promised) exported as environment variables, and waits for it to finish before going on. If the program cannot be started, an error is raised - program-not-found or permission-denied when that is the reason - nothing runs and nothing is left behind. Interrupted waits, program exit status and signals neither cut the wait short nor stop the script.",
  ["inputs","schedules","fault_sequences"],"all argument lists and variables, all child lifetimes and exits, start failures and interrupted system calls",
  WHY.format("program launch"),[EX],[("Apply of a symbol or string: Command::status",EX+": eval_mut")])
p("C11","A pipeline carries every byte from each stage to the next, exactly once",
  "In `a | b | ...`, each program's standard input is exactly the complete output of the previous stage followed by end of file: a program's output bytes, or a function result (byte values verbatim, others as text). A function stage receives the previous program's complete output as a string (or bytes if it is not UTF-8), or the previous function's value; the pipeline's value is the last function stage's result, and the last program's output goes to the shell's own output. Every stage runs exactly once, in order, in the shell's directory with its arguments and the shell's variables exported, whatever the data size, chunking and scheduling.",
  ["inputs","schedules","fault_sequences"],"all stage mixes, data sizes and contents, all interleavings, short and interrupted reads and writes",
  WHY.format("pipeline"),[OP],[("pipe_builtin",OP+": pipe_builtin"),("expr_to_command",OP+": expr_to_command")])
p("C12","Every pipeline finishes once its programs can finish, leaving nothing behind",
  "A pipeline whose programs each terminate always completes: it never deadlocks, however much data the stages produce or in which order they read and write, and a stage that exits or closes its input early, leaving data unread, does not make the pipeline fail. Afterwards no child of the pipeline is left running or unreaped and no pipe end stays open in the shell, on success and on failure. The same holds when a later stage cannot be started or a function stage fails.",
  ["schedules","inputs","fault_sequences"],"all interleavings, data sizes beyond the pipe capacity, early exits, and start failures of any stage",
  WHY.format("pipeline schedule"),[OP],[("pipe_builtin: feeding standard input and collecting output",OP+": pipe_builtin")])
p("C13","Output appears completely and in program order",
  "Everything a script prints (echo, print, println, debug, report, log) and everything the programs it runs print on the same output appears there completely, once, and in the order the statements execute; a program's output never overtakes text the shell printed before starting it. This holds for every interleaving, for partial and interrupted writes of the output, and when the script ends normally, by `exit`, or after an error.",
  ["programs","schedules","fault_sequences"],"all sequences of prints (with and without newlines) and programs, all write chunkings",
  WHY.format("interleaving of shell and program output"),["src/binary/init/mod.rs",EX,OP],[("print / println / debug builtins","src/binary/init/mod.rs"),("launching programs",EX+", "+OP)])
p("C14","An error stops the script at once, and err@try handles it exactly once",
  "When a statement fails, no later statement of the script has any effect, everything done before stays, and the reason is reported on standard error. `err@try expr handler` yields expr's value without calling the handler if expr succeeds, and otherwise calls the handler exactly once with a map holding the error's message, code and expression, after which the script continues. The code is the one `err@codes` lists for that kind of error.",
  ["programs","fault_sequences"],"all scripts and failing statements, including failures injected into any system call",
  WHY.format("failing script"),["src/binary/init/err_module.rs","src/error.rs",EX,BIN],[("try builtin","src/binary/init/err_module.rs"),("Error::code / Error::codes","src/error.rs"),("? propagation in eval_mut",EX)])
p("C15","Every statement's effects happen exactly once and in program order",
  "The file, output and program effects of a script are those of executing its statements one after another as written: a loop body once per element in list order, exactly one branch of an `if` after its condition, a function body once per complete call with arguments evaluated left to right, operands left to right. No effect is repeated, skipped, reordered or hoisted, under any schedule, clock or interrupted system call. A quoted expression has no effect until it is evaluated.",
  ["programs","schedules"],"all nestings of loops, conditionals, functions, blocks and effects",
  WHY.format("effect"),[EX,OP],[("eval_mut",EX+": eval_mut"),("operators",OP)])
p("C16","The interactive shell executes each entered line exactly once, in order",
  "Every complete entry typed at the prompt is executed exactly once, in the order typed; an entry spread over several lines is executed once as a whole when complete, and an empty line abandons an entry that does not parse, reporting the error. State (variables, directory) carries over from entry to entry, an entry's value is shown, an error is reported and the session goes on. End of input at the prompt ends the session with status 0.",
  ["histories","inputs","schedules"],"all typing histories, arrival times and chunkings of keyboard input",
  WHY.format("interactive session"),[BIN],[("repl loop",BIN+": repl"),("readline",BIN+": readline")])
p("C17","Ctrl-C and signals never break, duplicate or lose the interactive session",
  "An interrupt (Ctrl-C or SIGINT) at any moment - while a line is edited, a program runs, or the shell evaluates - leaves exactly one prompt loop serving the user in the same session: it discards at most the line being edited, later entries are executed exactly once with all earlier state intact, and end of input still ends the session. It never crashes the shell, starts a second session, or leaves the terminal unusable. A running child is interrupted and the shell survives.",
  ["schedules","histories","crash_points"],"all instants at which an interrupt can arrive, any number of interrupts",
  WHY.format("signal"),[BIN],[("ctrlc handler",BIN+": main"),("readline maps Interrupted to an empty line",BIN+": readline")])
p("C18","History keeps every executed entry, across sessions",
  "After an entry is executed at the prompt, the history file in the home directory holds the earlier history followed by the session's entries in order (an entry equal to its predecessor, or starting with a space, is not added), (the editor keeps the newest 100), and the next session offers them again. Every entry is saved before it is executed, so a program crash, kill or `exit` during an entry loses no entry. If the history cannot be saved this is reported and the session goes on unharmed.",
  ["histories","crash_points","fault_sequences"],"all sequences of entries and sessions, kills between system calls of an entry's execution, save failures",
  WHY.format("history file"),[BIN],[("repl: add_history_entry and save_history before eval",BIN+": repl"),("new_editor history settings",BIN+": new_editor")])
p("C19","The prelude is run if present and never overwritten or created without consent",
  "An interactive session starts by executing the prelude file in the home directory, once, before the first prompt. If it does not exist the user is asked; only the answer y (any case, surrounding blanks ignored) writes the default prelude there, byte for byte, and no other answer, end of input or failure creates one. An existing prelude is never modified, even when it fails to run, and the session still starts.",
  ["inputs","fault_sequences","histories"],"all answers, prelude contents and failures at any system call",
  WHY.format("startup"),[BIN],[("main: prelude handling",BIN+": main")])
p("C20","User input builtins return exactly the line the user entered",
  "`input`, `console@keyboard@read-line` and `console@keyboard@read-password` consume exactly one line from the user and return exactly its text (read-line with its line ending), however the keystrokes are chunked, timed or interrupted by signals; consecutive calls return consecutive lines. A password is not echoed, and afterwards the terminal is back in its previous mode. Failure or end of input gives an error or an empty result, never a crash or a line delivered twice or lost.",
  ["inputs","schedules","fault_sequences"],"all lines, chunkings, arrival times, interrupted and failed reads",
  WHY.format("terminal input"),["src/binary/init/console_module.rs","src/binary/init/mod.rs",BIN],[("keyboard builtins","src/binary/init/console_module.rs"),("input builtin","src/binary/init/mod.rs")])
p("C21","Sleeping lasts at least the requested time and clocks are read truthfully",
  "`time@sleep n` returns after at least n milliseconds (a fraction is dropped) of real time, and does not wait unboundedly longer, however often it is interrupted by signals and however the wall clock is changed meanwhile; zero or less returns at once. `time@now` describes an instant between its call and its return, all its fields consistently the same instant in local time, also across day and year boundaries and after the clock is set back.",
  ["inputs","fault_sequences","schedules"],"all durations and dates, clock jumps, signals during the sleep",
  WHY.format("clock"),["src/binary/init/time_module.rs"],[("sleep / now builtins","src/binary/init/time_module.rs")])
p("C22","Random results always lie in the requested range",
  "For every source of randomness the system may deliver, `rand@int l h` is an integer n with l <= n < h, `rand@choose list` is an element of the list, and `rand@shuffle list` is a permutation of the list; every permitted value can occur. An empty range or list raises an error rather than crashing. Failing or short random system calls do not change this.",
  ["inputs","fault_sequences"],"all ranges and lists, all random streams",
  WHY.format("random builtin"),["src/binary/init/rand_module.rs"],[("int / choose / shuffle builtins","src/binary/init/rand_module.rs")])
p("C23","Log messages appear exactly when their level is enabled",
  "After any sequence of `log@set-level` and `log@disable`, a message logged at a level is printed (once, complete, each of its lines marked with that level's name) exactly if the current level is at least the message's level, in the order error < warn < info < debug < trace; `log@enabled?` and `log@get-level` agree with that. A suppressed message prints nothing. The level is one setting for the whole session, also when set inside functions or included files.",
  ["histories","inputs"],"all histories of level changes and messages",
  WHY.format("logging"),["src/binary/init/log_module.rs"],[("LOG_LEVEL and is_log_level_enabled","src/binary/init/log_module.rs")],[{"name":"LOG_LEVEL","meaning":"current level","where":"src/binary/init/log_module.rs"}])
p("C24","A script source runs completely or, if unreadable or malformed, not at all",
  "A script file given on the command line, the `--exec` text, and files named in `include` or `import` are parsed as a whole before anything runs: if the file cannot be read completely or does not parse (a string left open at the end of the text is accepted by the grammar), an error is reported and none of it has any effect. Otherwise all of it is executed once, the file before the `--exec` text before the interactive session. `include` runs in the caller's environment (its variables and directory changes remain); `import` does not change the caller's variables or directory, and both yield the file's value.",
  ["inputs","fault_sequences","configurations"],"all scripts, truncations and command-line combinations, failures at any system call of loading",
  WHY.format("script loading"),[BIN,"src/binary/init/sys_module.rs"],[("run_file / run_text / main",BIN),("include / import builtins","src/binary/init/sys_module.rs")])
p("C25","exit ends the shell at once with the requested status and complete effects",
  "`exit n` ends the shell immediately with exit status n modulo 256 (0 when applied to no argument) from any depth of functions, loops, handlers or pipelines; nothing after it has any effect, and everything before it - files, printed text, finished programs - is complete. A script that ends normally exits with status 0. The terminal is left in its normal mode unless the script itself changed it.",
  ["programs","fault_sequences"],"all places and statuses, all output chunkings",
  WHY.format("termination"),["src/binary/init/os_module.rs",BIN],[("exit builtin","src/binary/init/os_module.rs")])
p("C26","Operating-system failures surface as shell errors, never as a crash",
  "No failing system call under a file, directory, program, pipeline, clock, random or keyboard operation - and no missing, unreadable or oddly named file, bad pattern, odd variable value or absent terminal - makes the shell panic, abort, hang or exit: the expression raises an error a handler can catch, or succeeds, and the session or script can go on. (Failure to write the shell's own standard output or standard error is outside this promise.)",
  ["fault_sequences","inputs"],"every single system-call failure and random sequences of them under every operation, extreme arguments",
  WHY.format("system-call failure"),["src/binary/init",EX,BIN],[("Result-returning builtins","src/binary/init"),("eval_mut launch error mapping",EX)])
p("C27","Killing the shell leaves the effects of a prefix of the script",
  "If the shell process is killed at any moment, the file system holds the complete effects of every statement that had finished, possibly part of the effect of the one statement in progress, and nothing of later statements; files not named by the statement in progress are intact. Text printed before a finished program launch is not lost.",
  ["crash_points","programs"],"a kill before every system call of every script",
  WHY.format("crash"),[FS,EX],[("each builtin performs its effect before returning, with no write-behind",FS)])
p("C28","Completion and suggestions only edit the line, with names that exist",
  "Tab completes the path before the cursor - in the shell's current directory, or in the directory the path names - to the entry it uniquely begins, or to the longest beginning all matching entries share; a second Tab only lists them; otherwise the line stays as typed. Right at the end of the line accepts the grey suggestion: the rest of the known command, or else of the newest earlier entry, that begins with the typed text. Nothing is executed, lost or changed on disk by either, the entry accepted is the line as shown, and the session goes on when a directory cannot be read.",
  ["histories","fault_sequences"],"all directory contents, current directories, histories, failures while a directory is read, arrival times of keys",
  WHY.format("key press or directory"),[BIN],[("Completer for DuneHelper",BIN),("Hinter for DuneHelper",BIN),("update_env",BIN)])
p("C29","Terminal modes, size, single keys and drawing do exactly what was asked",
  "`console@mode@raw` succeeds only with the terminal in raw mode (no echo, line editing or signals) until `console@mode@cooked`, which restores exactly the settings found; repeating either is harmless, and one that fails leaves the mode as it was. In raw mode `console@keyboard@read-key` returns every key typed once and in order, as `console@keyboard@keys` names it (or its character), however the bytes arrive, typed ahead or not; a window change gives at most one None. `console@width` and `console@height` are the window's current size, None if standard output is no terminal. What the console functions draw - text at a place, cursor moves, screens, title - appears exactly so, in order with all other output. Interrupted system calls and signals change none of this.",
  ["schedules","fault_sequences","inputs","histories"],"all sequences of mode changes, drawing and keys, arrival times and splittings of their bytes, window changes, terminal failures",
  WHY.format("terminal"),["src/binary/init/console_module.rs",BIN],[("mode, cursor, keyboard builtins","src/binary/init/console_module.rs"),("width, height, write, title, clear","src/binary/init/console_module.rs")],
  [{"name":"terminal settings","meaning":"mode in force and the settings to restore","where":"crossterm, through src/binary/init/console_module.rs"}],
  ["the simulated terminal: its settings, the bytes written to it (followed by a screen emulator), the values the builtins give"])
p("C30","Values are shown whole at every size of the terminal",
  "What `println`, `echo`, `print` and the interactive shell's report of a result show of a value is all of it - every key, element and text, once, each element in its own place of the table, in order - and nothing else: numbers, texts and truth values exactly, `debug` always in one line. This holds at every width and height of the terminal, with no terminal, when its size is unknown or cannot be asked, and when the window changes meanwhile; the shell goes on afterwards. A value one part of which fails to evaluate shows nothing.",
  ["inputs","schedules","fault_sequences"],"all nested values, window sizes, moments of a window change, failing size queries, interrupted and partial writes",
  WHY.format("window size or nested value"),[EX,"src/binary/init/mod.rs"],[("Display for Expression",EX),("println, print, report","src/binary/init/mod.rs")])
p("C31","The line editor shows exactly the line being entered",
  "Whenever the editor waits for a key - at the shell's prompt or in `input` - the screen shows the prompt, then exactly the characters of the line as it is (typed, edited, recalled; well-formed or not, colours aside), then nothing but a suggestion in bold, with the cursor at the place the next character goes to. This holds for every prompt (empty, coloured, wide, of several lines), every width of the window, lines longer than it, and every way the keys and the written bytes are split or interrupted; the line then given is the one shown.",
  ["inputs","histories","schedules","fault_sequences"],"all lines, edits, prompts, window widths, splittings of keys and output, signals",
  WHY.format("keystroke"),[BIN],[("syntax_highlight",BIN),("Highlighter, set_prompt, strip_ansi_escapes",BIN),("try_readline",BIN)],
  [{"name":"line being edited","meaning":"text and cursor","where":"rustyline, configured in src/bin.rs"}],
  ["the simulated terminal: the bytes written to it, followed by a screen emulator, at each moment the shell waits for a key"])
# not applicable
p("C40","Parsing never panics and always terminates",
  "For every input text, parsing returns an expression or a syntax error; it does not panic, loop or exhaust the stack for inputs of moderate nesting.",
  ["inputs"],"all texts","The tests parse a dozen fixed inputs.",["src/parser.rs","src/tokenizer.rs"],[("parse_script","src/parser.rs"),("parse_tokens","src/tokenizer.rs")])
p("C41","Tokens tile the source text",
  "For every input, the tokens produced cover the text without gaps or overlaps, in order, each with the kind the grammar gives it, so that highlighting shows exactly the typed text.",
  ["inputs"],"all texts","The tests tokenize a dozen fixed inputs.",["src/tokenizer.rs",BIN],[("parse_tokens","src/tokenizer.rs"),("syntax_highlight",BIN)])
p("C42","Operator precedence and associativity",
  "Every expression parses to the tree given by the documented precedence and associativity of the operators, and redundant parentheses do not change its value.",
  ["programs"],"all expressions","Three fixed expressions are parsed.",["src/parser.rs"],[("parse_expression_prec_*","src/parser.rs")])
p("C43","Lexical scoping of functions",
  "A function sees the variables visible where it was created plus its parameters, never assigns its caller's variables, and curried application equals applying the arguments one at a time; macros run in the caller's scope.",
  ["programs"],"all programs","No test evaluates a program.",[EX,"src/env.rs"],[("Lambda capture in eval_mut",EX)])
p("C44","Checked arithmetic",
  "Integer arithmetic gives the exact result or an error on overflow or division by zero; mixed arithmetic converts to float.",
  ["inputs"],"all operand pairs","No test evaluates arithmetic.",[EX,OP],[("Add/Sub/Mul/Div/Rem for Expression",EX)])
p("C45","Structured-data conversion",
  "`parse@json` and `parse@toml` turn every well-formed document into the corresponding value and every malformed one into an error.",
  ["inputs"],"all documents","No test calls them.",["src/binary/init/parse_module.rs"],[("json / toml builtins","src/binary/init/parse_module.rs")])
p("C46","Bounded recursion depth",
  "Unbounded recursion in a program ends in a recursion-depth error instead of a stack overflow.",
  ["programs"],"all recursive programs","No test evaluates recursion.",[EX],[("MAX_RECURSION_DEPTH",EX)])
p("C47","List, dictionary, string and math builtins compute their documented function",
  "`list@*`, `dict@*`, `string@*`, `math@*` and `fn@*` return the documented result for every argument and raise an error on ill-typed arguments.",
  ["inputs"],"all arguments","No test calls them.",["src/binary/init/list_module.rs","src/binary/init/string_module.rs","src/binary/init/math_module.rs","src/binary/init/dict_module.rs","src/binary/init/fn_module.rs"],[("builtins","src/binary/init")])
p("C48","Widgets and text formatting keep their layout",
  "`widget@*` produce rectangular blocks of the requested size for every content, and `fmt@*` wrap text in balanced escape sequences without changing it.",
  ["inputs"],"all contents and sizes","No test calls them.",["src/binary/init/widget_module.rs","src/binary/init/fmt_module.rs"],[("widget builtins","src/binary/init/widget_module.rs")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=True)+"\n")
print(len(P))
