#!/usr/bin/env python3
"""Writes properties.jsonl (kept here because prose is easier to edit in this form)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})
T = "The 15 existing tests only check that one fixed line each parses; nothing is ever evaluated. "

p("C01", "Words reach the program exactly as written",
  "A simple command runs the named program exactly once with exactly the words of the line as its arguments, in order: a blank-separated unquoted word verbatim, a word that starts with a single or double quote as one argument without its quotes and with every inner character (blanks, operators, the other quote, non-ASCII text) preserved, a variable reference as the variable's value, verbatim and as one argument. Text that came out of a quoted string or out of a variable's value is never interpreted again (no second round of quote removal, expansion, splitting or command execution). The amount of blank space between words and a trailing comment make no difference.",
  ["inputs", "programs"], "every command line built from the word alphabet up to the stated number of words, in every position (command name, argument, after an operator)",
  T + "No test looks at an argument vector, so no combination of words, quotes and expansions is covered.",
  ["src/lexer.rs", "src/grammar.lalrpop", "src/ast.rs", "src/eval.rs"],
  [("lexer word/quote scanning", "src/lexer.rs word, single_quote, double_quote"), ("quote removal and expansion", "src/ast.rs SimpleCommand::expand_vars, eval, cut_quotes, argv")],
  ["argv of every program started"])

p("C02", "Command lists run the right commands, in order",
  "In a list joined by ';', newline, '&&' and '||', commands run strictly left to right, each at most once, and a command after '&&' (or '||') runs exactly when the status of what precedes it in its chain is zero (or non-zero); ';' and newline start a fresh chain. '!' inverts the status of its pipeline. This holds whether the members are programs, shell functions or builtins, whether a program exits with any code or is killed by a signal, and a failing builtin or an unknown command counts as failure without abandoning the rest of the line.",
  ["programs"], "every list of up to the stated number of members over the operators and the kinds of command",
  T + "No list with two members is evaluated by any test.",
  ["src/eval.rs", "src/grammar.lalrpop", "src/builtins.rs", "src/jobs.rs"],
  [("and-or evaluation", "src/eval.rs eval_and_or, parse_tree"), ("status register", "src/eval.rs EXIT_STATUS"), ("list grammar", "src/grammar.lalrpop List, AndOr, Pipeline")],
  ["sequence of programs started", "text printed by the shell"])

p("C03", "Pipelines compose their stages and take the last status",
  "In 'a | b | ... | n' every stage runs exactly once, each stage's standard output is exactly the next stage's standard input and reaches end-of-file when the previous stage ends, and only the last stage writes to the shell's own standard output. The pipeline's status is the last stage's status, and the next command does not start before every stage has ended. This holds for any mix of programs, shell functions and builtins as stages, in whatever order the stages happen to finish.",
  ["programs", "schedules"], "every pipeline of up to the stated number of stages over the stage kinds, and every order in which the stages can finish",
  T + "Pipelines are parsed by tests but never run; the order in which stages finish is up to the kernel, so one run would not settle it anyway.",
  ["src/eval.rs", "src/jobs.rs", "src/grammar.lalrpop"],
  [("fork loop and pipe plumbing", "src/eval.rs eval_pipeline"), ("waiting for the job", "src/jobs.rs wait_for_job, do_wait, wait_one")],
  ["bytes leaving the pipeline", "programs started, with their descriptors", "status seen by && and ||"])

p("C04", "Redirections change exactly the files they name",
  "'<', '>' and '>>' with an optional descriptor number connect exactly that descriptor of exactly that command to exactly the named file (name after quote removal and variable expansion): '>' leaves the file holding only what the command wrote, '>>' keeps what was there and adds to the end, '<' never changes the file. Several redirections of one command take effect left to right, and inside a pipeline they override the pipe for their descriptor only. If a file cannot be opened the command does not run, its status is non-zero, files named after it on the line are not touched and the shell goes on; later commands always see the shell's own descriptors again.",
  ["histories", "inputs"], "every sequence of redirected commands up to the stated length over two or three files, all operators, descriptor numbers and positions, including unopenable files",
  T + "Redirection is only parsed; what ends up in a file after two commands is never looked at.",
  ["src/eval.rs", "src/grammar.lalrpop", "src/lexer.rs", "src/builtins.rs"],
  [("opening and duplicating", "src/eval.rs eval_redirect, eval_prefix_suffix"), ("redirection grammar", "src/grammar.lalrpop IORedirect, IOFile")],
  ["contents of the scratch files after every command", "descriptors of every program started"])

p("C05", "Variables behave as a stack of scopes",
  "Expanding a variable yields the value most recently assigned to it in the innermost active scope that holds it; assigning a variable that some active scope holds changes it there and nowhere else, otherwise it is created in the current scope. Calling a function opens a scope that is discarded when the call ends, unset removes exactly the innermost visible binding, and a reference to a variable that does not exist is left as written. Values are kept verbatim, whatever characters they contain, and assigning one variable never changes another.",
  ["histories"], "every history of assignments, expansions, unsets and nested function calls up to the stated length over a few names and values",
  T + "No test assigns or expands a variable, and the property is about all histories.",
  ["src/context.rs", "src/shell.rs", "src/ast.rs", "src/builtins.rs", "src/eval.rs"],
  [("scope stack", "src/context.rs ContextManager get_var, add_var, remove_var, push_context, pop_context"), ("expansion", "src/ast.rs expand_vars"), ("assignment command", "src/builtins.rs assignment, unset")],
  ["argv of probe commands"])

p("C06", "A readonly variable never changes",
  "Once a variable is readonly, no later command can change its visible value or remove it: plain assignment, readonly with a new value, export with a new value, unset, assignment inside a function, eval or sourced file all leave it as it is, and after a command with a prefix assignment or with arguments bound to positional parameters it is what it was. The refused command does not disturb any other variable and the shell goes on. 'readonly -p' lists exactly the readonly variables with their values.",
  ["histories"], "every history of variable-changing commands up to the stated length over readonly and ordinary variables",
  T + "Readonly is not exercised by any test.",
  ["src/context.rs", "src/builtins.rs", "src/shell.rs"],
  [("readonly flag", "src/context.rs Var::readonly, ContextManager::add_var, add_var_readonly, set_var_readonly"), ("readonly builtin", "src/builtins.rs readonly, unset, export")],
  ["argv and environment of probe commands", "text printed by readonly -p"])

p("C07", "Programs see exactly the exported environment",
  "A program's environment is the shell's inherited environment, as changed by export, by later assignments to and unsets of exported variables, plus the assignments written in front of that one command; variables that were never exported do not appear. A prefix assignment is visible to its own command only and leaves the shell's variables and later commands' environments alone. Values arrive verbatim, without their quotes.",
  ["histories"], "every history of assign, export, unset and prefixed commands up to the stated length",
  T + "No test starts a program, so no environment is ever observed.",
  ["src/builtins.rs", "src/eval.rs", "src/context.rs"],
  [("export", "src/builtins.rs export"), ("prefix assignments", "src/eval.rs eval_assignment"), ("environment scope", "src/context.rs ContextManager::default, add_var_pos")],
  ["environment of every program started"])

p("C08", "Function calls bind arguments and run the current body",
  "Calling a defined function runs its most recent definition's body in order in the current shell, with $0 the function's name and $1, $2, ... the call's arguments verbatim; after the call, however it ends and however deep the calls nest, the caller's own $0, $1, $2, ... are what they were. The call's status is the status of the last command run in it or the value given to return, and return ends the body at once. Redefinition replaces, unset -f removes, and neither affects other functions or variables of the same name.",
  ["programs", "histories"], "every history of definitions, redefinitions, removals and (nested) calls up to the stated length",
  T + "Two tests parse a definition; none calls a function.",
  ["src/eval.rs", "src/context.rs", "src/builtins.rs", "src/shell.rs"],
  [("call", "src/eval.rs eval_function, eval_pipeline"), ("function table", "src/context.rs add_function, get_function, remove_function"), ("return", "src/builtins.rs return_cmd")],
  ["argv of probe commands run inside and after calls", "status seen by && and ||"])

p("C09", "Aliases substitute exactly once and keep their definitions",
  "Running a name that has an alias runs the alias's words followed by the words of the command line; the definition used is the most recent one, one level deep, and names without an alias are unaffected. 'alias name=value' adds or replaces one alias with the value verbatim, 'unalias name' removes exactly that one, 'unalias -a' removes all, and 'alias' lists exactly the current ones. An alias can stand for a program, a function or a builtin, and no alias value can crash the shell.",
  ["histories"], "every history of alias, unalias, list and use up to the stated length over a few names and values",
  T + "Aliases are never defined or used by a test.",
  ["src/shell.rs", "src/ast.rs", "src/builtins.rs", "src/eval.rs"],
  [("alias table", "src/shell.rs add_alias, lookup_alias, remove_alias"), ("substitution", "src/ast.rs alias_lookup"), ("builtins", "src/builtins.rs alias, unalias")],
  ["argv of programs run through aliases", "text printed by alias"])

p("C10", "Command substitution captures output and nothing else",
  "'$(...)' and backquotes, alone or inside a double-quoted word, run the enclosed commands once, in a child, and are replaced by what those commands wrote to standard output with surrounding white space trimmed. Nothing the enclosed commands do to variables, aliases, functions or the working directory affects the shell, the captured text is not executed or expanded again, and any amount of output is captured without the shell hanging. The shell and its descriptors are usable afterwards whatever the enclosed commands did.",
  ["inputs", "programs"], "every command with substitutions built from the alphabet of inner commands, outputs (including ones that look like shell syntax) and positions",
  T + "No substitution is ever evaluated by a test.",
  ["src/ast.rs", "src/lexer.rs", "src/eval.rs"],
  [("running and reading", "src/ast.rs eval_subshell"), ("locating substitutions", "src/ast.rs cut_quotes, create_subshell, eval; src/lexer.rs subshell")],
  ["argv of programs", "sequence of programs started", "open descriptors"])

p("C11", "No input line brings the shell down or half-runs",
  "Whatever line is entered, the interactive shell survives it and then runs the next line normally; only exit, exec and end of input end it. A line that is not accepted by the grammar is reported and has no effect at all: no program runs and no variable, alias, function, file or directory changes. A builtin given missing or malformed operands fails with a message, and extra operands never crash it.",
  ["inputs"], "every line made of up to the stated number of tokens from an alphabet covering all token kinds, builtins with all small operand lists, and every short string over an alphabet of significant characters",
  T + "The tests feed 15 well-formed lines to the parser and never an ill-formed one.",
  ["src/main.rs", "src/lexer.rs", "src/grammar.lalrpop", "src/eval.rs", "src/builtins.rs", "src/ast.rs"],
  [("error handling in the loop", "src/main.rs interactive_loop"), ("lexer and grammar", "src/lexer.rs, src/grammar.lalrpop"), ("operand checks", "src/builtins.rs")],
  ["shell process still alive and answering", "programs started", "scratch files"])

p("C12", "The job table tells the truth under every event order",
  "For every background or stopped job 'jobs' shows exactly one entry with its number, state (running or stopped) and command names, and it shows nothing for jobs that have ended; numbers of live jobs are distinct and do not change. This holds for every order in which the processes of several jobs exit, are killed, stop and continue, and wherever those events fall relative to the commands entered, including several events before the shell next looks. fg and bg continue exactly the processes of the job they name (by number or process id) and no others, and naming an unknown job fails without signalling anything.",
  ["schedules", "histories"], "every interleaving, up to the stated depth, of commands with child exit, kill, stop and continue events of up to three jobs of up to two processes",
  T + "Jobs are never created by a test and child events arrive at times no test controls.",
  ["src/jobs.rs", "src/trap.rs", "src/builtins.rs", "src/shell.rs", "src/eval.rs"],
  [("job table", "src/jobs.rs JobControl create_job, delete_job, update_pid_table"), ("reaping", "src/trap.rs sig_chld; src/jobs.rs wait_one, wait_for_job_sigchld"), ("fg and bg", "src/builtins.rs fg, bg, fgbg")],
  ["text printed by jobs", "signals the shell sends", "waits the shell performs"])

p("C13", "The prompt returns exactly when the foreground job is done",
  "A foreground command or pipeline, and fg, return to the prompt only when every process of that job has terminated or the job has stopped, and always do so then, whatever other jobs do meanwhile. Every child that terminates is eventually collected, none is collected twice, and the status of the foreground job is never confused with that of another job: exit code as given, 128 plus the signal number for a killed command. A background command returns to the prompt at once.",
  ["schedules"], "every order of termination, stop and kill events of the foreground job's processes and up to two other jobs while the shell is waiting",
  T + "No test starts a child, and the order of events is decided by the kernel.",
  ["src/jobs.rs", "src/eval.rs", "src/trap.rs", "src/builtins.rs"],
  [("blocking wait", "src/jobs.rs wait_process, do_wait, wait_one, wait_for_job"), ("foreground evaluation", "src/eval.rs eval_pipeline"), ("fg", "src/builtins.rs fg")],
  ["the point at which the shell asks for the next line", "which children have been waited for", "status seen by && and ||"])

p("C14", "A signal at any instant neither kills nor wedges the shell",
  "A child-status change or an interrupt (SIGINT) delivered at any point while the shell is reading, parsing, evaluating, starting or waiting for commands never crashes the shell, never changes which commands run or their results, and is never lost: afterwards the job table is correct. After every command line, however it ended, the shell has all signals unblocked again. Programs start with default signal dispositions and an empty signal mask.",
  ["schedules"], "delivery of one (and two) signals at every observable point of the evaluation of each line in a set covering every command kind",
  T + "Signals arrive asynchronously; no test delivers one.",
  ["src/trap.rs", "src/jobs.rs", "src/eval.rs", "src/shell.rs", "src/builtins.rs", "src/main.rs"],
  [("handler", "src/trap.rs on_sig, sig_chld"), ("masking", "src/trap.rs interrupts_off, interrupts_on; src/shell.rs delete_job"), ("child reset", "src/jobs.rs fork_reset, src/trap.rs remove_handlers")],
  ["shell process state", "signal mask at the prompt", "dispositions and mask of programs started"])

p("C15", "System-call failures are contained",
  "If creating a process or a pipe, opening a file or changing directory fails while a line is evaluated, the shell reports it, runs no command with missing or wrong descriptors, leaves no phantom job or unreaped child behind, leaks no descriptor, never signals a process it did not start, and runs the next line normally.",
  ["fault_sequences"], "one (and two) injected failures at every fork, pipe, open and dup call made while evaluating each line in a set covering every command kind",
  T + "The failures cannot be provoked by a unit test on an idle machine.",
  ["src/eval.rs", "src/ast.rs", "src/jobs.rs", "src/builtins.rs"],
  [("fork and pipe error paths", "src/eval.rs eval_pipeline, temp_fork; src/ast.rs eval_subshell"), ("open errors", "src/eval.rs eval_redirect; src/builtins.rs source, create_context_from_file")],
  ["shell process state", "programs started with their descriptors", "jobs output", "descriptor table"])

p("C16", "exec replaces the shell faithfully or leaves it intact",
  "exec with a program that can be found replaces the shell by that program with exactly the given arguments and the exported environment, -c giving an empty environment, -a NAME giving NAME as argument zero, -l prefixing argument zero with '-', in any combination. If the program cannot be found or operands are missing, exec fails with a message and the shell continues with its signal handling, variables, jobs and descriptors unchanged.",
  ["inputs", "configurations"], "every combination of options and operands up to the stated length, for programs that exist and that do not, followed by further commands",
  T + "exec is not exercised.",
  ["src/builtins.rs", "src/eval.rs", "src/jobs.rs", "src/trap.rs"],
  [("option parsing", "src/builtins.rs exec_cmd"), ("replacement", "src/eval.rs temp_execve")],
  ["argv and environment of the replacing program", "behaviour of the shell after a failure"])

p("C17", "eval and source mean the same as typing the lines",
  "eval of a string and sourcing a file of commands have exactly the effect of entering the same commands at the prompt, in the current shell: the same programs with the same arguments run in the same order and variables, functions, aliases, directory and status end up the same, including blank lines, comments, leading and trailing newlines and definitions spread over several lines. Arguments given to source are $1, $2, ... while the file runs. A missing or unparsable file or string runs nothing, fails with a message, and the shell goes on.",
  ["programs"], "every program of up to the stated number of lines over the line alphabet, run three ways and compared",
  T + "Neither eval nor source is exercised.",
  ["src/builtins.rs", "src/grammar.lalrpop", "src/lexer.rs"],
  [("source and eval", "src/builtins.rs source, eval_cmd"), ("separators", "src/grammar.lalrpop CompleteCommand, Separator; src/lexer.rs newline_list")],
  ["programs started", "variables, aliases, functions and directory afterwards"])

p("C18", "Exported contexts are isolated namespaces",
  "'export context ns=file' evaluates the file in a scope of its own and makes its variables and functions reachable only as ns::name; nothing in it becomes visible unqualified and no shell variable changes. 'export context ns=self' publishes the current scope under ns, and unset -c ns removes exactly that namespace; qualified lookups see the namespace's own binding or nothing. A file that is missing, unparsable or fails leaves the scopes as they were.",
  ["histories"], "every history of context exports, removals, qualified and unqualified uses up to the stated length",
  T + "Contexts are not exercised.",
  ["src/context.rs", "src/builtins.rs", "src/shell.rs"],
  [("namespaces", "src/context.rs add_context, get_context_by_name, get_var, get_function"), ("export context", "src/builtins.rs export, create_context_from_file")],
  ["argv of probe commands"])

p("C19", "No descriptor leaks into programs or accumulates in the shell",
  "Every program starts with descriptors 0, 1 and 2 and the ones it was explicitly given, and nothing else: no pipe end of another stage, no file of another command. After any line, completed, failed or rejected, the shell holds exactly the descriptors it held before it.",
  ["histories", "programs"], "every history of up to the stated number of lines over an alphabet covering pipelines, redirections, substitutions, functions, source, eval, contexts and failures",
  T + "Descriptors are never inspected.",
  ["src/eval.rs", "src/ast.rs", "src/builtins.rs"],
  [("pipe closing", "src/eval.rs eval_pipeline"), ("redirection files", "src/eval.rs eval_redirect"), ("substitution pipe", "src/ast.rs eval_subshell")],
  ["descriptor table of every program and of the shell at each prompt"])

p("C20", "Command lookup follows PATH; directories follow cd",
  "A name without a slash runs the program of that name from the first directory in the current PATH that holds it, a name with a slash runs that very file, and a name that is not found runs nothing, is reported and has non-zero status. cd moves the shell (with no operand: to $HOME) and every later program to exactly the named directory, a failing cd moves nothing and has non-zero status, and pwd prints the directory the shell is in.",
  ["histories"], "every history of PATH assignments, cd, pwd and program uses up to the stated length over a small directory tree",
  T + "No test looks up a program or changes directory.",
  ["src/context.rs", "src/eval.rs", "src/builtins.rs"],
  [("lookup", "src/context.rs lookup_command; src/eval.rs temp_exec"), ("cd and pwd", "src/builtins.rs change_directory, pwd")],
  ["path and working directory of every program started", "text printed by pwd"])

p("C21", "All ways of invoking the shell agree, and exit reports status",
  "A program given with -c or as a script file runs the same commands with the same results as entered line by line interactively, prints nothing of its own, and a script file sees its operands as $1, $2, ... and its name as $0 and ends at end of file. The shell's exit status is the operand of exit, or of the last command run when exit has no operand or input ends. A line that does not parse is reported and does not stop a script from ending normally.",
  ["programs", "configurations"], "every program of up to the stated number of lines over the line alphabet in each invocation mode",
  T + "main is never run by a test.",
  ["src/main.rs", "src/builtins.rs", "src/eval.rs"],
  [("argument parsing", "src/main.rs parse_args"), ("script and -c execution", "src/main.rs script_loop, read_from_args"), ("exit", "src/builtins.rs quit")],
  ["programs started", "standard output", "exit status"])

p("C22", "Completion offers exactly the commands that match",
  "Completing a command prefix on a terminal offers exactly the names found in the directories of PATH that start with the prefix, each once, for every prefix and any contents of those directories, including unreadable or missing directories and odd file names. Completion never changes what is executed beyond the text inserted, and never brings the shell down.",
  ["inputs", "configurations"], "every prefix up to the stated length against every arrangement of a small set of names over PATH directories",
  T + "Completion needs a terminal and is not exercised.",
  ["src/completion.rs", "src/main.rs"],
  [("candidate search", "src/completion.rs command_complete, PathCompleter")],
  ["program run after Tab and Enter on a pseudo-terminal", "list shown on the terminal"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
