HOOKS = None
BE = "bounded exhaustive enumeration of "
FC = BE + "check files and inputs, run through the real parser, compiler and matcher, against a backtracking reference model written from the semantics alone"
CLAIMS = {
 "C01": (BE + "insertion histories on the real tree against a map model",
         "All histories within the stated bounds; every query answer compared with a plain map after each step."),
 "C02": (BE + "texts and every position, line, column and span of each, against an independent line table",
         "All texts within the bounds on the real source types and source manager."),
 "C03": (BE + "texts and edit sequences on the real source content, against rebuilding from scratch",
         "All edits (and edit sequences) within the bounds."),
 "C04": (BE + "operation histories against a model of the source manager, plus stateless exploration of all thread interleavings at lock operations with a linearizability oracle",
         "Sequential histories and concurrent programs within the bounds, on the real manager with substituted locks."),
 "C05": ("stateless exploration of all thread interleavings at lock operations of the real interner under a controlled scheduler, plus " + BE + "sequential histories",
         "All interleavings of the bounded programs."),
 "C06": (BE + "ranges, bounds, buffers and offsets against the definitions",
         "All values within the bounds, including the extremes of each integer type."),
 "C07": (BE + "texts (also across the read-buffer boundary) and directory layouts on real files",
         "All texts, layouts and patterns within the bounds."),
 "F01": (FC, "All sequences of CHECK within the stated bounds crossed with all inputs within the bounds: the verdict, and the matched spans where they are determined."),
 "F02": (FC, "All sequences of CHECK, CHECK-NEXT, CHECK-SAME and CHECK-EMPTY within the stated bounds crossed with all inputs within the bounds: the verdict, and the matched spans where they are determined."),
 "F03": (FC, "All sequences with CHECK-NOT within the stated bounds crossed with all inputs within the bounds: the verdict, and the matched spans where they are determined."),
 "F04": (FC, "All sequences with CHECK-DAG within the stated bounds crossed with all inputs within the bounds: the verdict, and the matched spans where they are determined."),
 "F05": (FC, "All sequences with CHECK-LABEL and scoped variables within the stated bounds crossed with all inputs within the bounds: the verdict, and the matched spans where they are determined."),
 "F06": (FC, "All sequences with CHECK-COUNT within the stated bounds crossed with all inputs within the bounds: the verdict, and the matched spans where they are determined."),
 "F07": (FC, "All sequences that capture and use string variables within the stated bounds crossed with all inputs within the bounds: the verdict, and the matched spans where they are determined."),
 "F08": (FC, "All numeric expressions within the stated bounds crossed with all inputs within the bounds: the verdict, and the matched spans where they are determined."),
 "F09": (FC, "All number formats, captured and substituted within the stated bounds crossed with all inputs within the bounds: the verdict, and the matched spans where they are determined."),
 "F10": (FC, "All option sets within the stated bounds crossed with all inputs within the bounds: the verdict, and the matched spans where they are determined."),
 "F11": (BE + "check file texts and prefix sets, run through the real lexer, parser and matcher, against a recogniser written from the rules alone and the reference matcher",
         "All fragment strings and line sequences within the bounds, under all the listed prefix sets."),
 "F13": (BE + "pattern texts, directive sequences, option values and inputs, run through the real engine (and its diagnostics rendered) under a panic and termination monitor",
         "All fragment strings within the bounds: no crash, no hang, every diagnostic renders, reporting options leave the verdict alone."),
 "F15": (BE + "check file conditions, input conditions and option sets, run through the real binary, against the reference model",
         "All combinations within the bounds: exit status against the verdict."),
 "F16": (BE + "check files and inputs, run through the real engine, with the diagnostics of every rejection judged against the reference model's account of why it rejects",
         "Every rejection among the suites of the other FileCheck properties with up to 3 directives: the check blamed, the text shown, lines and columns, regions and counts."),
 "F17": (BE + "check files and inputs, run through the real engine with remarks on, with the remarks of every run judged against the check file and the reference model's account",
         "The suites of the other FileCheck properties with up to 3 directives, spread over files and inputs within the stated bounds; and the binary with no, one and two -v."),
 "F18": (BE + "histories of verifications which share a configuration, test or checker, run through the real library, each against the same verification alone and the reference model",
         "All histories of up to 3 verifications within the bounds, through every public entry point, with files rewritten between them."),
 "F19": (BE + "check files and inputs, run through the real engine for each way of showing the input, with what every rejection shows judged against the reference model's account",
         "Every rejection among the suites of the other FileCheck properties with up to 3 directives, and inputs of all lengths around the limits: the dump, its counts and annotations, and the regions searched."),
 "F20": (BE + "texts and lists of definitions, parsed and used by the real engine, against a reader written from the documented form",
         "All texts of definitions and lists of definitions within the bounds, each used in patterns against renderings of near values; and the command with each way of giving them."),
 "F12": (FC, "All patterns of literal and regex parts within the stated bounds crossed with all inputs within the bounds: the verdict, and the matched spans where they are determined."),
 "F14": (FC, "All sequences under implicit NOT patterns within the stated bounds crossed with all inputs within the bounds: the verdict, and the matched spans where they are determined."),
 "L01": (BE + "feature expressions and feature sets, evaluated by the real parser and evaluator, against a recursive-descent reference evaluator",
         "All token strings and expression texts within the bounds, and the messages about unmet conditions for all lists within the bounds."),
 "L02": (BE + "combinations of status-affecting directives, configuration lists, features and script outcomes, executed by the real test format, against a decision table",
         "All combinations within the bounds, each run as a real test."),
 "L03": (BE + "sequences of lines of a test script, parsed and executed by the real shell format, against an independent line-based reader",
         "All sequences of line fragments within the bounds."),
 "L04": (BE + "templates, substitution tables, definition sequences and line references, expanded by the real engine, against an independent expander",
         "All templates and tables within the bounds."),
 "L09": (BE + "operation histories on the real intrusive test list, its cursors, drains and parallel iterators, against a plain vector",
         "All histories within the bounds."),
 "L10": (BE + "sets of interfering tests, placements, worker counts, working directories and repeated runs, executed by the real binary, against the status each test has alone",
         "All sets and placements within the bounds, each a real run; the schedules of the workers themselves are those the system picks, except for the completion orders that L07 forces."),
 "L11": (BE + "option and configuration combinations, observed from inside real tests run by the real binary, against the documented precedence",
         "All combinations within the bounds, each a real run."),
 "L12": (BE + "commands, inputs, filters, their source and position, on the real binary, against the selection computed from the rules and against the tests a run executes",
         "All combinations within the bounds."),
 "L13": (BE + "scripts of commands, and suites of ways for tests to end crossed with output shapes, options, timeouts and retries, run by the real format and binary, against the report composed from the outcome that each command has by construction",
         "All command sequences and suites within the bounds: the whole report of each test, byte for byte, except times and process ids."),
 "L14": (BE + "test files of wrong and right directives, parsed by the real format, against the places where they were made wrong",
         "All combinations within the bounds: number, order, line and column of the errors shown."),
 "L15": (BE + "configuration files of right and wrong settings for suites and nested directories, given to the real binary, against the places where they were made wrong",
         "All combinations within the bounds: rejection, nothing run, file, line and column shown; acceptance of those without errors."),
 "L16": (BE + "configurations of suites and directories, listed by show-suites and show-tests and run by the real binary, against what was configured and what the commands of the tests see",
         "All configurations within the bounds; the listing in full, and what a test can observe of it."),
 "L05": (BE + "directory trees, suite layouts, patterns, inputs and name filters, discovered by the real registry, against an independent walk",
         "All layouts and inputs within the bounds."),
 "L06": (BE + "assignments of settings to the levels of a directory tree, with every order of inputs, against inheritance computed from the rules",
         "All assignments within the bounds."),
 "L07": ("exploration of all orders in which tests can finish for every number of workers, forced on the real binary through FIFOs, plus " + BE + "sets of statuses, output options, selections and aborted runs, against a model of the report",
         "All completion orders and status sets within the bounds, each a real run."),
 "L08": (BE + "sequences of what a test does before it ends, or does not (large or late output, children in and out of its process group, closed outputs, ignored signals, a stopped process), crossed with limits and formats, executed by the real formats and runner as an unprivileged user, against the rules",
         "All sequences within the bounds, each a real test with a real limit; a delay of 4 s counts as small."),
 "M01": (BE + "tool scenarios, names, ways of being called and trace settings, run through the real binary, against the direct call of each tool",
         "All combinations within the bounds: exit status and standard output."),
 "N01": (BE + "exit statuses, terminating signals, chains of not, arguments, inputs and unstartable commands, run through the real binary, against the inversion rule",
         "All exit statuses and signals; chains, arguments and inputs within the bounds."),
}
NA = {}
