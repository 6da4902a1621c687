#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so the wording lives in one reviewable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mech, where=files[0])])))

FC = "filecheck/src/"
p("F01", "FileCheck: positive checks match leftmost, in order, without overlap",
  "A check file made only of plain positive checks accepts an input exactly when every pattern, taken in file order, occurs at or after the end of the previous match. On acceptance the reported matches are, in file order, the leftmost such occurrences; on rejection verification fails, never passes.",
  "inputs", "all check files of up to 4 plain checks over a small pattern alphabet (literals that are prefixes/overlaps of one another, regexes) crossed with all inputs up to a bounded length over a 3-letter alphabet including newlines",
  "Unit tests use a few hand-written inputs; overlap, restart and end-of-buffer cases arise only for particular pattern/input pairs.",
  [FC+"check/mod.rs", FC+"check/program.rs", FC+"rules/plain.rs", FC+"cursor.rs", FC+"pattern/matcher/matchers/substring.rs"],
  "check programs run sections over a cursor whose start is advanced to each match end")
p("F02", "FileCheck: NEXT, SAME and EMPTY honour line adjacency",
  "A next-line check is satisfied exactly by a match on the line immediately after the line where the previous match ended; a same-line check exactly by a match later on the same line; an empty-line check exactly when a next line exists and is empty. A match on any other line makes verification fail.",
  "inputs", "all sequences of up to 4 plain/next/same/empty checks crossed with all bounded multi-line inputs, with and without a final newline",
  "Off-by-one at line ends, empty matches, the last line without newline and consecutive blank lines need combinations no fixed test covers.",
  [FC+"rules/next.rs", FC+"rules/same.rs", FC+"rules/empty.rs", FC+"cursor.rs"],
  "rules compute start/end of line around the cursor in the input buffer")
p("F03", "FileCheck: NOT patterns are excluded between their neighbouring matches",
  "Verification fails exactly when a forbidden pattern occurs in the region between the end of the preceding positive match (or start of the search region) and the start of the following positive match (or its end); occurrences outside that region are ignored.",
  "inputs", "all sequences of up to 5 checks mixing runs of NOT checks with plain, next-line, same-line and label checks, crossed with all bounded inputs",
  "The region depends on both neighbours; a test samples one neighbour combination while the guarantee covers all of them, including runs at the start and end of file.",
  [FC+"check/mod.rs", FC+"check/program.rs", FC+"rules/not.rs", FC+"pattern/matcher/matchers/any.rs"],
  "NOT groups are compiled as Never/Bounded groups searched over the gap between positive matches")
p("F04", "FileCheck: DAG checks match in any order, without overlapping",
  "A run of unordered checks passes only if each of its patterns has a match in the region, no two of them overlapping; and whenever occurrences of different patterns do not overlap one another, it passes exactly when every pattern occurs, irrespective of their relative order in the input. Checks following the run continue after the furthest match, and a NOT between two runs keeps the second run after the first.",
  "inputs", "all runs of up to 4 unordered patterns (duplicates, common prefixes, overlapping literals, regexes) with an optional following check, crossed with all bounded inputs",
  "Wrong grouping of patterns that share a prefix or a duplicate only shows for specific pattern multisets and input permutations.",
  [FC+"rules/dag.rs", FC+"check/mod.rs", FC+"pattern/matcher/matchers/all.rs", FC+"pattern/matcher/matchers/substring_set.rs"],
  "DAG runs are compiled to common-prefix sets matched with a multi-pattern searcher")
p("F05", "FileCheck: LABEL checks partition the input into independent blocks",
  "Labels are located first, each as the leftmost match after the previous label; checks between two labels can only match text on the lines between them, and verification fails when a label is missing. Failing inside one block does not stop the other blocks from being checked and never turns into success.",
  "inputs", "all check files of up to 5 checks containing 1-2 labels mixed with other checks, crossed with all bounded inputs",
  "Block boundaries interact with every other directive; each combination of label position and directive needs its own test.",
  [FC+"check/mod.rs", FC+"check/program.rs", FC+"cursor.rs"],
  "blocks are discovered by matching labels, then each block bounds the cursor range")
p("F06", "FileCheck: COUNT-n requires n successive matches",
  "A counted check behaves exactly like n consecutive copies of the plain check: it accepts when n successive non-overlapping leftmost matches exist, leaves the search position after the n-th, and fails when fewer exist. A count of zero, or one too large to be represented, is rejected as an invalid check file.",
  "inputs", "all counts 0..4 (plus malformed counts) combined with neighbouring checks, crossed with all bounded inputs",
  "The position left after the n-th match matters only to specific following checks and inputs.",
  [FC+"rules/count.rs", FC+"check/program.rs", FC+"parse/lexer/mod.rs"],
  "Repeated groups apply the same rule n times over the moving cursor")
p("F07", "FileCheck: string variables bind what they matched and substitute it verbatim",
  "A string variable holds exactly the text its defining pattern matched, and every later use, including later on the same line and in later checks, matches only that text; redefinition replaces it, definitions given on the command line are visible from the start, and with variable scoping enabled captured non-global variables are forgotten at each label while global ones survive. Using an undefined variable in a positive check makes verification fail.",
  "inputs", "all check files of up to 3 lines built from definitions, uses, redefinitions and labels of up to two variables, with scoping on and off, crossed with all bounded inputs",
  "Binding bugs need a definition, an intervening failure or redefinition and a use to line up with a particular input.",
  [FC+"env.rs", FC+"context.rs", FC+"pattern/matcher/matchers/smart/searcher.rs", FC+"pattern/matcher/matchers/smart/builder.rs"],
  "captures are extracted by the smart matcher and written into a scoped environment")
p("F08", "FileCheck: numeric expressions evaluate by the documented arithmetic",
  "A numeric substitution matches exactly the textual form of the value of its expression: sums and differences left to right, the functions add, sub, mul, div, min and max, numeric variables captured earlier or defined on the command line, and the current check-file line number. An expression whose value differs from the text makes the check fail, and one that cannot be evaluated is an error rather than a match.",
  "inputs", "all expressions up to a bounded size over a small set of operands and operators, crossed with correct and incorrect input numbers",
  "Operator, operand-order and format combinations multiply; tests sample a few of them.",
  [FC+"expr/num.rs", FC+"expr/parser.rs", FC+"pattern/matcher/matchers/smart/searcher.rs", FC+"env.rs"],
  "expressions are parsed, evaluated against the environment, and compared with the matched number")
p("F09", "FileCheck: numeric formats and captures round-trip",
  "A numeric variable captured under a format (unsigned, signed, lower/upper hexadecimal, with a minimum number of digits or an alternate 0x prefix) takes exactly the longest leftmost number that is well formed for that format, and a later use of it matches exactly that value rendered in the requested format (by default the format it was captured with); a value the format cannot represent is an error, not a match.",
  "inputs", "all format pairs crossed with all small digit strings, signs, prefixes and neighbouring characters",
  "Digit case, precision padding, sign and prefix interact; a sampled test cannot cover their product.",
  [FC+"expr/num.rs", FC+"pattern/matcher/matchers/smart/searcher.rs", FC+"pattern/visitors/dynamic.rs"],
  "number formats provide both the capture regex and the rendering of values")
p("F10", "FileCheck: whitespace, case and full-line options act as documented",
  "By default a space and a tab in the pattern and the input match one another and whitespace before the pattern is ignored, while strict whitespace makes them significant (all but the one separator after the colon); case-insensitive mode equates letters differing only in case; full-line mode makes each positive pattern cover its whole line. Each option applies to every directive kind.",
  "configurations", "all subsets of the options crossed with a small alphabet of patterns, directive kinds and bounded inputs containing spaces, tabs and both letter cases",
  "Options are orthogonal to directives and matcher implementations, so each pair is a separate code path that tests sample thinly.",
  [FC+"check/mod.rs", FC+"input.rs", FC+"pattern/matcher/matchers/substring.rs", FC+"pattern/matcher/matchers/regex.rs", FC+"pattern/matcher/matchers/substring_set.rs"],
  "options are passed to each matcher constructor and to input canonicalisation")
p("F11", "FileCheck: directives are recognised exactly by the configured prefixes",
  "A line of the check file is a directive exactly when a configured check prefix, at the start of the line or after whitespace, is followed by a known suffix (or none), optionally the literal modifier, and a colon, and is not part of a comment directive; everything else is ignored. A check file with no directive for the configured prefixes, or a malformed directive, is rejected.",
  "configurations", "all lines from a grammar of surrounding text x prefix x suffix x modifier x separator, under all small sets of check and comment prefixes",
  "Recognition is a property of every possible line and prefix set; tests cover a handful.",
  [FC+"parse/lexer/mod.rs", FC+"parse/lexer/patterns.rs", FC+"parse/parser.rs", FC+"pattern/prefix.rs"],
  "a combined prefix regex drives a lexer that splits lines into directives")
p("F12", "FileCheck: pattern text is literal outside regex and substitution blocks",
  "Text outside double-brace regex blocks and double-bracket substitution blocks matches itself character for character, regex blocks match as regular expressions confined to one line, and adjacent parts match contiguously; with the literal modifier the entire text is literal.",
  "inputs", "all patterns of up to 3 parts over an alphabet including regex metacharacters, braces and brackets, crossed with all bounded inputs",
  "Metacharacter and delimiter handling is exactly what a few example patterns cannot settle.",
  [FC+"parse/lexer/mod.rs", FC+"ast/pattern.rs", FC+"check/mod.rs", FC+"pattern/matcher/matchers/regex.rs"],
  "patterns are split into parts and compiled to literal, regex or smart matchers")
p("F13", "FileCheck: verification is total - it never crashes",
  "For any check file, any input text and any options, verification terminates with acceptance, rejection or a diagnostic; it never panics or aborts. Malformed check files yield diagnostics, diagnostics can always be rendered, and options that only concern reporting never change the verdict.",
  "inputs", "all bounded strings over an alphabet of directive fragments and delimiters as check files, crossed with small inputs (empty, no trailing newline, multi-byte text) and option sets",
  "A crash needs an unusual input; tests only run the inputs their authors thought of.",
  [FC+"parse/lexer/mod.rs", FC+"parse/parser.rs", FC+"test/mod.rs", FC+"check/mod.rs", FC+"errors.rs"],
  "lexing, parsing, compilation and matching return results instead of panicking")
p("F14", "FileCheck: implicit NOT patterns are enforced between positive matches",
  "Each implicitly forbidden pattern given as an option must not occur in any region of the input between positive matches (nor before the first or after the last); verification fails exactly when such an occurrence exists or when the checks alone would fail.",
  "inputs", "one or two implicit patterns, all sequences of up to 3 checks, all bounded inputs",
  "The regions depend on every positive match, so the guarantee spans all inputs.",
  [FC+"check/mod.rs", FC+"test/mod.rs", FC+"check/program.rs"],
  "implicit patterns are attached to the compiled program around positive checks")
p("F15", "FileCheck: command-line verdicts are faithful",
  "The filecheck command exits zero exactly when verification accepts; it exits non-zero when verification rejects, when the check file is missing, empty of directives or malformed, and when the input is empty and empty input was not allowed. Input from standard input and from a file give the same verdict, and every option takes effect whether given on the command line, in FILECHECK_OPTS or divided between them. Whether either file has LF or CRLF line endings makes no difference.",
  "configurations", "all combinations of check-file kind, input kind (missing, empty, matching, non-matching), input channel and the empty-input and prefix options, as real processes",
  "The mapping runs through process exit codes and environment options that in-process tests bypass.",
  ["litcheck/src/commands/filecheck.rs", FC+"test/mod.rs", "core/src/input.rs"],
  "the command loads files, runs the test and maps results to an exit code")

p("F16", "FileCheck: a rejection reports the check that failed",
  "When an input is rejected, the report leads with the line of the check file whose check decides the rejection (any of them where several exclusions or unordered checks fail together, and an exclusion may give way to an expected pattern that is not found), an excluded match is shown at text of the input which that pattern matches, positions are shown as the lines and columns of the text they are about, regions said to have no match have none, matches are attributed only to checks that match that text, and the number of matches given for a counted check is the number found.",
  "inputs", "every rejection among the enumerated check files of up to 3 directives of every kind and inputs of the other FileCheck properties",
  "Reports are built separately from verdicts, for each way of failing, with positions that depend on the blocks and groups the failing check is in; tests look at a few reports.",
  [FC+"errors.rs", FC+"check/mod.rs", FC+"pattern/matcher/mod.rs", FC+"rules/mod.rs", "core/src/diagnostics/source_file.rs"],
  "each failing rule builds its own error value with spans into the check file and the input")

p("F17", "FileCheck: remarks name the checks that matched",
  "With -v each match of a check is reported by one remark which names the line of that check in the check file, where its pattern is on the line and its directive: after an accepted input every positive check has as many remarks as it has matches, numbered for a counted check, whatever its kind; a check that did not match has none, CHECK-NOT is only ever said not to be found, and neither -v nor -vv changes the verdict or the exit status. Without -v there are no remarks.",
  "inputs", "the enumerated check files of up to 3 directives of every kind and inputs of the other FileCheck properties, with remarks on, and runs of the binary with no, one and two -v",
  "Remarks are printed where each kind of group is matched, and not from the result, so each kind of check can lose, repeat or misattribute its own; no test reads a remark.",
  [FC+"check/mod.rs", FC+"lib.rs"],
  "each kind of check group prints its remarks as it matches")

p("F18", "FileCheck library: verifications do not affect each other",
  "A verification through any public entry point of the library (Test, by source or by file, Checker, by text or by file, the filecheck! macro) gives the verdict, matches and report that it gives by itself, whatever was verified before with the same configuration, the same test or the same checker, or in the same process: variables, sources and options of one do not reach the next, a file is judged by the content it has when it is verified, and one that cannot be read as text is an error.",
  "histories", "all histories of up to 3 verifications over a set of check files, inputs, entry points and options, on one configuration, one test or one checker, with the files rewritten between them",
  "The configuration owns the source manager, names are interned for the whole process and a checker keeps its program: whether state of one verification reaches the next shows only for particular histories, and each unit test uses everything once.",
  [FC+"test/mod.rs", FC+"check/mod.rs", FC+"lib.rs", "core/src/diagnostics/source_manager.rs"],
  "a configuration shares one source manager among all verifications that use it")

p("F19", "FileCheck: what a rejection shows of the input",
  "Unless --dump-input=never is given, a rejection shows the input once, at the end of the report and as a whole, with its number of lines, the number of failures and of matches, and with every match that was made (none twice, none that was not made), each with the line of the check that made it; with never nothing of this is shown, and the rest of the report and the verdict are the same. A pattern that was not found is reported with the region of the input in which it was searched for: from where the search began to where it had to end, with its lines, shown in full if it has at most 10 lines or -vv is given and by its two ends otherwise, or with the fact that nothing was left to search; a region is shown once, however many patterns were searched for in it.",
  "inputs", "every rejection among the enumerated check files of up to 3 directives of every kind and inputs of the other FileCheck properties, and inputs of every length around the limit, with each value of --dump-input and with -vv",
  "What is shown is computed from the matches and failures of all blocks together, from cursors that have since moved, with line arithmetic at ends of lines and of the input; the tests look at three reports.",
  [FC+"errors.rs", FC+"test/result.rs", FC+"check/mod.rs", FC+"lib.rs", "core/src/diagnostics/source_file.rs"],
  "the dump and the searched regions are built after checking from the collected matches and failures")

p("F20", "FileCheck: definitions on the command line",
  "A definition NAME=VALUE given with -D defines the variable NAME (a letter or underscore, then letters, digits and underscores) as the text VALUE, all of it and unchanged; #[FORMAT,]NAME=EXPRESSION defines a numeric variable with the value of the expression (the numbers, operators, brackets and functions of patterns, blanks anywhere between them, and variables defined before it, with the values they have there) and with that format, or else with the one its operands give it. A later definition of the same name replaces an earlier one. Definitions of any other form are refused with an error and nothing is verified, in whichever way they are given; one that has no value (a division by zero, a number too large, an undefined variable) is never matched.",
  "inputs", "all texts of definitions up to a bounded length over the tokens of expressions, names, formats and values, and all lists of definitions up to a bounded length, each used in patterns against all renderings of near values",
  "The command line has its own grammar and lexer for definitions, separate from that of patterns, which no test runs; a text that lexes or formats wrongly shows only for particular combinations.",
  [FC+"expr/cli.rs", FC+"expr/parser.rs", FC+"expr/grammar.lalrpop", FC+"env.rs", "core/src/variables/mod.rs"],
  "definitions are parsed by a second grammar and resolved against each other when the environment is made")

L = "lit/src/"
p("L01", "lit: feature expressions evaluate by boolean algebra",
  "A feature expression built from identifiers, regex blocks, negation, conjunction, disjunction and parentheses evaluates to its boolean value under the available features and target, with negation binding tighter than conjunction and conjunction tighter than disjunction; a malformed expression is rejected with an error instead of being evaluated. Where a condition is shown in a message, it is shown with the meaning it has, and the message names the conditions that decided, no more and no fewer.",
  "inputs", "all token sequences up to a bounded length over identifiers, operators, parentheses and regex blocks, crossed with all feature sets",
  "Precedence and error recovery are properties of all token sequences; a table of examples cannot settle them.",
  [L+"config/expr/boolean.rs", L+"config/features.rs"],
  "a tokenizer and precedence parser build an expression tree that is evaluated over a feature set")
p("L02", "lit: each test's reported status follows from its requirements and outcome",
  "A test whose requirements are not all met, or any of whose unsupported conditions holds, is reported unsupported and its commands are not run; otherwise passing and failing map to pass and fail, to xpass and xfail when an expected-failure condition holds, to flaky pass when it passes only on an allowed retry, and to unresolved when it dies by signal or has no commands to run.",
  "histories", "all combinations of requirement, unsupported, expected-failure and retry directives with all bounded outcome histories of the commands",
  "The outcome is a function of several independent conditions and an attempt history; tests sample the product.",
  [L+"formats/sh/mod.rs", L+"formats/sh/script/mod.rs", L+"test/result.rs"],
  "the shell test format evaluates conditions, runs with retries, and remaps the status")
p("L03", "lit: run scripts execute every command in order and stop at the first failure",
  "The commands of a test run in file order, a continued line is joined with the next command line, and the test passes exactly when all of them succeed; nothing after the first failing command runs. Keywords are recognised only in keyword form, an end marker stops recognition, and malformed directives make the test fail to parse rather than silently disappear.",
  "programs", "all test scripts of up to 4 lines over an alphabet of run lines (succeeding, failing, continued), noise and keyword directives",
  "Line joining, ordering and termination depend on sequences of lines.",
  [L+"formats/sh/script/parser.rs", L+"formats/sh/script/directives.rs", L+"formats/sh/script/mod.rs"],
  "the script parser collects directives, joins continuations, and the runner chains commands in a shell")
p("L04", "lit: substitutions expand exactly as defined",
  "In every command, each defined substitution is replaced by its value and all other text is left unchanged, including values containing characters special to pattern replacement; relative line references resolve to the line of the directive; definitions take effect only for later commands, defining an existing name or redefining an unknown one is an error.",
  "programs", "all sequences of up to 4 define/redefine/run directives over two names plus the built-in substitutions, and all bounded command texts around substitution names",
  "Expansion order, name-prefix overlaps and special characters need specific combinations.",
  [L+"config/substitutions.rs", L+"formats/sh/script/mod.rs", L+"formats/sh/script/directives.rs"],
  "scoped ordered substitution table applied by regex replacement to each command")
p("L05", "lit: discovery selects exactly the tests that match",
  "The tests discovered for the given paths are exactly the files under those paths that belong to a suite, match its patterns and are not excluded or hidden, each once and attributed to the nearest enclosing suite; name filters then select exactly the tests whose name matches the include filter and not the exclude filter.",
  "configurations", "all bounded directory trees over a small set of file names, suite configs and exclusions, crossed with all requested path sets",
  "Attribution and deduplication depend on the shape of the tree and the argument list.",
  [L+"suite/registry/default.rs", L+"test/registry/default.rs", "core/src/fs/mod.rs"],
  "suite lookup walks up to config files, test discovery walks down filtering by glob patterns")
p("L06", "lit: configuration is inherited from suite to directory to test",
  "A test's effective environment, features and substitutions are its suite's, overridden by local configuration files from the outermost directory down to the test's own directory; settings of one directory never leak into a sibling directory.",
  "configurations", "all placements of local config files in a bounded directory tree, with overlapping keys",
  "Inheritance across nested and sibling directories depends on lookup order and caching.",
  [L+"test/config.rs", L+"test/registry/default.rs", L+"suite/config.rs"],
  "local configs are cached in a path tree and merged along the ancestor chain")
p("L07", "lit: every selected test runs exactly once and decides the exit status",
  "For every number of workers and every order in which tests finish, each selected test is executed exactly once and reported exactly once with its own status, tests not selected are not executed, and the run exits non-zero exactly when some test has a failing status or the run was aborted or selected nothing.",
  "schedules", "all completion orders of up to 4 tests with 1..4 workers and all assignments of outcomes, driven through the real runner",
  "Ordinary runs see one arbitrary schedule; loss or duplication needs particular completion orders.",
  ["litcheck/src/commands/lit.rs", L+"test/list.rs", L+"suite/set.rs"],
  "worker threads pull tests from a shared queue and send reports over a channel")
p("L08", "lit: a test exceeding its time limit is reported as timed out, promptly",
  "When a time limit is set, a test that does not finish within it is stopped and reported as timed out, counts as a failure, and does not delay the run by more than a small margin; a test that finishes in time is never reported as timed out and its output is captured completely.",
  "histories", "all combinations of test behaviours (fast, silent sleeping, chatty, closing its output early, reading input) and limits",
  "The interaction of process lifetime, pipes and the clock depends on the behaviour of the child.",
  [L+"utils.rs", L+"formats/sh/mod.rs"],
  "child processes are polled against a deadline while reader threads drain their pipes")
p("L09", "lit: the ordered test list behaves as a sequence",
  "After any sequence of insertions, removals, splits, drains and appends, the test list contains exactly the tests a plain sequence would contain, in the same order, reports the right length, and iterating forwards, backwards or from both ends visits each element exactly once.",
  "histories", "all operation sequences up to a bounded depth on the real list against a plain vector",
  "Length and cursor bookkeeping errors need a specific sequence of operations.",
  [L+"test/list.rs", L+"suite/set.rs"],
  "an intrusive linked list with a separately maintained length")
p("L10", "lit: tests do not affect one another",
  "The status of a test in a run is the one it has when it runs alone, whatever other tests run before it or at the same time: any set of tests, in the same directory, with the same base name in other directories or suites, for any number of workers, from any working directory and for repeated runs. Each test reads an empty standard input, has a fresh temporary path of its own, distinct from that of every other test (whatever the name of the suite) and located under the configured temporary directory, and the runner leaves no temporary files behind. Tests that write to the same paths of their own choosing are outside this property.",
  "schedules", "all small sets of tests with mutually interfering scripts (which create, require and remove temporary files, change directory, read standard input, set variables) crossed with placements, worker counts, working directories and repetitions",
  "Interference needs a particular pair of tests in a particular placement and order; the existing tests run one script at a time.",
  ["litcheck/src/commands/lit.rs", L+"formats/shtest.rs", L+"suite/mod.rs", L+"suite/set.rs", L+"test/mod.rs"],
  "each test gets a temporary directory derived from its suite and path, and a child process with its own streams")
p("L11", "lit: tests run in the environment that options and configuration describe",
  "A test command runs with the environment that the options and the configuration describe: PATH is the --path directories in order followed by the configured or else the inherited PATH; configured and inherited variables reach it with exactly their value, configured ones winning; its working directory and the path substitutions (%s, %S, %t and the like) name the test and its directory; and the default filecheck and not substitutions run those tools of the running executable.",
  "configurations", "all combinations of --path lists, configured and inherited PATH, environment tables with awkward values, working directories and test placements within the bounds, observed from inside real tests",
  "Each setting has several sources whose precedence shows only in combinations.",
  ["litcheck/src/commands/lit.rs", L+"config/mod.rs", L+"formats/shtest.rs", L+"suite/mod.rs"],
  "options and suite configuration are merged into the environment and substitutions of each test")
p("L12", "lit: what is listed is what a run selects",
  "The tests and suites listed by show-tests and show-suites for given inputs and filters are exactly those that a run with the same inputs and filters selects, for every position of the options relative to the inputs, for filters given as options or in LIT_FILTER and LIT_FILTER_OUT, and running is the default command.",
  "configurations", "all combinations of subcommand, inputs, include and exclude filters, their source (option or environment) and their position within the bounds",
  "Each command parses and applies the selection on its own path; tests cover one path.",
  ["litcheck/src/commands/lit.rs", L+"suite/mod.rs", L+"config/mod.rs"],
  "each subcommand loads the suites through the registry and applies the test filters")

p("L13", "lit: the report of a test shows which commands ran and what they printed",
  "What is reported of a test that ran is what happened: its exit status (or the signal or the time limit that ended it), its standard output verbatim, and its standard error with each command that was run, in order, the first failing one last, each announced with the line of the test file where it starts and, in the shell's own trace, its text; commands that were not run are not shown. In a run, each selected test is reported once with its status and name, followed by these details exactly when its output is asked for (for failures with --verbose, for all tests with --all, and with --quiet only failures are reported), never mixed with those of another test, whatever the sizes and bytes of the outputs, the number of workers, the shell, timeouts and retries, where the last attempt is reported.",
  "programs", "all command sequences up to a bound, with text and definitions between, in two shells, executed by the real format; suites of every way for a test to end crossed with output shapes and options, on the real binary",
  "What is shown depends on which commands ran, what they print, where lines are joined and which options are given; tests look at single scripts.",
  [L+"formats/sh/mod.rs", L+"formats/sh/engine.rs", L+"formats/sh/script/mod.rs", L+"formats/executable.rs", L+"test/result.rs", "litcheck/src/commands/lit.rs"],
  "scripts are composed with a line announcement for each command, output is captured by pipes, and results are formatted by the result's display")
p("L14", "lit: errors in a test are shown where they are",
  "An invalid test (malformed conditions, regular expressions, definitions, retry counts, line references, unfinished commands, definitions that clash) is unresolved and reports one error for each invalid directive, in the order of the file, each located at the line and column of the offending text in the test file itself: in lists of conditions, in continued lines, after text in front of the keyword, with any line endings.",
  "inputs", "all test files of up to a bounded number of wrong and right directives, with the place of each error known by construction",
  "Places are sums of offsets in lists, lines and continued lines; an error in them shows only when the wrong part is not the first.",
  [L+"formats/sh/script/parser.rs", L+"formats/sh/script/directives.rs", L+"config/expr/boolean.rs", L+"formats/sh/mod.rs"],
  "the script parser keeps spans into the file for each directive and error, and reports are rendered with the source")

p("L15", "lit: invalid configurations are rejected, and shown where they are wrong",
  "A configuration file of a suite (lit.suite.toml) or directory (lit.local.toml) with invalid syntax, a value of the wrong type, an invalid glob pattern, condition or format, an empty suite name, or a source or working directory that does not exist or is not a directory, is an error: nothing is run or accepted, the exit status is not zero, and the message shows the file and the line and column of the offending setting, wherever it is in the file, in whichever directory on the way to the tests, and for every command. A configuration with only valid settings, in any order and spelling of tables, is accepted and its tests run.",
  "inputs", "all configuration files of up to a bounded number of right and wrong settings and tables, of suites and of nested directories, given to the real binary, with the place of each error known by construction",
  "Places come from the parser of each part of the configuration, and depend on the position, the nesting and the kind of error.",
  [L+"suite/mod.rs", L+"suite/error.rs", L+"test/config.rs", L+"formats/files.rs", L+"suite/registry/default.rs", "core/src/fs/glob.rs"],
  "suites and local configurations are deserialized with spans, validated, and errors are reported with the source")
p("L16", "lit: what is shown about suites and tests is what running them uses",
  "show-suites shows each suite of the given inputs once, with its name, the number of its tests, its source root and the directory its tests run in as absolute paths (a temporary directory of its own where none is configured, which is gone afterwards), its test format, its features (those configured and the default ones), its substitutions (configured ones in place of default ones for the same pattern) and its environment variables; show-tests shows each test once with its suite, its path and the format that applies in its directory. When the same suites are run, the tests run in the directory shown, see the variables shown with these values, satisfy exactly the conditions on the features shown, and have the substitutions shown applied.",
  "configurations", "all choices of up to a bounded number of settings of one suite and its directories, and all pairs of suites that deviate in a setting; listed and run by the real binary",
  "The listing and the run read the configuration at different levels and times; tests look at neither.",
  ["litcheck/src/commands/lit.rs", L+"suite/mod.rs", L+"test/config.rs", L+"config/substitutions.rs", L+"config/features.rs", L+"formats/files.rs"],
  "suites are loaded with their defaults merged in, and printed from the same structures which tests inherit")

C = "core/src/"
p("C01", "Path prefix tree agrees with a plain map of paths",
  "After any sequence of insertions, lookups of a path return exactly the last value inserted for it, containment is true exactly for inserted paths, the nearest ancestor is the longest inserted strict ancestor directory, and iteration visits every inserted path exactly once in lexicographic order, restricted to a subtree when asked.",
  "histories", "all insertion sequences up to a bounded depth over a closed set of overlapping paths, all queries after each step",
  "Node splitting depends on insertion order; tests use a few orders.",
  [C+"fs/path_tree.rs"],
  "a compressed prefix tree splits nodes at diverging path components")
p("C02", "Source positions and line/column coordinates are mutually inverse",
  "For every source text and every character position, converting the position to a line and column and back yields the same position; lines partition the text at newline characters exactly, line slices concatenate to the original, and out-of-range coordinates yield nothing rather than a wrong position or a crash.",
  "inputs", "all texts up to a bounded length over letters, newline, carriage return and multi-byte characters; all positions, lines and columns",
  "Boundary positions (end of file, empty last line, multi-byte) are rarely all tested.",
  [C+"diagnostics/source_file.rs", C+"diagnostics/location.rs"],
  "a table of line start offsets is searched for conversions")
p("C03", "Incremental source edits equal rebuilding from the edited text",
  "Applying an edit to a range of a source file gives exactly the text and the line table that loading the edited text from scratch would give, after any sequence of edits.",
  "histories", "all sequences of up to 3 edits (any range, a small set of replacement texts) over all small texts",
  "Line-table patching depends on the edit's position relative to line breaks.",
  [C+"diagnostics/source_file.rs", C+"diagnostics/selection.rs"],
  "the line start table is spliced around the edited range")
p("C04", "Source manager: identities are stable and never aliased",
  "Loading the same name with the same content returns the same file, different content or name returns a different identity, and every identity handed out keeps resolving to the content it was created with; lookups by name, identity or span return the matching file and never another. This holds under concurrent loads too.",
  "histories", "all sequences of load, lookup and update operations up to a bounded depth over 2 names x 2 contents, and all interleavings of two threads' loads",
  "Aliasing depends on the history of loads and on thread interleaving.",
  [C+"diagnostics/source_manager.rs"],
  "an indexed store behind a reader-writer lock deduplicates by name and content")
p("C05", "Symbol interning is injective and stable under concurrency",
  "Interning equal strings yields equal symbols and different strings different symbols, each symbol reads back as the string it was created from, predefined keywords keep their fixed symbols, and concurrent interning from several threads preserves all of this.",
  "schedules", "all operation sequences up to a bounded depth and all interleavings of 2-3 threads interning colliding strings, at lock-operation granularity",
  "Duplicate or lost entries need two threads to interleave between lookup and insertion.",
  [C+"symbol/mod.rs", "core/build.rs"],
  "a global interner guarded by a reader-writer lock with a read-then-write fast path")
p("C06", "Range and newline arithmetic agree with their definitions",
  "Range operations (containment, emptiness, popping from either end, shrinking, truncation, resolution of bounds) and newline searches (next and previous line ends and their kind) agree with their definition for every range, buffer and offset.",
  "inputs", "all ranges over 0..6 and all byte buffers up to a bounded length over letters, LF and CR, with every offset",
  "Off-by-one errors sit at boundaries that tests may not visit.",
  [C+"range.rs", C+"text/mod.rs"],
  "small arithmetic helpers used by cursors and source files")
p("C07", "Input loading: newline normalisation preserves all other text",
  "Text read from a file, standard input or memory is exactly the original text, except that in non-strict mode carriage-return line endings become plain newlines and the terminator of the final line is not part of the text; directories and missing files are errors, and file globbing returns exactly the files matching its patterns.",
  "inputs", "all byte texts up to a bounded length over letters, LF, CR and multi-byte characters, in strict and non-strict mode",
  "Mixed line endings at buffer boundaries need particular texts.",
  [C+"input.rs", C+"fs/mod.rs"],
  "inputs are slurped and rewritten line by line")
p("N01", "The not command inverts exit statuses exactly",
  "The not command succeeds exactly when the wrapped command fails by exit status, or, in crash mode, exactly when it dies by a signal; a wrapped command that succeeds, crashes in normal mode or cannot be started is reported as a failure, and its standard streams and arguments pass through unchanged.",
  "configurations", "all exit statuses 0..255, all terminating signals, missing and non-executable commands, with and without crash mode",
  "The mapping covers a whole table of statuses; tests sample two entries.",
  ["litcheck/src/commands/not.rs"],
  "the wrapped process status is inspected and remapped to the exit code")

p("M01", "The executable acts as the tool it is called as",
  "Called as litcheck with a tool's name, or through a link or argument zero that is a documented name of a tool, the executable does what that tool does with the same arguments, input and exit status; any other name or subcommand is an error. Tracing requested through LITCHECK_TRACE and LITCHECK_TRACE_TIMING changes neither status nor standard output, and invalid trace settings never turn a failure into success.",
  "configurations", "all combinations of tool scenario, name (documented or not), way of being called (link, hard link, chain of links, directory named like another tool, argument zero) and trace settings, as real processes",
  "Dispatch happens before the code that tests call; each name and form is its own path.",
  ["litcheck/src/main.rs", "litcheck/src/commands/mod.rs"],
  "the first argument selects a subcommand, with clap, after tracing is set up")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
