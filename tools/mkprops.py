#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))


prop("C01", "Expressions evaluate to what the language defines",
     "Every well-typed expression of the build language (integer, boolean, string, list and dictionary operators and methods, comparison, membership, indexing, the ternary, precedence and short-circuit evaluation) evaluates to the value Meson's reference manual gives it. An operation the language does not define (operands of the wrong type, an index out of range, a missing dictionary key, division by zero) is an error, never a value and never a crash.",
     ["programs", "inputs"], "all expressions over integers, booleans, strings, lists and dictionaries, of any nesting",
     "tests/lang holds a few dozen fixed expressions; precedence, index bounds, key order and operand-type combinations are an open product.",
     ["src/lang/parser.c", "src/lang/interpreter.c", "src/lang/object.c", "src/functions/array.c", "src/functions/dict.c", "src/functions/number.c", "src/functions/boolean.c", "src/datastructures/hash.c", "src/coerce.c"],
     [("tree-walking evaluation", "src/lang/interpreter.c:interp_node"), ("precedence climbing", "src/lang/parser.c"), ("list and dictionary storage", "src/lang/object.c")],
     ["muon internal eval FILE: messages and exit status"])
prop("C02", "Statements run as written and values are immutable",
     "A program's variables go through exactly the states the language defines for assignment, +=, if/elif/else, nested foreach over lists, dictionaries and ranges with break and continue, set_variable, get_variable, is_variable and unset_variable. Values are immutable: whatever is done to one variable, the value seen through every other variable, loop or enclosing container stays what it was.",
     ["programs", "histories"], "all programs built of these statements, of any nesting and length",
     "Tests run each statement kind alone; aliasing between variables, containers and loops only shows in particular sequences.",
     ["src/lang/interpreter.c", "src/lang/object.c", "src/lang/parser.c", "src/lang/workspace.c", "src/functions/kernel.c"],
     [("copying of lists and dictionaries", "src/lang/interpreter.c:interp_plusassign"), ("loop control state", "src/lang/interpreter.c:interp_foreach")],
     ["muon internal eval FILE: messages and exit status"])
prop("C03", "String literals, methods and formatting are exact",
     "A string literal (plain, multi-line or f-string, with its escapes) denotes exactly the text the language defines, and each string method (contains, startswith, endswith, format, join, replace, split, strip, substring, to_int, to_lower, to_upper, underscorify, and / and + on strings) returns the result Meson's reference manual defines for every input. Text comes out byte for byte as it went in.",
     ["inputs"], "all strings, including empty ones, non-ASCII text, @-placeholders and out-of-range positions",
     "Tests use a handful of short strings; empty operands, overlapping matches, negative and out-of-range positions and stray placeholders are not sampled.",
     ["src/functions/string.c", "src/lang/lexer.c", "src/lang/string.c", "src/lang/interpreter.c"],
     [("escape decoding", "src/lang/lexer.c"), ("method table", "src/functions/string.c")],
     ["muon internal eval FILE: messages and exit status"])
prop("C04", "Version comparison follows one total order, everywhere it is used",
     "version_compare(), and the version constraints of dependency(), subproject() and find_program(), all decide by Meson's version order: maximal runs of digits or letters compared left to right, numbers by value whatever their size or leading zeros, words byte-wise, a number newer than a word, a version with segments left over newer, separators ignored. Every operator (==, =, none, !=, <, <=, >, >=) reads off that order and a list of constraints holds exactly if each of them does.",
     ["inputs"], "all pairs of ASCII version strings, all operators, all lists of constraints",
     "One test compares about twenty pairs; order laws and the lookups that share the comparison are not exercised.",
     ["src/rpmvercmp.c", "src/functions/string.c", "src/functions/kernel.c", "src/functions/kernel/dependency.c", "src/functions/kernel/subproject.c", "src/external/libpkgconf.c"],
     [("segment-wise comparison", "src/rpmvercmp.c:rpmvercmp"), ("constraint lists", "src/functions/string.c:version_compare")],
     ["string.version_compare()", "found() of dependency/subproject/find_program lookups"])
prop("C05", "The formatter changes layout only, and settles in one pass",
     "For every program that parses and every formatter configuration, muon fmt's output parses and means the same program: the same statements, calls, argument order and literal values, and every comment still there, in order. Formatting its own output with the same configuration changes nothing.",
     ["programs", "configurations"], "all syntactically valid programs with comments and blank lines anywhere they are allowed, all settings of the configuration keys",
     "tests/fmt compares a few fixed files under a few configurations.",
     ["src/lang/fmt.c", "src/lang/parser.c", "src/lang/lexer.c", "src/formats/editorconfig.c", "src/formats/ini.c"],
     [("pretty printer over the comment-preserving parse tree", "src/lang/fmt.c")],
     ["muon fmt output and exit status", "evaluation of the program before and after"])
prop("C06", "No input file makes muon crash or touch memory it does not own",
     "Whatever bytes are in a build file, an options file, a script or a formatter configuration, evaluating, checking, formatting and analyzing it ends in success or a diagnosed error. It never ends in a crash, a failed internal assertion, undefined behaviour or an access to memory muon does not own.",
     ["inputs"], "all byte strings given as build files, option files and configuration files",
     "Tests feed well-formed files and a dozen invalid ones; memory errors in the parser, the evaluator and the builtin functions need unusual shapes.",
     ["src/lang/lexer.c", "src/lang/parser.c", "src/lang/interpreter.c", "src/lang/fmt.c", "src/lang/analyze.c", "src/functions/common.c", "src/error.c"],
     [("input validation in lexer, parser and argument checking", "src/lang/lexer.c, src/lang/parser.c, src/functions/common.c")],
     ["exit status and AddressSanitizer/UBSan reports of muon internal eval, check, fmt, analyze, setup"])
prop("C07", "Path and file-system functions agree with the file system",
     "Joining, splitting, normalizing, making absolute and relativizing paths agree with POSIX path semantics: every result names the file the definition of the function gives, "
     "with no redundant components, and the containment test is true exactly for a directory's own contents. File predicates, hashes, sizes and reads report what is on disk.",
     ["inputs"], "all relative and absolute paths with '.', '..', repeated and trailing separators and dots in names; all small file trees",
     "Tests check some fixed paths; combinations of '.', '..', empty and trailing components are not covered.",
     ["src/platform/path.c", "src/platform/posix/path.c", "src/functions/modules/fs.c", "src/platform/filesystem.c", "src/platform/posix/filesystem.c", "src/sha_256.c", "src/functions/string.c"],
     [("path normalization", "src/platform/path.c"), ("fs module", "src/functions/modules/fs.c")],
     ["results of the / operator, join_paths and fs module functions"])
prop("C08", "configure_file writes exactly the substituted text",
     "For every template, configuration data and format, configure_file's output is the template with each placeholder and each define directive replaced by what the manual defines and every other byte untouched, and a generated header has one definition per key with its value. A template referring to a missing value, or a malformed directive, is reported as the manual says, and later changes to the data do not alter an output already written.",
     ["inputs", "configurations"], "all templates, configuration data and formats (meson, cmake, cmake@; c and nasm output)",
     "Tests hold a few fixed templates; escapes, adjacent placeholders, line endings and unusual values are open-ended.",
     ["src/functions/kernel/configure_file.c", "src/functions/configuration_data.c"],
     [("template scanner", "src/functions/kernel/configure_file.c")],
     ["the files configure_file writes", "exit status of muon setup"])
prop("C09", "Arguments and environment reach every command unchanged",
     "Each argument and environment variable given for a command (custom_target, generator, run_target, test, run_command, compiler and linker arguments, preprocessor defines) reaches the executed process as exactly the same bytes and the same number of arguments, after the documented placeholder substitutions. Nothing in their text is interpreted by a shell or by the build backend on the way.",
     ["inputs"], "all argument vectors and environments without NUL or newline, including white space, quotes, $, %, :, shell operators, empty strings and non-ASCII text",
     "Tests pass ordinary words, one or two with quotes; the product of special characters and channels is not covered.",
     ["src/args.c", "src/platform/posix/path.c", "src/backend/ninja/custom_target.c", "src/backend/ninja/build_target.c", "src/backend/ninja/rules.c", "src/backend/ninja/alias_target.c", "src/platform/posix/run_cmd.c", "src/cmd_test.c", "src/functions/generator.c", "src/functions/environment.c"],
     [("quoting for the build file and the shell", "src/args.c"), ("exec of an argument vector", "src/platform/posix/run_cmd.c")],
     ["argv and environ as recorded by the executed program"])
prop("C10", "Custom targets and generators run the command that was declared",
     "For every custom target and generator, the build runs the declared command with every input, output, directory, depfile and basename placeholder replaced as the manual defines, once, after everything it depends on and only when needed, and afterwards every declared output exists with what the command wrote, at the declared place.",
     ["configurations"], "all combinations of inputs, outputs, placeholders, capture, feed, depends, depend_files, depfile, indexing and consumption by other targets",
     "Tests cover single features in isolation.",
     ["src/functions/kernel/custom_target.c", "src/functions/generator.c", "src/backend/ninja/custom_target.c", "src/functions/custom_target.c"],
     [("command template substitution", "src/functions/kernel/custom_target.c")],
     ["argv recorded by the commands", "files in the build directory", "what a second build re-runs"])
prop("C11", "Option values follow precedence, validation and persistence rules",
     "Each option's value is the one the documented precedence gives: command line over parent-project settings over a project's own default options over the declaration's default, per project, with yielding options taking the parent's value. A value that is not valid for the option's type, choices or range is refused; regenerating a build directory keeps every value it was set up with.",
     ["configurations", "histories"], "all sets of option declarations, all ways of setting them, all sequences of setup runs",
     "Tests set a few options one way each.",
     ["src/options.c", "src/functions/kernel/options.c", "src/functions/feature_opt.c", "src/opts.c", "src/functions/kernel/subproject.c", "src/machine_file.c"],
     [("option tables and override queue", "src/options.c")],
     ["get_option() values printed by the project", "exit status of muon setup"])
prop("C12", "A test run's verdict follows from each test's own result",
     "muon test runs every selected test once and reports it as passed, failed, expected-fail, unexpected-pass, skipped or error exactly as its exit status (0, 77, 99, other, signal), its should_fail setting and, under the TAP protocol, its output and exit status imply. The run's own exit status is success exactly if no selected test failed, whatever the number of parallel jobs, the order or the output mode.",
     ["configurations", "schedules"], "all sets of tests with any outcomes, protocols and priorities, all numbers of jobs",
     "Tests run muon test on projects whose tests all pass.",
     ["src/cmd_test.c", "src/formats/tap.c", "src/functions/kernel.c", "src/platform/posix/run_cmd.c"],
     [("result classification", "src/cmd_test.c:calculate_test_duration / test_failed / collect"), ("TAP parser", "src/formats/tap.c")],
     ["exit status of muon test", "its per-test report", "side-effect records of the tests that ran"])
prop("C13", "Test selection picks exactly the tests asked for",
     "The tests that run are exactly those whose name pattern, project, suite, setup exclusions and kind (test or benchmark) match the command line, with the environment, wrapper and arguments their setup adds; --list names exactly those tests. Tests declared not parallel never overlap another test, and higher priorities start earlier.",
     ["configurations", "schedules"], "all projects with tests in suites and subprojects, all selections",
     "No test uses more than one suite or name filter.",
     ["src/cmd_test.c", "src/functions/kernel.c"],
     [("suite and name filters", "src/cmd_test.c")],
     ["which tests left a record of running, in which environment, in which order"])
prop("C14", "Installation produces exactly the declared tree, under DESTDIR",
     "muon install creates exactly the files, directories and symbolic links the project declares, at the declared places, with the declared contents, names and permissions, all below DESTDIR if it is set, and nothing else anywhere. A dry run changes nothing, installing twice gives the same tree, and a file that could not be installed or an install script that failed makes the command fail.",
     ["configurations", "fault_sequences"], "all sets of installed data, headers, man pages, subdirectories with exclusions, renames, modes, symlinks, empty directories, targets and scripts",
     "Tests install one fixed tree.",
     ["src/install.c", "src/cmd_install.c", "src/functions/kernel/install.c", "src/platform/filesystem.c", "src/platform/posix/filesystem.c"],
     [("install plan", "src/install.c"), ("copying and permissions", "src/cmd_install.c")],
     ["the tree below DESTDIR", "the rest of the scratch file system", "exit status"])
prop("C15", "The embedded build tool brings every output up to date, and no more",
     "For every acyclic build file and every history of edits, deletions of outputs, interruptions and builds, a successful muon samu leaves each requested output with the content its command produces from the current inputs, has run each command whose inputs, depfile inputs or command line changed or whose outputs are missing, in dependency order, and has run no command that was up to date. A failing command fails the build, and nothing depending on it runs.",
     ["histories", "programs"], "all acyclic build graphs with implicit, order-only, depfile and restat dependencies, response files, pools and phony edges; all edit histories; all job counts",
     "Tests build projects once from scratch.",
     ["src/external/samurai/build.c", "src/external/samurai/graph.c", "src/external/samurai/deps.c", "src/external/samurai/log.c", "src/external/samurai/parse.c", "src/external/samurai/scan.c", "src/external/samurai/env.c"],
     [("dirtiness propagation", "src/external/samurai/build.c"), ("build and deps logs", "src/external/samurai/log.c, deps.c")],
     ["contents of outputs", "which commands ran, in which order", "exit status"])
prop("C16", "Compiled targets contain what was declared and rebuild when they must",
     "For every graph of executables, static, shared and object libraries, generated sources and declared dependencies, each program builds, from scratch or one target at a time, with any number of jobs, and behaves as its declared sources, include directories, defines, link arguments and libraries imply. After any edit to a source, a header or a build definition, the next build gives what a build from scratch gives, and a build with no edit does nothing.",
     ["configurations", "histories", "schedules"], "all acyclic target graphs, all edit histories",
     "Tests build fixed projects once, with whatever order the backend happens to choose.",
     ["src/backend/ninja/build_target.c", "src/backend/common_args.c", "src/backend/ninja/rules.c", "src/backend/ninja/coerce_tgt.c", "src/functions/kernel/build_target.c", "src/functions/kernel/dependency.c", "src/functions/build_target.c", "src/functions/both_libs.c"],
     [("dependency propagation", "src/backend/common_args.c"), ("order-only and implicit edges", "src/backend/ninja/build_target.c")],
     ["output of the built programs", "the commands a second build runs"])
prop("C17", "Configuring is deterministic and regeneration matches a fresh setup",
     "Setting up the same sources with the same options always writes the same build description. After any edit of the build files or re-run of setup, the regenerated build directory describes the same build as one configured from scratch from the edited sources, and a build that follows the edit regenerates first.",
     ["histories", "configurations"], "all projects, all sequences of edits and setup runs",
     "Tests configure each project once.",
     ["src/backend/ninja.c", "src/backend/output.c", "src/options.c", "src/lang/serial.c", "src/main.c", "src/lang/workspace.c"],
     [("regeneration rule and saved command line", "src/backend/ninja.c")],
     ["build.ninja and the saved private state", "the results of building"])
prop("C18", "Subprojects are isolated from each other and from their parent",
     "Variables, project arguments, project options, install paths and directories of one project are never visible in or altered by another, except through the interfaces for it: get_variable on the subproject, dependency and program overrides, global arguments and yielding options. A subproject is evaluated once, and one that fails and was not required is reported as not found and leaves no trace in the build.",
     ["programs"], "all trees of projects and subprojects, required or not, failing or not",
     "Tests have a parent with one well-behaved subproject.",
     ["src/functions/kernel/subproject.c", "src/functions/subproject.c", "src/lang/workspace.c", "src/lang/eval.c", "src/functions/meson.c", "src/functions/kernel/dependency.c", "src/wrap.c"],
     [("per-project scope and state", "src/lang/workspace.c")],
     ["messages printed during setup", "the generated build"])
prop("C19", "The analyzer accepts correct programs and reports definite mistakes",
     "muon analyze reports no error for a program that evaluates without error whatever its options are, and does report an error for a program whose straight-line part uses an undefined variable, an unknown function or method, a number of arguments outside of the function's signature, an argument whose known type does not fit, an unknown keyword, or an operator whose operands' known types do not fit; subprojects are not entered. Its verdict does not change with layout, comments or renaming of variables.",
     ["programs"], "all programs over the core language and builtin functions",
     "Tests run the analyzer on a few fixed projects.",
     ["src/lang/analyze.c", "src/lang/typecheck.c", "src/functions/common.c"],
     [("abstract interpretation over types", "src/lang/analyze.c")],
     ["exit status and diagnostics of muon analyze"])
prop("C20", "Environment objects compose as declared",
     "A process started with an environment object sees exactly the variables that result from applying its set, append and prepend operations in order, with their separators, to the initial values and the inherited environment, and no others changed. This holds whichever way the object was built (dictionary, list of strings, environment()), and an object is unaffected by changes made to another.",
     ["histories", "inputs"], "all sequences of operations, separators and values, for every consumer of an environment",
     "Tests set one or two variables.",
     ["src/functions/environment.c", "src/functions/common.c", "src/platform/run_cmd.c", "src/platform/posix/run_cmd.c", "src/cmd_test.c"],
     [("deferred operation list", "src/functions/environment.c")],
     ["environ as recorded by the started program"])
prop("C21", "Script functions are lexically scoped, typed closures",
     "In script modules, a call binds positional and keyword arguments, defaults included, to the parameters as declared, runs in its own scope with the captured one behind it, and returns the value of the return statement reached, whatever loops and branches enclose it. Arguments and results that do not match the declared types, missing and unknown arguments are errors.",
     ["programs"], "all sets of functions, nested definitions, captures, signatures and call sites",
     "A few scripts in the tests call functions with matching arguments.",
     ["src/lang/interpreter.c", "src/lang/parser.c", "src/functions/common.c", "src/lang/typecheck.c"],
     [("scope stack captured by functions", "src/lang/interpreter.c")],
     ["muon internal eval -s FILE: messages and exit status"])
prop("C22", "Saved objects load back equal",
     "Loading what was dumped gives an equal value, for every value that can be dumped, in the same process or another one. A damaged or truncated file is refused.",
     ["inputs"], "all values built from the serializable types, of any size and nesting",
     "One test round-trips a small value.",
     ["src/lang/serial.c", "src/lang/object.c"],
     [("object serialization", "src/lang/serial.c")],
     ["serial_dump and serial_load in scripts"])
prop("C23", "Source sets select exactly the sources whose rules match",
     "Applying a source set to a configuration yields exactly the sources and dependencies of the rules whose conditions all hold, the if_false sources of those that do not, and those of nested sets under the same conditions; all_sources and all_dependencies list everything reachable. The answer depends only on the rules and the configuration.",
     ["configurations"], "all source sets with nested sets, key and dependency conditions, and all configurations",
     "Tests apply two or three fixed sets.",
     ["src/functions/source_set.c", "src/functions/source_configuration.c"],
     [("rule evaluation", "src/functions/source_set.c")],
     ["sources() and dependencies() of the result"])
prop("C24", "Generated pkg-config files describe what was installed",
     "A .pc file written by the pkgconfig module gives a consumer, through any pkg-config implementation, the name, version, variables, requirements, compiler flags and libraries that were declared, each flag once and in an order that links; private parts only for static linking.",
     ["configurations"], "all libraries, dependencies, requirements, variables and flags",
     "One test compares one fixed .pc file.",
     ["src/functions/modules/pkgconfig.c", "src/external/libpkgconf.c"],
     [("module's file writer", "src/functions/modules/pkgconfig.c")],
     ["the .pc file as read by pkg-config and by dependency()"])
prop("C25", "Data files are read by their documented grammar",
     "Key-value files, formatter configuration files and wrap files yield exactly the keys and values their grammar defines, with comments, blank lines, white space and line endings handled as documented and the last line with or without its newline. In wrap and formatter configuration files malformed lines and unknown keys are reported with their position and never silently dropped.",
     ["inputs"], "all texts of these grammars, and single-character damage to them",
     "Tests read two or three well-formed files.",
     ["src/formats/ini.c", "src/formats/lines.c", "src/functions/modules/keyval.c", "src/lang/fmt.c", "src/wrap.c"],
     [("line-based parsers", "src/formats/ini.c")],
     ["values seen by the project", "diagnostics"])
prop("C26", "A disabler disables everything that depends on it",
     "Any function call or method call with a disabler among its arguments, at any depth, does nothing and gives a disabler; conditions on a disabler take no branch; is_disabler tells disablers from all other values. Statements that do not involve a disabler are unaffected.",
     ["programs"], "all programs in which disablers flow through variables, containers, calls and conditions",
     "Tests pass one disabler to a few functions.",
     ["src/lang/interpreter.c", "src/functions/common.c", "src/functions/disabler.c"],
     [("disabler check in the call path", "src/functions/common.c")],
     ["messages printed, targets generated"])
prop("C27", "Wrapped sources are used only if their content is what the wrap says",
     "A subproject described by a wrap file is unpacked and patched exactly as its archive and patch say, only if the archive's hash is the recorded one, and into its own directory only. Repeating the operation changes nothing, and a failed one is reported and leaves nothing that a later run mistakes for the subproject.",
     ["inputs", "fault_sequences"], "all archives, hashes, patch directories and wrap files, damaged or not",
     "Tests that need archives use one fixed archive.",
     ["src/wrap.c", "src/sha_256.c", "src/external/libarchive.c"],
     [("hash check before extraction", "src/wrap.c")],
     ["the subproject directory", "exit status"])
prop("C28", "run_command reports exactly what the command did",
     "run_command returns the command's exit status, standard output and standard error completely and separately, whatever their size and interleaving, and passes on the declared arguments and environment. A failing command is an error exactly when check is true.",
     ["inputs", "schedules"], "all commands, output sizes and interleavings of the two streams",
     "Tests run commands printing a few words.",
     ["src/functions/kernel.c", "src/platform/posix/run_cmd.c", "src/platform/run_cmd.c", "src/functions/run_result.c"],
     [("pipe draining", "src/platform/posix/run_cmd.c")],
     ["returncode(), stdout(), stderr() of the result"])
prop("C29", "A diagnostic points at the place that is wrong",
     "When a program is refused, the first error names the file and the line on which the offending construct stands, for syntax errors and run-time errors alike, whatever comments, blank lines, continuation lines and included directories precede it; and nothing after the offending statement takes effect. The source line shown with a diagnostic is that line, with the mark below the column named. The analyzer names each of several mistakes once, in the order in which they stand.",
     ["programs"], "all valid programs with one mistake inserted at any place",
     "Tests compare a few diagnostics.",
     ["src/error.c", "src/lang/lexer.c", "src/lang/parser.c", "src/lang/interpreter.c", "src/lang/eval.c"],
     [("source locations carried by tokens and nodes", "src/lang/lexer.c, src/error.c")],
     ["the file:line prefix of the first error"])

prop("C30", "Compiler and linker command lines carry exactly what was declared",
     "In the build that setup writes, the command compiling each source of each target, and the command linking each target, carry exactly the arguments that apply to it: those derived from the options in effect for that target (language standard, optimization and debug or buildtype, warning level, werror, lto, sanitizers, ndebug, colour, pic/pie; with override_options, default_options, per-subproject values and the command line in their order of precedence), the arguments from the environment, options, add_global_*, add_project_* (of that project and language only), add_project_dependencies, the dependencies it uses directly or transitively (whole, as_system or partial), and its own keywords, in order of increasing specificity; include directories appear in declaration order, in both the source and build tree, with their system-ness, without nonexistent ones; and what one target declares never changes another's command.",
     ["projects", "command-line options", "environment"], "all projects over options, arguments, dependencies, include directories, subprojects and subdirs",
     "Tests build a few projects whose compilation fails if some argument is missing; excess, reordered or leaked arguments go unnoticed.",
     ["src/backend/common_args.c", "src/backend/ninja/build_target.c", "src/compilers.c", "src/functions/kernel/build_target.c", "src/functions/kernel/dependency.c", "src/options.c"],
     [("arguments accumulate from dependency to target and from option to project to target", "src/backend/common_args.c, src/functions/kernel/dependency.c")],
     ["the commands printed by the generated build (samu -n -v)"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
