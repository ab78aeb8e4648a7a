#!/usr/bin/env python3
"""Writes properties.jsonl (kept in one place so that ids, statements and anchors stay in step)."""
import json, os
T="buildcc/lib/target/"; A="buildcc/lib/args/"; E="buildcc/lib/env/"; S="buildcc/schema/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
p("C01","Incremental build equals clean build after any edit history",
 "For every history of edits and builds of a target - source, header, precompiled-header, library, and declared compile/link dependency files touched, added, removed or restored; flags, include/library directories, external libraries, the languages of its sources and its type changed and changed back - every build that reports success leaves the linked artifact identical to what a from-scratch build of the current inputs produces. A file counts as changed whenever its modification time differs from the one last built, in either direction.",
 ["histories","configurations"],"all interleavings of edits (over every tracked input category, pairwise and, thorough, three-wise) and builds, of any length (search to fixpoint)",
 "The unit tests replay one or two fixed rebuild steps per category with mocked command execution; they never compare artifacts with a clean build and never chain edits and reverts.",
 [T+"src/target/friend/compile_object.cpp",T+"src/target/friend/compile_pch.cpp",T+"src/target/friend/link_target.cpp",T+"src/target/tasks.cpp",S+"src/target_serialization.cpp",S+"include/schema/path.h",S+"include/schema/target_schema.h"],
 [("stored record compared with current inputs","Target::Build and the pch/object/link stages"),("record updated after the build","TargetSerialization::UpdateStore")],
 ["artifact files in the build directory","executed commands","process exit code"])
p("C02","A build runs no unnecessary commands",
 "A build repeated with nothing changed since the last successful one runs no command and rewrites no file. After a change, only affected steps run: editing, adding or removing one source recompiles at most that source and relinks; changing only link inputs (link flags, libraries, library directories, link dependencies) relinks without compiling anything; targets that neither changed nor consume something rebuilt run nothing.",
 ["histories","configurations"],"every reachable state of the C01 search, every single change from a fully built state",
 "Tests check a few fixed call counts on mocks; they do not cover all change kinds, multi-target graphs, or no-op builds after every reachable history.",
 [T+"src/target/friend/compile_object.cpp",T+"src/target/friend/link_target.cpp",T+"src/target/friend/compile_pch.cpp",T+"src/custom_generator/custom_generator.cpp",S+"include/schema/path.h"],
 [("per-source comparison","RecompileSources"),("dirty propagation per stage","BuildCompile/BuildObjectCompile/BuildLink")],["executed commands","file contents and times"])
p("C03","Failed builds never poison later builds",
 "For every history in which any subset of a build's commands fails - before, after or in the middle of writing its output - including edits and reverts around the failure, each later build that reports success leaves the artifact identical to a from-scratch build. A step that failed or was skipped is not considered done: it runs again in the next build that needs it.",
 ["histories","fault_sequences","schedules"],"every subset of failing commands per build x output-damage mode x edits and reverts, to fixpoint; plus every schedule within a deviation bound",
 "Tests fail one mocked command once; no test lets partially successful builds, reverts and interleavings combine.",
 [T+"src/target/tasks.cpp",S+"src/target_serialization.cpp",T+"src/custom_generator/custom_generator.cpp",E+"src/task_state.cpp"],
 [("only successful steps recorded","AddSource/UpdatePchCompiled/UpdateTargetCompiled and UpdateStore")],["artifacts","exit code","executed commands"])
p("C04","A crash at any instant never poisons later builds",
 "If the build process is killed at any instant - between or inside file writes, before, during or after any command - then after any further edits or reverts the next build that reports success leaves artifacts identical to a from-scratch build. A partially written build record is never taken for a complete one.",
 ["crash_points","histories"],"every file-mutation point and command boundary, every byte-prefix of the record being written, x edits and reverts before the next build",
 "No test kills the process; the harness would have to stop it at every point.",
 [S+"include/schema/interface/serialization_interface.h",S+"src/target_serialization.cpp",S+"src/custom_generator_serialization.cpp",T+"src/target/tasks.cpp",T+"src/custom_generator/custom_generator.cpp",E+"include/env/util.h"],
 [("record stored after the work, dropped before it","StoreToFile and the stages"),("unparseable record means full rebuild","LoadFromFile")],["artifacts after recovery","exit code"])
p("C05","Declared dependencies order all work; each registered builder runs once",
 "For every acyclic dependency graph between registered targets and generators and every parallel schedule, no command or callback of a builder starts before all commands and callbacks of everything it (transitively) depends on have finished, including recording their result, which happens after the builder's own steps. Within a target, precompiled header, objects and link run in that order, and in a first build every step of every registered builder runs exactly once.",
 ["schedules","configurations"],"all labelled DAGs up to 3 (thorough 4) builders x all schedules within a deviation bound",
 "Tests run a handful of graphs on whatever schedule the machine produces, with a mocked task runner.",
 [A+"src/register.cpp",A+"src/tasks.cpp",A+"include/args/register.h",T+"src/target/tasks.cpp",T+"src/custom_generator/custom_generator.cpp"],
 [("task graph edges","Reg::Instance::Dep, Target::TaskDeps")],["command begin/end order","callbacks"])
p("C06","Any failing step fails the run and stops everything downstream",
 "Whenever any compile, link, precompiled-header, generator step or record write of a run fails - a command that fails, a generator callback or payload handler that fails or throws, a missing input file - under every schedule, in a first build or on top of an earlier one, the process terminates with a non-zero status, the post-build callback and the registered tests do not run, and no step that depends on the failed one starts (the commands of one file generator run in order, so none after a failed one starts). When no step fails the run succeeds.",
 ["schedules","fault_sequences"],"every subset of failing steps over small graphs x all schedules within a deviation bound",
 "Tests mock command execution, the task runner and the fatal handler, so the real exit path and concurrent failures are never exercised.",
 [A+"src/tasks.cpp",A+"src/register.cpp",E+"src/task_state.cpp",E+"src/assert_fatal.cpp",E+"src/execute.cpp",T+"src/target/tasks.cpp"],
 [("global task state checked at stage start","env::get_task_state"),("fatal assertion: exit on main thread, throw on workers","assert_handle_fatal")],["exit code","executed commands"])
p("C07","Parallel builds are race-free and independent of the schedule",
 "Under every schedule of the parallel steps of a build, no two threads access the same data without synchronisation, nothing deadlocks, and the exit status is the same; where no step fails the set of commands run, the artifacts and the (absent) work of a following build are the same too, and where a step fails the following successful build reaches the same artifacts.",
 ["schedules"],"all schedules within a deviation bound of builds with parallel sources, targets, generators, failing and passing",
 "A test run samples one schedule; unsynchronised accesses do not fail tests.",
 [E+"src/task_state.cpp",S+"src/target_serialization.cpp",T+"src/target/tasks.cpp",T+"src/custom_generator/custom_generator.cpp",A+"src/tasks.cpp"],
 [("mutex around record updates and task state","add_source_mutex, current_state_mutex")],["memory accesses","artifacts","commands"])
p("C08","Generators rerun exactly when their inputs, outputs or payload change",
 "For every history of edits, additions and removals of a generator's tasks, their input files, output lists, commands, templates, template values and user payloads, and of failing runs, a run that reports success leaves every output as a from-scratch run would, and each generator task is invoked when it is new, failed in its last run, or one of its input files, input/output lists or payload changed since its last success, and otherwise is not invoked unless an earlier run failed before reaching it. Its callback sees exactly the declared inputs, outputs and payload.",
 ["histories","fault_sequences"],"all edit/run histories over small generators (custom, file, template) to fixpoint, every subset of failing tasks",
 "Tests cover a few two-step histories.",
 [T+"src/custom_generator/custom_generator.cpp",T+"src/generator/file_generator.cpp",T+"src/generator/template_generator.cpp",T+"include/target/custom_generator/custom_blob_handler.h",S+"src/custom_generator_serialization.cpp"],
 [("id comparison and per-id change detection","Comparator, TaskFunctor")],["callback invocations","output files","exit code"])
p("C09","An edit made while a build is running is never lost",
 "If an input file changes at any moment while a build is in progress, then after at most one further successful build with no more edits the artifacts and generated outputs equal those of a from-scratch build of the final inputs.",
 ["schedules","histories"],"every injection point of an edit to every tracked file in builds with and without precompiled headers and generators",
 "Tests never change files while a build runs.",
 [T+"src/target/friend/compile_object.cpp",T+"src/target/friend/compile_pch.cpp",T+"src/target/friend/link_target.cpp",T+"src/custom_generator/custom_generator.cpp",T+"include/target/custom_generator.h"],
 [("file state recorded before it is consumed","ComputeHashForAll in the Pre* steps, ConvertToInternal")],["artifacts after the second build"])
p("C10","Build records round-trip exactly, damaged ones are rejected",
 "What is stored for a target or generator is loaded back equal, for all field contents including empty lists, spaces, quotes, control characters and valid non-ASCII (UTF-8) text; text a record cannot hold is refused, never stored as something else. Every truncated, missing, empty or structurally wrong record is reported as not loaded, leads to a full rebuild rather than a crash or a skipped step, and is replaced by a good one.",
 ["inputs","crash_points"],"all field assignments over a small value alphabet; every byte prefix and every single-key deletion, retype or corruption of valid records",
 "Tests load a few hand-written files.",
 [S+"include/schema/interface/serialization_interface.h",S+"include/schema/target_schema.h",S+"include/schema/custom_generator_schema.h",S+"include/schema/path.h",S+"src/target_serialization.cpp",S+"src/custom_generator_serialization.cpp"],
 [("JSON (de)serialisation with all keys required","to_json/from_json, Load")],["load result","commands run by the next build"])
p("C11","Dependency registration accepts exactly the acyclic graphs",
 "Every sequence of build and dependency registrations is accepted if and only if both builders were registered before, the dependency was not declared before, and it closes no cycle, including a builder depending on itself, whatever the builders are called; a builder can be registered only once, and a test only once per builder and after it. A rejected declaration is fatal and an accepted graph always runs to completion.",
 ["histories","configurations"],"all sequences of registration operations over 3 (thorough 4) builders up to a depth",
 "Tests try a few two- and three-target cycles.",
 [A+"src/register.cpp",A+"include/args/register.h"],[("duplicate and cycle detection","DepDetectDuplicate, DepDetectCyclicDependency")],["fatal or accepted","run completion"])
p("C12","Every command carries exactly the inputs configured for its step",
 "For every target type, toolchain kind and combination of sources, directories, flags and libraries, the compile command of each source uses the compiler and language flags of its file type plus the common, preprocessor and include settings in the order given, the precompiled-header command likewise, and the link command names every object exactly once, the declared output and, where the command of that target type takes them, every library, library directory and link flag. Paths with spaces are quoted, and nothing configured for another language, step or target appears.",
 ["configurations","inputs"],"all combinations of setting presence over file types, target types and toolchains within small alphabets",
 "Tests compare a few commands; combinations of languages, flags and targets are not covered.",
 [T+"src/target/build.cpp",T+"src/target/friend/compile_object.cpp",T+"src/target/friend/compile_pch.cpp",T+"src/target/friend/link_target.cpp",T+"src/target/target.cpp",T+"include/target/common/util.h","buildcc/targets/include/targets/target_generic.h","buildcc/targets/include/targets/target_gcc.h"],
 [("pattern substitution with per-step arguments","CacheCompileCommands, CacheLinkCommand, ConstructCompileCommand")],["commands handed to the system"])
p("C13","Distinct sources get distinct object files inside the build directory",
 "For every set of source paths inside or outside a target's root, including nested, dotted, spaced and parent-relative ones, different source files map to different object paths, all strictly inside the target's own build directory, and the same file spelled differently maps to the same object. A source added more than once is compiled once. Different targets and toolchains never share an output path.",
 ["inputs"],"all pairs of paths over a small alphabet of components up to depth 3",
 "Tests check a handful of paths.",
 [T+"src/target/friend/compile_object.cpp",S+"include/schema/path.h",T+"include/target/target.h"],[("relative object path construction","ConstructObjectPath"),("path normalisation","PathInfo::ToPathString")],["output paths in commands"])
p("C14","Patterns and templates substitute exactly the defined names",
 "For every pattern and set of defined names, substitution replaces each placeholder by its defined value, keeps all other text (doubled braces become single ones) and never re-expands inserted values; a placeholder without a definition, an unbalanced brace or a null argument name is fatal instead of producing output. Values defined once, empty ones included, stay in effect for later uses (defining a name again does not replace its value), per-call values affect that call only, and template output files contain exactly the substituted input.",
 ["inputs"],"all patterns up to a length over a small token alphabet x definitions",
 "Tests use a few fixed patterns.",
 [E+"src/command.cpp",T+"src/custom_generator/custom_generator.cpp",T+"src/generator/template_generator.cpp"],[("named-argument formatting","Command::Construct")],["returned strings","generated files"])
p("C15","Copy and insert between targets transfer exactly the selected settings",
 "For every subset of selectable settings, copying replaces exactly those settings of the destination with the source's and inserting appends them in order, leaving every other setting of the destination alone. The source is unchanged when passed by constant reference, and by-move and by-reference transfers give the destination the same result.",
 ["inputs","configurations"],"all 17 settings x copy/insert x reference/move x empty/non-empty contents, all pairs (thorough: all subsets)",
 "Tests check one all-options case.",
 [T+"src/api/sync_api.cpp",T+"include/target/api/sync_api.h"],[("per-option transfer","SpecializedCopy, SpecializedInsert")],["getters of both targets"])
p("C16","Stored objects live exactly as long as their storage",
 "For every sequence of add, lookup, type query and clear operations, each object added is found under its own identifier and type only until the storage is cleared or destroyed, its address never changes meanwhile, and it is destroyed exactly once. Looking up a missing identifier or with the wrong type, or adding an identifier twice, is fatal and loses no object; an object whose constructor throws is not added.",
 ["histories"],"all operation sequences up to a depth over 2-3 identifiers and 2-3 types",
 "Tests run a few fixed sequences.",
 [E+"include/env/storage.h",E+"src/storage.cpp"],[("type-erased map with destructors","ScopedStorage")],["constructor/destructor counts","returned references"])
p("C17","Toolchain search finds exactly the directories holding every tool",
 "For every directory content and search configuration, the search returns, in search order (explicit paths first, then each environment variable's), exactly those existing directories that contain every configured executable as a regular file (or a link to one) of exactly that name; missing or unreadable directories are skipped, an unset environment variable is fatal. Verification picks the first hit, rewrites the tool paths to that directory and reports the compiler's version and target (what the compiler prints, without surrounding white space, however its output is chunked), and is fatal, leaving the tool paths alone, when nothing is found or the compiler query fails. The file-search plugin returns exactly the entries of the named kind whose whole name matches, in the order of the searched directories.",
 ["inputs","fault_sequences","configurations"],"all assignments of file kinds (absent, file, directory, symlink, similar name) to tools over up to 2 directories x query failures",
 "Tests use two fixed directories.",
 ["buildcc/lib/toolchain/src/api/toolchain_find.cpp","buildcc/lib/toolchain/src/api/toolchain_verify.cpp","buildcc/toolchains/src/toolchain_infos.cpp","buildcc/toolchains/src/toolchain_aggregate.cpp"],
 [("directory scan","ContainsToolchainExecutables"),("verification","ToolchainVerify::Verify")],["returned paths","tool paths"])
p("C18","Registered tests run once after a successful build and decide the result",
 "Every test registered for a selected, test-enabled toolchain runs exactly once, after the whole build and the post-build callback finished, with its own command, arguments, working directory and output redirection; no other test runs. If any test fails or cannot be started the process ends with a non-zero status instead of hanging or succeeding, and otherwise with zero.",
 ["schedules","fault_sequences","configurations"],"all subsets of failing tests x output modes x selection flags x schedules within a bound",
 "The real test runner is replaced by a mock in the unit tests.",
 [A+"src/tasks.cpp",A+"src/register.cpp",A+"include/args/register/test_info.h",E+"src/execute.cpp"],[("test task per registration","RunTest, TestInfo::TestRunner")],["executed commands","exit code","redirected output"])
p("C19","The compilation database is valid JSON listing every source once",
 "For all target sets, source names and flags, including quotes, backslashes and spaces, the generated compilation database (any valid UTF-8 text), parses as JSON and has exactly one entry per source of each added target, whose file, command and directory decode to the real source path, the command the build runs and the build directory. It is rewritten by every run that built one of the targets and left alone otherwise.",
 ["inputs","histories"],"all combinations of awkward characters in flags and paths over 1-2 targets; build/no-op histories",
 "Tests use one plain target and compare no content.",
 ["buildcc/plugins/src/clang_compile_commands.cpp"],[("JSON text generation","ClangCompileCommands::Generate")],["compile_commands.json"])
p("C20","Command line settings reach exactly what they name and defaults fill the rest",
 "For every combination of given and omitted options, each toolchain or target option takes its given value and otherwise the default it was registered with, options of one toolchain or target never affect another, and unknown, malformed or missing mandatory options end the process non-zero before anything is built. Only toolchains whose build flag is set have their targets built, and only those with both build and test flags set have their tests run.",
 ["inputs","configurations"],"all subsets of options over 2 toolchains and 2 targets, given by command line or config file",
 "Tests check a few fixed config files.",
 [A+"src/args.cpp",A+"src/parse.cpp",A+"include/args/args.h",A+"src/register.cpp",A+"include/args/register.h"],[("option registration","Args::Instance::AddToolchain/AddTarget, Reg::ToolchainInstance")],["parsed values","executed commands"])
p("C21","Saving and loading files report success only for complete data",
 "For every content and every pattern of short or failing reads and writes, saving a file reports success only if the file then holds exactly the given bytes, and loading reports success only if it returns exactly the file's bytes. Text helpers split at every delimiter (a trailing delimiter adds no empty part) and trim exactly the surrounding white space.",
 ["fault_sequences","inputs"],"every single and double fault position over the system calls made, all small contents",
 "Tests have no I/O faults except unopenable paths.",
 [E+"include/env/util.h"],[("stream state checks","save_file, load_file")],["return value","file content"])
p("C22","The command line builder builds, runs and cleans exactly what it was told",
 "For every combination of target inputs given to the stand-alone build tool, the target it builds has exactly those inputs, script mode additionally runs the built script once with the given configuration files after the build and ends non-zero if building or running fails, and immediate mode runs nothing. Script mode links the script with the library compiled from all sources of BUILDCC_HOME, builds every change of its sources and headers, and builds nothing unless the toolchain proved able to build and run a program first. A repeated run with nothing changed compiles and links nothing of the target or the library again. Cleaning removes only the project's build directory and happens before anything is built.",
 ["configurations","fault_sequences"],"all combinations of modes, clean flag, target types and input presence, failing each command; run histories; each library file changed",
 "The tool is compiled but has no tests.",
 ["buildexe/buildexe.cpp","buildexe/src/build_env_setup.cpp","buildexe/src/args_setup.cpp","buildexe/src/build_env_home.cpp","buildexe/src/toolchain_setup.cpp"],[("argument to target mapping","BuildEnvSetup")],["executed commands","exit code","files"])
p("C23","A target holds exactly the inputs registered with it",
 "For every sequence of add and glob registrations (sources, headers, precompiled headers, include and library directories, libraries, dependencies and flags; relative to the target's root, below a sub folder or absolute), a target or target information holds exactly its toolchain's flags at its creation followed by the registered inputs, with relative paths resolved against the target's root. Globbing adds exactly the directory's own regular files with a valid extension, registering a file of another kind is fatal, and no registration changes another target or the toolchain. The kind of a file follows from the toolchain's extension sets only, and a built target reports the kinds it contains.",
 ["histories","inputs"],"all registration sequences up to depth 2-3 over every registration call x target roots x toolchain flags; all extensions x stems",
 "Tests call each registration once on one layout.",
 ["buildcc/lib/target/include/target/api/source_api.h","buildcc/lib/target/include/target/api/include_api.h","buildcc/lib/target/include/target/api/pch_api.h","buildcc/lib/target/include/target/api/lib_api.h","buildcc/lib/target/include/target/api/deps_api.h","buildcc/lib/target/include/target/api/flag_api.h","buildcc/lib/target/include/target/target_info.h","buildcc/lib/target/include/target/common/target_env.h","buildcc/lib/target/src/common/target_state.cpp","buildcc/lib/toolchain/src/common/toolchain_config.cpp"],
 [("registration of inputs","SourceApi, IncludeApi, PchApi, LibApi, DepsApi, FlagApi"),("file kinds","ToolchainConfig::GetFileExt")],["target getters","reported state"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
