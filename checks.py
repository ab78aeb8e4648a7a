"""Registry: which harness decides which property, with which bounds."""
HIST = ["h_hist.cpp", "proj.cpp"]
A_REAL = ["the real library code runs; compilers and other commands are deterministic simulations started through an interposed process-start call",
          "file modification times are set by the harness; file system calls of the library are interposed but executed for real in a scratch directory"]
CHECKS = {}
NOT_APPLICABLE = {}


def add(pid, parts, technique, bounds, note, level="model_checking", assumptions=()):
    CHECKS[pid] = dict(parts=parts, level=level, technique=technique, bounds=bounds, note=note,
                       assumptions=A_REAL + list(assumptions))


FIX = "explicit-state exploration of the real code to a fixpoint over "
add("C01", [dict(name="hist", harness=HIST, flavor="plain")], FIX + "edit/build histories, oracle: clean build",
    {"quick": "per scenario: histories over every single input dimension and the core pairs, any length (fixpoint)",
     "thorough": "all pairs and selected triples of input dimensions, any length (fixpoint)"},
    "Exhaustive within the listed projects and input alphabets; state = record, build directory and inputs. Trusts the simulated compilers.")
add("C02", [dict(name="hist", harness=HIST, flavor="plain")], FIX + "edit/build histories, oracle: model of necessary commands",
    {"quick": "every transition of the C01 search plus a repeated build from every built state",
     "thorough": "as C01 thorough"},
    "Exhaustive within the listed projects and input alphabets.")
add("C03", [dict(name="hist", harness=HIST, flavor="plain")], FIX + "histories with every subset of failing commands, oracle: clean build",
    {"quick": "failing command subsets x output damage (untouched, garbage, removed) x one or two edited dimensions, fixpoint",
     "thorough": "all pairs of dimensions, up to 3 failing commands per build"},
    "Exhaustive within the listed projects, input alphabets and failure budget.")
add("C04", [dict(name="hist", harness=HIST, flavor="plain")], FIX + "histories with a crash at every point, oracle: clean build",
    {"quick": "a kill before/after every file mutation and command, at every byte of the record write in the minimal projects; repeated crashes; edits around it, fixpoint",
     "thorough": "as quick with pairs of edited dimensions and every byte prefix in all projects"},
    "Process kill, not power loss: completed writes survive. Exhaustive within the listed projects and alphabets.")
add("C08", [dict(name="gen", harness=["h_gen.cpp", "proj.cpp"], flavor="plain")], FIX + "generator edit/run/fail histories, oracle: task model and clean run",
    {"quick": "singles and pairs of generator input dimensions, every subset of failing tasks, any length (fixpoint)",
     "thorough": "as quick with triples"},
    "Exhaustive within three generator kinds and their input alphabets.")
add("C09", [dict(name="edit", harness=["h_edit.cpp", "proj.cpp"], flavor="plain")], "exhaustive injection of edits at every system call and command boundary of real builds, oracle: clean build",
    {"quick": "one edit (newer or older time) of every input file at every point, from empty, built and partly changed states; then one more build",
     "thorough": "two edits per build, all pairs of files, one schedule deviation"},
    "Exhaustive over injection points visible at system-call level on the default schedule.",
    assumptions=["an edit gives the file a modification time it did not have before in that history"])
SCHED = ["h_sched.cpp", "proj.cpp"]
A_SCHED = ["the Taskflow executor's worker loop is replaced by the controlled scheduler; its graph logic (join counters, subflows, modules, algorithms) is the installed code; conformance is checked by runs on the unmodified executor",
           "scheduling points: task starts, lock operations, file system operations, command starts and ends, callbacks"]
FREE = dict(name="free", harness=SCHED, flavor="free")
add("C05", [dict(name="sched", harness=SCHED, flavor="plain"), FREE], "stateless exploration of all schedules within a deviation bound of the real code, all small dependency graphs",
    {"quick": "all labelled DAGs of 2 and 3 builders of mixed kinds (targets with up to 3 sources, generators with up to 3 tasks or commands), 1-2 schedule deviations; single builders 2; rebuilds after each edit",
     "thorough": "deviation bound 2 everywhere, 3 for single builders, 4 builder DAGs"},
    "Exhaustive within the deviation bound over the listed graphs.", assumptions=A_SCHED)
add("C06", [dict(name="sched", harness=SCHED, flavor="plain"), FREE], "stateless exploration of failing steps and failing writes x schedules of the real code",
    {"quick": "every one and two failing steps, one failing write, x one schedule deviation over all DAGs of up to 3 builders",
     "thorough": "two failing steps with schedule deviations everywhere, more builder kinds"},
    "Exhaustive within the failure and deviation bounds over the listed graphs.", assumptions=A_SCHED)
add("C07", [dict(name="race", harness=SCHED, flavor="race"), FREE], "stateless exploration of schedules with a vector-clock race detector on the instrumented real code",
    {"quick": "1-2 schedule deviations over 19 graphs, passing, failing and rebuilding",
     "thorough": "deviation bound 2 on all graphs"},
    "Races are judged by happens-before, so each explored schedule covers all schedules with the same synchronisation order. Code inside shared libraries (fmt, spdlog, libstdc++) is not instrumented.", assumptions=A_SCHED)
add("C18", [dict(name="sched", harness=SCHED, flavor="plain"), FREE], "stateless exploration of failing tests x selections x schedules of the real code",
    {"quick": "every subset of up to 3 tests, of failing tests, output modes, selection flags; one schedule deviation",
     "thorough": "two schedule deviations"},
    "Exhaustive within the bounds over the listed graphs.", assumptions=A_SCHED)
LIB = ["h_lib.cpp", "proj.cpp"]
ENUM = "bounded exhaustive enumeration on the real code, oracle: reference model of "
add("C14", [dict(name="lib", harness=LIB, flavor="plain")], ENUM + "substitution",
    {"quick": "all patterns of up to 3 tokens (4 for two sets) over 14 tokens x 8 definition sets; all sequences of up to 3 definitions of two names; all templates of up to 2 tokens through real generator runs",
     "thorough": "4 tokens of 21 for all sets; 4 definitions; templates of up to 3 tokens"},
    "Exhaustive within the token alphabet and lengths. Positional placeholders, format specifications and one name defined both by default and per call are outside the statement.")
add("C15", [dict(name="lib", harness=LIB, flavor="plain")], ENUM + "the 17 settings",
    {"quick": "no, one, every ordered pair, every triple, all but one and all of the 17 settings x copy/insert x reference/move x 7 contents of the destination x 6 of the source x target/information x once/twice",
     "thorough": "additionally all 2^17 subsets"},
    "Exhaustive within these selections and contents.")
add("C16", [dict(name="lib", harness=LIB, flavor="plain")], ENUM + "a typed map, over all operation sequences",
    {"quick": "all sequences of up to 5 operations over 2 identifiers x 3 types, followed by every fatal lookup", "thorough": "up to 6 operations"},
    "Exhaustive within the depth, for the global and a scoped storage.")
add("C21", [dict(name="lib", harness=LIB, flavor="plain")], "exhaustive injection of I/O faults at every system call of real saves and loads",
    {"quick": "up to 2 faults (failing or short open/read/write/close) x 15 sizes x 3 contents x text/binary; all strings of up to 5 characters for the text helpers",
     "thorough": "up to 3 faults, 27 sizes, strings of up to 6"},
    "Exhaustive over fault positions within the fault bound.")
REG = ["h_reg.cpp", "proj.cpp"]
add("C11", [dict(name="reg", harness=REG, flavor="plain")], "explicit-state search over all registration sequences on the real code, oracle: graph model",
    {"quick": "all sequences over 2 builders (with tests) and 3 builders to their maximal length; 4 builders up to 3 dependencies; all acyclic graphs of 4 and 5 builders up to renaming, in two registration orders, with each dependency they rule out; each accepted sequence is run",
     "thorough": "4 builders to the maximal 6 dependencies, graphs of 6 builders"},
    "Exhaustive within these numbers of builders.")
add("C20", [dict(name="reg", harness=REG, flavor="plain")], ENUM + "option values and flag effects",
    {"quick": "all 512 option subsets of a toolchain x the other one empty/full x command line, config file, both; initial values partly empty (all 255 combinations); target and root options; ids; 27 bad command lines; all flag combinations of two toolchains through real builds",
     "thorough": "all sources for both toolchains"},
    "Exhaustive within one value per option (all values for enumerations).")
add("C10", [dict(name="rec", harness=["h_rec.cpp", "proj.cpp"], flavor="plain")], "bounded exhaustive enumeration of record contents and damages on the real code, each followed by real builds",
    {"quick": "all field values and pairs of values from 31 awkward strings for 18 fields and generator records; 11 strings that are not UTF-8 (refused or exact); every truncation, missing/renamed key, mistyped value and framing damage of 8 real records; every single-byte replacement (5 values) of 2 records",
     "thorough": "158 strings; single-byte replacements of all 8 records"},
    "Exhaustive within the alphabet.")
CMD = ["h_cmd.cpp", "proj.cpp"]
add("C12", [dict(name="cmd", harness=CMD, flavor="plain")], ENUM + "command composition",
    {"quick": "33 target kinds x 6 source sets x spaces or not x (none, each, each pair, all, all but each pair of 14 settings); executed commands of real builds for the single settings",
     "thorough": "all 2^14 subsets of the settings"},
    "Exhaustive within two or three values per setting; order of objects is free, order between different settings is free.")
add("C13", [dict(name="cmd", harness=CMD, flavor="plain")], ENUM + "a one-to-one map from files to objects",
    {"quick": "all ordered pairs of 70 path spellings (inside and outside the root, below the build directory) x 14 spellings of root and build directory; all pairs of 8 names x 4 toolchains x 3 types; real builds of all pairs of 20 spellings",
     "thorough": "all triples; real builds of all pairs of 70"},
    "Exhaustive within the listed spellings; names of targets and toolchains without slashes.")
TOOL = ["h_tool.cpp", "proj.cpp"]
add("C17", [dict(name="tool", harness=TOOL, flavor="plain")], ENUM + "search and verification, over all directory contents",
    {"quick": "13 kinds of directory entry for up to 3 of the 5 tools; all sharings of names; 3 search paths of 11 kinds x explicit/variable placements; 9 toolchain kinds x hits x 64 pairs of query answers; 7 expressions x directory contents for the search plugin",
     "thorough": "all 3 path combinations; 13x13x13x7x4 entry kinds"},
    "Exhaustive within the listed kinds.")
add("C19", [dict(name="tool", harness=TOOL, flavor="plain")], "explicit-state search over build histories and exhaustive enumeration of awkward names and flags on the real code, oracle: a JSON parser and the executed commands",
    {"quick": "20 awkward strings in source, directory, flag, root and build directory and all pairs source/flag and source/source of two targets; build histories of up to 4 runs with 6 changes and 2 failures",
     "thorough": "all pairs of sources and of flags; histories of up to 5 runs"},
    "Exhaustive within the strings and depth; text that is not valid UTF-8 is outside.")
EXE_SRC = [("buildexe/buildexe.cpp", ["-Dmain=buildexe_main"]), "buildexe/src/*.cpp", "bootstrap/src/*.cpp"]
add("C22", [dict(name="exe", harness=["h_exe.cpp", "proj.cpp"], flavor="plain", repo=EXE_SRC, inc=["buildexe/include", "bootstrap/include"])],
    "exhaustive enumeration of options, failing commands and run histories of the tool's real main(), oracle: the same target built through the library and a run model",
    {"quick": "all selections of up to 3 (and 9 or 10) of 10 inputs x 3 target types x spaces, sub directory, config file; script mode with up to 2 of them and all library and configuration selections; each command failing once and the run after it; 6 places of the build directory x cleaning x 4 states; 18 refused starts x 4; each source and header of the library changed; run histories of depth 3",
     "thorough": "all 1024 selections, histories of depth 4"},
    "Exhaustive within one or two values per option; the library sources of the tool's home directory are stand-ins.")
add("C23", [dict(name="inp", harness=["h_inp.cpp", "proj.cpp"], flavor="plain")], ENUM + "a target's input lists, over all registration sequences",
    {"quick": "all sequences of up to 2 of 100 registrations x 3 kinds of root x information/target, each compared with the model after every step; 250 file names x 2 extension sets; all combinations of kinds through real builds",
     "thorough": "up to 3 registrations"},
    "Exhaustive within the listed registrations; the order of globbed files is free.")
# single large instances of each: nothing may depend on a size
MANY = {
    "C01": "a target with 18 sources and 9 entries in every list, one change at a time; all changes between 7 mixes of C, C++ and assembly sources; targets with and without precompiled header and link dependencies",
    "C02": "a target with 18 sources and 9 entries in every list, one change at a time; all changes between 7 mixes of C, C++ and assembly sources; targets with and without precompiled header and link dependencies",
    "C03": "a target with 18 sources and 9 entries in every list; mixes of languages; two independent targets with 1 failure and 1 schedule deviation",
    "C04": "mixes of languages; two independent targets with 1 kill and 1 schedule deviation",
    "C05": "chain, star and fan of 10 builders, a target of 11 sources and a generator of 10 tasks with 1 deviation",
    "C06": "chain, star and fan of 10 builders, a target of 11 sources and a generator of 10 tasks",
    "C07": "chain, star and fan of 10 builders, a target of 11 sources and a generator of 10 tasks with 1 deviation",
    "C08": "a generator with 12 more tasks and one with 12 inputs and outputs",
    "C10": "lists and generators of up to 1500 entries",
    "C11": "8 graphs of 10 builders with each further edge, ladders of up to 40 layers of two builders (as many paths as subsets of layers)",
    "C12": "28 sources and 27 entries in every list",
    "C14": "up to 200 defaults, 100 values, 3000 repetitions, values of 200 kB, templates of 200 kB, 30 templates",
    "C15": "30 entries in every setting",
    "C16": "up to 500 objects at once",
    "C17": "up to 70 search directories and 600 other files",
    "C18": "10 tests",
    "C19": "up to 20 targets and 240 sources",
    "C20": "12 toolchains and 12 targets",
    "C21": "texts of up to 65537 parts",
    "C22": "22 values for every input, unusual and repeated values",
    "C23": "each registration 40 times and all of them in 4 orders",
}
for k, v in MANY.items():
    for t in CHECKS[k]["bounds"]:
        CHECKS[k]["bounds"][t] += "; also: " + v
