"""What each check is: time budgets (quick, thorough seconds of search) and what it runs."""

ASSUMPTIONS = [
    "simulated threads interleave at instrumented memory accesses and synchronisation operations under sequential consistency; weaker hardware orderings of racy code are not simulated",
    "the executable is the library compiled from /repo's current sources by g++ -O1 with -fsanitize=thread instrumentation calls (preemption points); libgomp, malloc, pthread locks and the C++ static guards are the simulator's own",
    "Boost.Log, GSL and libstdc++ run as installed and uninstrumented, so no preemption happens inside them except where they call back or lock",
]
LIB = "all of src/*.cpp of the library and src/pyslatcore.cpp, GSL, Boost.Log, libstdc++"
STUB = "libgomp (teams, worksharing, locks, criticals), pthread mutexes/conditions/threads, malloc, static-initialisation guards: replaced by the simulator; SWIG wrapper and Python not linked"

NUMERIC = "a numerical identity of pure functions of their arguments: there is no concurrency, time, I/O, failure or history it depends on, so a simulator has nothing to decide"
NOT_APPLICABLE = {"N01": NUMERIC, "N02": NUMERIC, "N03": NUMERIC}
SAMPLED = "Seeded sampling, not enumeration: a clean batch is evidence, not proof. Trusts the simulator run-time (rt.cpp) and the workload's oracle; "

SPECS = {
    "C01": dict(note=SAMPLED + "requests, calculations and waiting run the real caching code; sequential consistency.", seconds=(30, 600), scenario="2-5 concurrent clients (an OpenMP team or plain threads) request keys of 1-3 memoised functions/values of eight kinds, over 1-3 phases separated by invalidation", real=LIB, stub=STUB),
    "C02": dict(note=SAMPLED + "requests, calculations and invalidations run the real caching code; sequential consistency.", seconds=(30, 600), scenario="as C01, with invalidations of single caches and of all caches concurrent with requests", real=LIB, stub=STUB),
    "C03": dict(note=SAMPLED + "failures are injected in the harness's calculations at planned evaluations; sequential consistency.", seconds=(30, 600), scenario="as C01, with calculations that throw (an ordinary exception or bad_alloc) at planned evaluations", real=LIB, stub=STUB),
    "C04": dict(note=SAMPLED + "models of limited size with loose integration tolerance (the same in the reference model); compared with relative tolerance 1e-9; sequential consistency.", seconds=(40, 800), scenario="models of up to ~20 objects; batches of queries, single and list forms, sent by 1-4 clients at once (an OpenMP team or plain threads), with any team sizes and nesting; each result compared with that of an equal model built from scratch and evaluated argument by argument by one thread", real=LIB, stub=STUB),
    "C05": dict(note=SAMPLED + "models of limited size with loose integration tolerance (the same in the reference model); compared with relative tolerance 1e-9; sequential consistency.", seconds=(40, 800), scenario="models of up to ~20 objects with shared inputs; a watched set of queries repeated between changes of every kind (replacements, distributions, mutable functions, membership); each result compared with an equal model built from scratch in its current state", real=LIB, stub=STUB),
    "C11": dict(note=SAMPLED + "models of limited size with loose integration tolerance (the same in the reference model); compared with relative tolerance 1e-9; sequential consistency.", seconds=(40, 800), scenario="models whose objects are created, replaced, changed, added, removed and discarded in random order with queries between; all memory comes from the simulator, which detects any access to freed memory, double frees and objects destroyed early or never", real=LIB, stub=STUB),
    "C12": dict(note=SAMPLED + "models of limited size with loose integration tolerance (the same in the reference model); compared with relative tolerance 1e-9; sequential consistency.", seconds=(40, 800), scenario="structures to which groups are added (also twice, or of another intensity measure), removed (also when not held) and replaced; membership compared with a reference list after every step, costs with a structure freshly filled", real=LIB, stub=STUB),
    "C13": dict(note=SAMPLED + "models of limited size with loose integration tolerance (the same in the reference model); compared with relative tolerance 1e-9; sequential consistency.", seconds=(40, 800), scenario="as C04, with user-supplied functions, distributions and loss functions that throw one of three kinds of exception at planned evaluations (once or from then on)", real=LIB, stub=STUB),
    "C06": dict(note=SAMPLED + "registration, removal, notification and replacement run the real template; replacements are made by one thread at a time; sequential consistency.", seconds=(30, 600), scenario="1-5 objects of one type, a second layer of objects notified by clients and a second type; registrations, removals (also of unknown and stale identifiers), notifications and replacements (chains, merges, back, by itself), partly by 2-4 concurrent threads; told counts compared with a reference registry, within the bounds that overlapping operations allow", real=LIB, stub=STUB),
    "C07": dict(note=SAMPLED + "sequential consistency.", seconds=(30, 600), scenario="memoised functions and values of four kinds created, used, destroyed and cleared all at once, partly by 2-4 concurrent threads (also the first ones of the process, and during calculations which create memoised objects themselves); versions of the inputs show whether a result was kept, the simulated memory whether a destroyed object was touched", real=LIB, stub=STUB),
    "C08": dict(note=SAMPLED + "sequential consistency.", seconds=(30, 600), scenario="batches of up to 14 integrations (eleven integrand families, nested integrations, not-a-number and exceptions at planned evaluations, all search methods and many limits) by 2-5 threads; every statistic and the printed report compared with the sum or maximum over the same integrations performed one at a time, which are checked one by one", real=LIB, stub=STUB),
    "C09": dict(note=SAMPLED + "infinite integrand values are not generated; sequential consistency.", seconds=(30, 600), scenario="as C08, with failures at planned evaluations, and each integration repeated with a lower limit; every result checked against what the instrumented integrand saw, and against the same integration performed alone", real=LIB, stub=STUB),
    "C10": dict(note=SAMPLED + "sequential consistency.", seconds=(30, 600), scenario="random trees of up to 5 levels of parallel regions, teams of 1-5 (also granted fewer), scopes entered by some of the threads, left normally or by an exception, and reads of the context by any thread; compared with each thread's own list of open scopes", real=LIB, stub=STUB),
    "C14": dict(engine="python", note=SAMPLED.replace("the simulator run-time (rt.cpp)", "the simulated storage (pysim/fsshim.c, between the interpreter and the C library)") + "what the recorders print is compared with an independent formatter fed by the same stand-in for the compiled module.", seconds=(40, 600),
        technique="deterministic simulation with fault injection: seeded histories of the real Python recorders and script interpreter over simulated storage that fails as planned",
        scenario="2-5 recorders of 18 kinds with files (new, appended to, shared, in other directories, blocked by directories) or none, defined, redefined and run directly or by interpreted scripts (which also print to files, change the output directory and analyse), while calls on files fail, are cut short or interrupted, the disk fills up, queries raise, standard output fails or the process is killed",
        real="src/pyslat.py, src/SlatInterpreter.py, the parser generated from src/slatLexer.g4 and src/slatParser.g4, the Python interpreter's file layer and a real file system below the simulated storage",
        stub="the compiled module _pyslatcore (deterministic numbers, planned exceptions); file-system calls of the C library pass through fsshim.c, which decides their outcome",
        assumptions=["file contents are observed through the operating system's file interface: loss of data the kernel has accepted (power failure) is outside the property", "one thread runs recorders", "the numbers come from a stand-in for the compiled module; its own behaviour is the subject of C01-C13"]),
    "C15": dict(note=SAMPLED + "memory runs out during queries only, one allocation (or all from one on) of the library or of C++ library code at a time; models of limited size with loose integration tolerance; compared with relative tolerance 1e-9; sequential consistency.", seconds=(40, 800), scenario="models of up to ~20 objects; batches of queries by 1-4 clients at once, during which the nth allocation of a chosen simulated thread or of all fails once or from then on; a failed query may only have failed with bad_alloc, every other result and all later ones are compared with an equal model built from scratch, and nothing may stay locked or terminate", real=LIB, stub=STUB),
    "C17": dict(note=SAMPLED + "what the threads share is not changed meanwhile, and nothing is replaced by it; models of limited size with loose integration tolerance; compared with relative tolerance 1e-9; sequential consistency.", seconds=(40, 800), scenario="2-4 threads (an OpenMP team or plain threads), each with models of its own of up to ~20 objects, built on up to 8 common inputs: created, queried, changed, replaced, filled, emptied and discarded at the same time, all caches cleared now and then; afterwards one thread does the same again and every answer is compared with that of an equal model built from scratch", real=LIB, stub=STUB),
    "C18": dict(note=SAMPLED + "memory runs out while the library creates, changes or discards, one allocation (or several, or all from one on) of the library or of C++ library code at a time; models of limited size with loose integration tolerance; compared with relative tolerance 1e-9; sequential consistency.", seconds=(40, 800), scenario="models of up to ~20 objects created, replaced, changed, filled, emptied, discarded and their caches cleared, while the nth allocation, or the first at the nth new place, fails once, several times or from then on; an operation which throws may have changed nothing (membership and every query compared with an equal model built from scratch, all memory watched for discarded objects, all objects destroyed when nothing needs them), the same operation is often repeated, and nothing may stay locked or terminate", real=LIB, stub=STUB),
    "C16": dict(engine="python", note=SAMPLED.replace("the simulator run-time (rt.cpp)", "the simulated storage (pysim/fsshim.c, between the interpreter and the C library)") + "results are compared with formulas (relative tolerance 1e-9), and where there is none with the same query of objects built afresh through the compiled module (1e-6 for integrals, 1e-4 for those over imported tables), so an error common to every calculation of a kind is not seen here (C04, C05, C09 look at those).", seconds=(40, 700),
        technique="deterministic simulation with fault injection: seeded sessions with the real Python interface, script interpreter and compiled library, over simulated storage whose reads fail as planned",
        scenario="sessions of 10-40 definitions and redefinitions of functions, intensity measures, demands, fragility and loss functions, component groups and structures, distributions set, groups added and removed, tables imported and scripts run, one in eight of them invalid, while opening or reading files fails, is cut short, interrupted or hit by a signal; after every operation the identifiers in force and a random sample of queries are compared with the reference, and at the end all that need no integration and 50 others",
        real="src/*.cpp of the library with its SWIG wrapper, src/pyslat.py, src/SlatInterpreter.py, the parser generated from src/slatLexer.g4 and src/slatParser.g4, numpy's table reader, GSL, Boost.Log",
        stub="file-system calls of the C library pass through fsshim.c, which decides their outcome; OpenMP runs with one thread (teams are the subject of C04, C13)",
        assumptions=["one thread, as Python programs and scripts use the interface; OpenMP teams of one", "signals arrive while a file is opened or read, not between the two steps of a redefinition", "numbers in tables and definitions are finite; tables have at least two rows, and two non-zero values in each row of a demand table"]),
    "C19": dict(engine="python", note=SAMPLED.replace("the simulator run-time (rt.cpp)", "the simulated storage (pysim/fsshim.c, between the interpreter and the C library)") + "results are compared with the same query of objects built afresh through the compiled module (relative tolerance 1e-6) under the settings in force, which are read back from the statistics; one thread (C05 changes settings between parallel queries).", seconds=(40, 700),
        technique="deterministic simulation with fault injection: seeded sessions with the real Python interface, script interpreter and compiled library, over simulated storage whose reads fail as planned",
        scenario="sessions of about 25 definitions, 3-14 changes of integration settings (functions and integration commands with literals, variables and expressions; one in eight refused, some not positive, some of what is in force already) and redefinitions; the same rates, costs and delays are asked for again after each, and the settings in force read back; opening or reading a script fails, is cut short, interrupted or hit by a signal in some runs",
        real="src/*.cpp of the library with its SWIG wrapper, src/pyslat.py, src/SlatInterpreter.py, the parser generated from src/slatLexer.g4 and src/slatParser.g4, GSL, Boost.Log",
        stub="file-system calls of the C library pass through fsshim.c, which decides their outcome; OpenMP runs with one thread (teams are the subject of C04, C13)",
        assumptions=["one thread, as Python programs and scripts use the interface; OpenMP teams of one", "tolerances from 5e-4 to 5e-2, evaluation limits from 8 to 2048, search limits from 2 to 8192"]),
    "C20": dict(engine="python", note=SAMPLED.replace("the simulator run-time (rt.cpp)", "the simulated storage (pysim/fsshim.c, between the interpreter and the C library)") + "what should be logged, and every result, come from the same session without the changes of destination, so what the library has to say is not judged here, except that a setting which is refused must be followed by a message.", seconds=(30, 600),
        technique="deterministic simulation with fault injection: seeded sessions with the real Python interface, script interpreter and compiled library, over simulated storage which fails as planned, each compared with itself without changes of destination",
        scenario="sessions of about 20 definitions, some of them with numbers for which integrals have no value, and 5-24 changes of destination (functions and log commands; the same file again, files which exist already, missing directories, paths which cannot be opened), refused settings, redefinitions, scripts and queries; opening, writing or closing log files or creating their directories fails, is cut short or interrupted, also while the process ends; standard error is full in some runs; after each operation, and after the process has ended, standard error, standard output and all files are compared with what should be there",
        real="src/*.cpp of the library with its SWIG wrapper, src/pyslat.py, src/SlatInterpreter.py, the parser generated from src/slatLexer.g4 and src/slatParser.g4, GSL, Boost.Log, the C++ file streams",
        stub="file-system calls of the C library pass through fsshim.c, which decides their outcome; OpenMP runs with one thread (context in messages of teams is the subject of C10)",
        assumptions=["one thread, as Python programs and scripts use the interface; OpenMP teams of one", "a log file hit by a failure may miss messages until a file is set again", "no % in names of log files (Boost.Log takes those for patterns)"]),
    "C21": dict(engine="python", note=SAMPLED.replace("the simulator run-time (rt.cpp)", "the simulated storage (pysim/fsshim.c, between the interpreter and the C library)") + "tables are compared word by word and number by number (relative tolerance 7e-6, which is what six digits allow; 1e-4 over imported tables) with formulas and with objects built afresh through the compiled module, so an error common to every calculation of a kind is not seen here; the width of columns is not looked at (C14 does).", seconds=(40, 700),
        technique="deterministic simulation with fault injection: seeded sessions with the real Python interface, script interpreter and compiled library, over simulated storage which fails as planned",
        scenario="sessions of about 25 definitions, up to 6 recorders of 23 kinds with files (new, appended to, shared, in other directories) or none, defined, replaced and run from Python and scripts, while definitions, settings and the output directory change, commands are refused, scripts cannot be read, and opening, writing or closing files fails, is cut short or interrupted; after every analysis all files and standard output are compared with what should be there",
        real="src/*.cpp of the library with its SWIG wrapper, src/pyslat.py, src/SlatInterpreter.py, the parser generated from src/slatLexer.g4 and src/slatParser.g4, GSL, Boost.Log, the Python interpreter's file layer",
        stub="file-system calls of the C library pass through fsshim.c, which decides their outcome; OpenMP runs with one thread (teams are the subject of C04, C13)",
        assumptions=["one thread, as Python programs and scripts use the interface; OpenMP teams of one", "identifiers are short enough for their columns", "an analysis which is hit by a failing call may have written anything (C14 looks at those); the files are deleted then"]),
}
