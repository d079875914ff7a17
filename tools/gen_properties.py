#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here because JSONL is unreadable to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})

WF = ("every well-formed extended-DIMACS problem (p line, one d line per variable in order, domain sizes >= 1, one clause per line, "
      "any number of clauses, any clause length including repeated, complementary or no literals)")
CFG = "chronological and non-chronological search, with and without watched literals, every heuristic option, every restart threshold, verbose or not"
TESTS = "The suite runs 184 commands on a few dozen fixed instances (queens, pigeonholes, colouring, one random SAT) and mostly looks at the exit code or at the solver's own words; "

p("C01", "A SAT answer always comes with a genuine, complete model",
  "Whenever the solver (src/) answers SAT, the model it prints gives every variable of the problem exactly one value, each value lies in that variable's domain, and the assignment satisfies every clause of the input file; an answer other than SAT comes with no model. This holds for every search mode, heuristic and restart setting.",
  ["inputs", "configurations"], f"{WF}; {CFG}.",
  TESTS + "a SAT answer is believed when the solver itself says 'model is CORRECT'; no test reads the printed model or checks it against the file.",
  ["src/Formula.cc", "src/SolveFinite.cc"],
  [("decision until every variable is assigned", "src/Formula.cc chooseLiteral*/lazy*"), ("PrintModel", "src/Formula.cc")],
  ["stdout: verdict line and 'The model:' block"],
  [("DECSTACK", "assignments in order", "src/Formula.h"), ("ATOMASSIGN", "truth value of each v=d", "src/Variable.h")])

p("C02", "An UNSAT answer is never given for a satisfiable problem",
  "If the problem in the input file has a model, no search mode, heuristic, restart threshold or time limit makes the solver (src/) answer UNSAT.",
  ["inputs", "configurations"], f"{WF}; {CFG}; any -time value.",
  TESTS + "UNSAT is expected on a handful of pigeonhole instances only; wrong UNSAT answers on other formulas are invisible because nothing certifies them.",
  ["src/Formula.cc", "src/SolveFinite.cc"],
  [("conflict at level 0", "src/Formula.cc NonChronoBacktrack/WatchedLiterals/ChronoBacktrack"), ("resolution-based learning", "src/Formula.cc analyzeConflict/resolve")],
  ["stdout: verdict line"],
  [("CONFLICT/LEVEL", "conflict flag and decision level", "src/Formula.h"), ("NumUnAss", "unassigned literals per clause", "src/Clause.h")])

p("C03", "Every search ends with a decision",
  "Without a -time limit the solver (src/) finishes on every well-formed problem and reports exactly SAT or UNSAT: it does not loop, crash, give up or report TIMEOUT.",
  ["inputs", "configurations"], f"{WF}; {CFG}. Bounded form: small problems finish within a generous fixed number of search iterations.",
  TESTS + "fifteen-second limits on fixed instances say nothing about other inputs (restart thresholds are never exercised at all).",
  ["src/Formula.cc", "src/SolveFinite.cc", "src/Main.cc"],
  [("learned clause is asserting after the backjump", "src/Formula.cc potent/backtrackLevel"), ("flip of the last open decision", "src/Formula.cc ChronoBacktrack")],
  ["exit status", "stdout verdict", "number of clock reads (one per search iteration)"])

p("C04", "The answer depends only on the meaning of the problem",
  "All search modes, heuristics and restart thresholds of both solvers (src/ and, for domains up to 64, bitvec/) give the same SAT/UNSAT answer on a problem, and that answer does not change when variables are renumbered, domain values permuted, clauses or literals reordered or repeated, redundant clauses added, or the problem is joined with an independent satisfiable one.",
  ["inputs", "configurations", "programs"], f"{WF}, including problems too large for exhaustive search; {CFG}; compositions of the listed rewritings.",
  TESTS + "each instance is run as stored, in one order and numbering, and strategies are not compared with each other.",
  ["src/Formula.cc", "src/Variable.cc", "src/Clause.cc", "bitvec/Formula.cc"],
  [("soundness and completeness of each search loop", "src/Formula.cc")], ["stdout verdict of pairs of runs"])

p("C05", "Every learned clause follows from the problem and is asserting",
  "Each clause the non-chronological solver (src/) or the bit-vector solver (bitvec/) reports learning is a logical consequence of the input problem; when it is learned it is false under the current assignment, and exactly one of its literals became false at the current decision level.",
  ["inputs", "configurations", "histories"], f"{WF}; non-chronological search, with and without watched literals, all heuristics and restart thresholds; every conflict of every run.",
  TESTS + "learned clauses are not looked at; an unsound clause only shows when it happens to flip an answer.",
  ["src/Formula.cc", "bitvec/Formula.cc"], [("analyzeConflict, resolve, potent, maxLit, assignWatched", "src/Formula.cc"), ("learnClause", "src/Formula.cc")],
  ["stdout with -verbose: 'Learned a clause:' events against the replayed assignment"],
  [("ATOMINDEX/ATOMLEVEL/CLAUSEID", "order, level and reason of each falsified literal", "src/Variable.h")])

p("C06", "Every forced assignment has a valid reason",
  "Whenever the solver (src/, or bitvec/ when it removes values from a variable) assigns a literal that is not a decision (or a flipped decision), the reason it reports justifies it at that moment: either a clause of the problem or a learned clause whose other literals are all false, or the fact that all other values of the variable are excluded. Every conflict it reports is a clause that is entirely false.",
  ["inputs", "configurations", "histories"], f"{WF}; {CFG}; every propagation and conflict event of every run.",
  TESTS + "no test observes propagation.",
  ["src/Formula.cc", "bitvec/Formula.cc"], [("unitPropagation / WatchedUnitPropagation", "src/Formula.cc"), ("checkEntail", "src/Formula.cc"), ("removeLiteral / SwapPointer", "src/Formula.cc")],
  ["stdout with -verbose: 'Reducing literal', reason, 'Entailment', 'Conflicting clause'"])

p("C07", "Backtracking restores exactly the earlier assignment",
  "After a backtrack to level k the solver (src/ and bitvec/) keeps exactly the assignments made at levels up to k and forgets all later ones; the level it returns to is the second highest level in the learned clause (chronological search: the level before the last open decision), and decision levels always grow by one. The final model is exactly what remains after replaying all reported assignments and backtracks.",
  ["inputs", "configurations", "histories"], f"{WF}; {CFG}; every sequence of decisions, conflicts, backjumps and restarts.",
  TESTS + "state restoration only shows in long histories with many backjumps; nothing checks intermediate states.",
  ["src/Formula.cc", "bitvec/Formula.cc"], [("undoTheory / watchedUndoTheory", "src/Formula.cc"), ("backtrackLevel", "src/Formula.cc")],
  ["stdout with -verbose: decisions, levels, 'We are backtracking to the level', final model"],
  [("ATOMLEVEL", "level at which each value was decided", "src/Variable.h"), ("DECSTACK", "assignment order", "src/Formula.h")])

p("C08", "No decision is taken while propagation is unfinished",
  "Whenever the solver (src/ and bitvec/) takes a decision, no clause (of the problem or learned) is already false, no clause of at least one open literal has all its other literals false and that literal still open, and (src/) no variable is left with a single open value; when it answers SAT no clause is false.",
  ["inputs", "configurations", "histories"], f"{WF} whose clauses do not repeat a literal; {CFG}; every decision of every run.",
  TESTS + "missed propagations cost search effort, not the exit code.",
  ["src/Formula.cc", "bitvec/Formula.cc"], [("unit detection at NumUnAss == 1", "src/Formula.cc removeLiteral"), ("watched literal replacement", "src/Formula.cc watchedFalsifyLiteral/SwapPointer"), ("learned clause queued after backtrack", "src/Formula.cc")],
  ["stdout with -verbose: state at every 'Decision:' event"],
  [("UNITLIST", "queue of unit clauses", "src/Formula.h"), ("ATOMWATCHPOS/NEG", "watch lists", "src/Variable.h")])

p("C09", "Restarts happen exactly when asked and lose nothing",
  "With restart threshold k>0 the non-chronological solver (src/, and the bit-vector solver) restarts after every k-th backtrack and only then (documented option -restarts, also accepted as -restart), after a restart all decisions are gone while learned clauses and their level-0 consequences are kept, and with no threshold it never restarts.",
  ["inputs", "configurations", "histories"], f"{WF}; every threshold k>=0; all heuristics, with and without watched literals.",
  "No test passes a restart option at all.",
  ["src/Formula.cc", "src/Global.cc", "src/SolveFinite.cc", "bitvec/Formula.cc"],
  [("BACKTRACKS == restartCount", "src/Formula.cc NonChronoBacktrack/WatchedLiterals"), ("-restart parsing", "src/Global.cc")],
  ["stdout: Restarts/Backtracks counters; -verbose trace"])

p("C10", "The time limit is obeyed and only the time limit yields TIMEOUT",
  "The solver (src/ and bitvec/) answers TIMEOUT only when more time than the -time limit has passed since solving started; once the limit has passed the search stops within a few iterations, with TIMEOUT or with the correct answer it had just reached, and a timed-out run never reports SAT or UNSAT wrongly nor prints a model. Without -time the limit is 1000 hours (bitvec/: one hour).",
  ["inputs", "configurations", "schedules"], f"{WF}; {CFG}; every limit, and every point of the search at which the clock passes the limit.",
  "No test sets a time limit; clock behaviour is not controllable from the test commands.",
  ["src/Formula.cc", "src/SolveFinite.cc", "src/Global.cc", "bitvec/Formula.cc", "bitvec/SolveFinite.cc"],
  [("TIME_E - TIME_S > TIMELIMIT", "src/Formula.cc"), ("-time parsing", "src/Global.cc")],
  ["stdout verdict under a controlled clock (gettimeofday/clock_gettime/time)"])

p("C11", "Reported statistics are true",
  "The counters that both solvers (src/ and bitvec/) print after solving (decisions, unit propagations, backtracks, entailments, variables, clauses, restarts) equal the numbers of the corresponding events of the run: variables as declared, clauses as given plus one per learned clause, and the others as they occurred.",
  ["inputs", "configurations", "histories"], f"{WF}; {CFG}.",
  "No test reads the statistics, which the project's own experiments are built on.",
  ["src/Formula.cc", "src/SolveFinite.cc", "bitvec/Formula.cc"], [("DECISIONS/UNITS/BACKTRACKS/ENTAILS/RESTARTS", "src/Formula.cc"), ("PrintInfo", "src/Formula.cc")],
  ["stdout statistics block against the -verbose event trace of the same run"])

p("C12", "The solver's own model check never vouches for a wrong model",
  "The verification the solver runs on its result says CORRECT exactly when the current assignment satisfies every clause it was given, for every complete assignment, right or wrong. The bit-vector solver assigns value sets: they satisfy a clause when every choice of values from them does.",
  ["inputs"], "every well-formed problem and every complete assignment to its variables, models and non-models alike, with and without watched literals.",
  "The suite trusts this check as its oracle; on an intact solver it is only ever run on correct models, so a check that always says CORRECT passes every test.",
  ["src/Formula.cc", "src/SolveFinite.cc", "bitvec/Formula.cc"], [("verifyModel", "src/Formula.cc"), ("verifyModel", "bitvec/Formula.cc")],
  ["verifyModel on a formula built from a file with an injected assignment", "stdout: 'Verifying model ...'"])

p("C13", "The problem solved is exactly the one in the file",
  "Every clause and every literal of the input file takes part in the search, and nothing else does: comments, blank lines, spaces and tabs, the header keyword (cnf or mvcnf), a missing trailing 0, line length, number of digits and clause position do not change the set of models.",
  ["inputs"], "every well-formed problem, in every layout, with lines and clauses of any length, variables and values of any size; both src/ and bitvec/ (domains up to 64).",
  TESTS + "all stored instances use one layout with short lines and no blank lines.",
  ["src/Formula.cc", "bitvec/Formula.cc"], [("BuildFormula", "src/Formula.cc"), ("BuildFormula", "bitvec/Formula.cc")],
  ["stdout: models enumerated with blocking clauses; verdicts on layout variants; Variables/Clauses counters"])

p("C14", "Boolean-to-finite conversion preserves the problem",
  "For every DIMACS CNF file with one clause per line, -b2f writes a well-formed extended-DIMACS file that declares every variable with domain size 2 in order and whose models are exactly the models of the CNF, with value 1 for true and 0 for false, clause by clause.",
  ["inputs"], "every DIMACS CNF with one 0-terminated clause per line: unused variables, repeated literals, empty clauses, any length, comments, blank lines and the SATLIB '%' trailer.",
  "One test runs -b2f and only looks at the exit status.",
  ["src/Boolean2Finite.cc"], [("Boolean2Finite", "src/Boolean2Finite.cc")], ["output file, and what the solver says about it"])

p("C15", "Linear encoding preserves the problem",
  "For every well-formed finite-domain problem (a variable without a domain line has two values), -linenc writes a DIMACS CNF whose header gives its true numbers of variables and clauses and whose models, read back through the value variables, are exactly the models of the input, each once.",
  ["inputs"], "every well-formed finite-domain problem, all domain sizes mixed, both literal polarities, both header keywords.",
  "One test runs -linenc on one file with domains of size 2 and positive literals and only looks at the exit status.",
  ["src/LinearEncode.cc"], [("LinearEncode", "src/LinearEncode.cc")], ["output file: parsed, models enumerated and projected"])

p("C16", "Quadratic encoding preserves the problem",
  "For every well-formed finite-domain problem, -quadenc writes one clause per line over the atoms v=d such that the models of the output are exactly the models of the input (v=d true iff the variable has that value), and its header gives the true numbers of atoms and clauses.",
  ["inputs"], "every well-formed finite-domain problem, all domain sizes mixed (small, 13 and more, 34 and more), both literal polarities.",
  "One test runs -quadenc on one file with domains of size 2 and only looks at the exit status.",
  ["src/QuadraticEncode.cc"], [("QuadraticEncode", "src/QuadraticEncode.cc"), ("Fact", "src/QuadraticEncode.cc")], ["output file: parsed, models enumerated"])

p("C17", "The finite benchmark generator delivers what was asked for",
  "-genben with -bool 1 writes a well-formed problem with exactly the requested numbers of variables, clauses and literals per clause, no variable twice in a clause, domain sizes as requested (with -drand 1: between 1 and the requested size) and values inside the domains; with -sat 1, the default, the problem is satisfiable.",
  ["inputs", "configurations"], "every combination of -var, -clause, -clausesize (up to the number of variables), -domain, -drand, -sat, and every seed of the random generator.",
  "The suite runs -genben once, in boolean form with two variables; its output depends on the time of day and is never read.",
  ["src/GenBenFunc.cc", "src/Global.cc", "src/Main.cc"], [("GenBenFin", "src/GenBenFunc.cc")], ["output file under a controlled clock"])

p("C18", "The boolean benchmark generator delivers what was asked for",
  "-genben with -bool 0, the default, writes a DIMACS CNF with exactly the requested numbers of variables, clauses and literals per clause, all literals within range and no literal twice in a clause; with -sat 1, the default, the CNF is satisfiable.",
  ["inputs", "configurations"], "every combination of -var, -clause, -clausesize (up to the number of variables), -sat, and every seed of the random generator.",
  "The suite runs it once, with two variables and three clauses, and only looks at the exit status.",
  ["src/GenBenFunc.cc", "src/Global.cc", "src/Main.cc"], [("GenBenBool", "src/GenBenFunc.cc")], ["output file under a controlled clock"])

p("C19", "Generator, converters and solver compose",
  "A problem keeps its answer along any chain of the tools: a finite problem solved directly, or after linear encoding and conversion back to finite form (any number of times), gets the same SAT/UNSAT answer, and a model of the converted problem translates back to a model of the original.",
  ["inputs", "programs"], "every well-formed problem (also those produced by -genben) and every chain of -linenc and -b2f ending in a solve with any search mode.",
  "The suite chains the converters once and never compares answers.",
  ["src/LinearEncode.cc", "src/Boolean2Finite.cc", "src/GenBenFunc.cc", "src/Formula.cc"],
  [("file formats shared between the tools", "src/")], ["verdicts and models along the chain"])

p("C20", "Solving is free of memory errors and undefined behaviour",
  "Reading and solving any well-formed problem in any mode of the solver (src/) performs no out-of-bounds, use-after-free or uninitialised access, no undefined arithmetic and no other undefined behaviour.",
  ["inputs", "configurations"], f"{WF}; {CFG}.",
  "The suite runs an uninstrumented -O0 build on a few dozen instances; silent memory errors pass.",
  ["src/Formula.cc", "src/Clause.cc", "src/Variable.cc", "src/SolveFinite.cc", "src/Global.cc"],
  [("index and pointer discipline of VARLIST/CLAUSELIST/watch lists", "src/Formula.cc"), ("resolvent ownership in analyzeConflict", "src/Formula.cc")],
  ["AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ checks, valgrind memcheck"])

p("C21", "Generating and converting is free of memory errors and undefined behaviour",
  "Generating benchmarks and converting problems (-genben, -b2f, -linenc, -quadenc) on any well-formed input and sensible parameters performs no out-of-bounds, use-after-free or uninitialised access, no undefined arithmetic and no other undefined behaviour, and ends normally.",
  ["inputs", "configurations"], "every well-formed input file of the respective format, every generator parameter combination with at least one variable and clause size up to the number of variables.",
  "Four uninstrumented commands on tiny inputs.",
  ["src/GenBenFunc.cc", "src/Boolean2Finite.cc", "src/LinearEncode.cc", "src/QuadraticEncode.cc", "src/Global.cc"],
  [("fixed line and word buffers", "src/*.cc"), ("index arrays sized from the header", "src/LinearEncode.cc")],
  ["AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ checks, valgrind memcheck"])

p("C22", "Runs are reproducible",
  "The same input file and options always give the same answer, model and statistics (all printed text but the times), the converters the same output file and the generators, at the same time of day, the same benchmark, whatever the compiler optimisation level, the contents of uninitialised memory, the environment or the address layout.",
  ["inputs", "configurations", "schedules"], f"{WF}; {CFG}; builds at -O0, -O2, -O3 with gcc and clang; memory poisoned with different patterns.",
  "The suite runs one -O0 build, once per command.",
  ["src/Formula.cc", "src/Clause.cc", "src/Variable.cc", "src/Global.cc"], [("initialisation of all search state", "constructors in src/")],
  ["stdout (times removed) of the same run in different builds and environments"])

p("C23", "Verbose mode only adds output",
  "Turning on -verbose never changes the answer, the model, the statistics or the verification result (src/ and bitvec/).",
  ["inputs", "configurations"], f"{WF}; {CFG}.",
  "No test uses -verbose.",
  ["src/Formula.cc", "src/Global.cc", "bitvec/Formula.cc"], [("if (LOG) guards", "src/Formula.cc")], ["stdout of the same run with and without -verbose"])

p("C24", "Bit-vector solver: a SAT answer comes with a genuine model",
  "Whenever the bit-vector solver (bitvec/) answers SAT, the value sets it prints are non-empty subsets of the variables' domains, every way of picking one value from each set satisfies every clause of the input, and its own check says CORRECT; an answer other than SAT comes with no model.",
  ["inputs", "configurations"], "every well-formed problem with domains of 1 to 64 values; default and -vsids heuristic; every restart threshold.",
  "bitvec/ has no tests at all.",
  ["bitvec/Formula.cc", "bitvec/Variable.cc", "bitvec/Literal.h", "bitvec/SolveFinite.cc"], [("WatchedLiterals", "bitvec/Formula.cc"), ("verifyModel", "bitvec/Formula.cc")],
  ["stdout verdict and model"])

p("C25", "Bit-vector solver: UNSAT is never given for a satisfiable problem",
  "If the problem has a model, no heuristic, restart threshold or time limit makes the bit-vector solver (bitvec/) answer UNSAT, and every clause it reports learning is a logical consequence of the input.",
  ["inputs", "configurations", "histories"], "every well-formed problem with domains of 1 to 64 values; default and -vsids heuristic; every restart threshold.",
  "bitvec/ has no tests at all.",
  ["bitvec/Formula.cc", "bitvec/Literal.h", "bitvec/Clause.cc"], [("resolve, analyzeConflict, assignWatched", "bitvec/Formula.cc"), ("watchedUndoTheory", "bitvec/Formula.cc")],
  ["stdout verdict; -verbose learned clauses"])

p("C26", "Bit-vector solver: every search ends with a decision",
  "Without a reachable time limit the bit-vector solver finishes on every well-formed problem with domains up to 64 and reports SAT or UNSAT, restarting exactly after every k-th backtrack when a threshold k is given; a problem with a larger domain is refused with an error instead of being answered.",
  ["inputs", "configurations"], "every well-formed problem, domain sizes on both sides of 64; default and -vsids heuristic; every restart threshold. Bounded form: small problems finish within a generous fixed number of search iterations.",
  "bitvec/ has no tests at all.",
  ["bitvec/Formula.cc", "bitvec/SolveFinite.cc", "bitvec/Global.cc"], [("asserting learned clauses", "bitvec/Formula.cc potent"), ("MAX_DOMAIN check", "bitvec/Formula.cc")],
  ["exit status, stdout verdict and counters, number of clock reads"])

p("C27", "Bit-vector solver: no memory errors or undefined behaviour",
  "Reading and solving any well-formed problem with domains up to 64 in any mode of the bit-vector solver performs no out-of-bounds, use-after-free or uninitialised access, no undefined arithmetic and no other undefined behaviour.",
  ["inputs", "configurations"], "as C24, verbose or not.",
  "bitvec/ has no tests at all.",
  ["bitvec/Formula.cc", "bitvec/Variable.cc", "bitvec/Clause.cc", "bitvec/Literal.h"], [("VARREC list handling", "bitvec/Variable.cc"), ("IGNode stack", "bitvec/Variable.h")],
  ["AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ checks, valgrind memcheck"])

p("C28", "Unusable files are reported, inputs are never damaged",
  "When the input file cannot be opened (or a converter cannot open its output), the program says so and exits with a non-zero status without printing a verdict, no mode ever modifies its input file, needs more than read permission on it, or writes any file other than the named output, and an output file that existed before is replaced entirely.",
  ["inputs", "fault_sequences"], "every mode of src/ and bitvec/; missing or unreadable input files, unwritable outputs, missing -file/-model arguments.",
  "No test passes a bad path or looks at files other than by exit status.",
  ["src/Formula.cc", "src/Boolean2Finite.cc", "src/LinearEncode.cc", "src/QuadraticEncode.cc", "src/GenBenFunc.cc", "src/Global.cc", "bitvec/Formula.cc"],
  [("open checks and exit(1)", "src/*.cc")], ["exit status, stdout, directory contents before and after"])

p("C29", "Options mean what the documentation says, in any order",
  "Each documented option selects the documented behaviour regardless of the order in which options are given: -wl selects the watched-literal search (VSIDS unless another heuristic is named), no heuristic option means bookkeeping, numeric options take the decimal value that follows them (leading zeros do not matter), generator options given to a solving mode change nothing, and a call without a known mode shows the help menu and ends when its input ends.",
  ["inputs", "configurations"], "every mode of src/ and bitvec/, every subset and order of its documented options.",
  TESTS + "options are always given in one order.",
  ["src/Global.cc", "src/Main.cc", "src/SolveFinite.cc", "bitvec/Global.cc"], [("ParseCommandLine", "src/Global.cc"), ("PrintHelp", "src/Global.cc")],
  ["stdout for permuted option lists; behaviour differences between options; menu on scripted stdin"])

p("C30", "Every decision follows the selected heuristic",
  "Each decision of a search picks a best-scored open candidate of the selected heuristic. Bookkeeping (src/ default): the value assignment v=d with the largest number of not yet satisfied clauses (given and learned) containing v=d minus the number containing v!=d. VSIDS: the literal with the largest activity, where an activity counts the clauses containing the literal, grows with each learned clause containing it and is halved after each learned clause; with -vsids_pos (and in the bit-vector solver) only values are scored and v!=d counts for every other value of v. Lazy: some open literal of a clause. How ties are broken is free.",
  ["inputs", "configurations", "histories"], f"{WF}; {CFG}; every decision of every run, also after backjumps, learned clauses and restarts.",
  TESTS + "a heuristic with wrong scores still answers correctly, only more slowly.",
  ["src/Formula.cc", "bitvec/Formula.cc"],
  [("chooseLiteral, chooseLiteralVSIDS, chooseLiteralVSIDS_allPos, lazyChooseLiteral", "src/Formula.cc"), ("ATOMCNT and VSIDS_SCORE updates", "src/Formula.cc reduceTheory/undoTheory/learnClause"), ("chooseLiteralVSIDS", "bitvec/Formula.cc")],
  ["stdout with -verbose: 'Decision:' events against recomputed scores"],
  [("ATOMCNTPOS/ATOMCNTNEG", "occurrences in unsatisfied clauses", "src/Variable.h"), ("VSIDS_SCORE", "activities", "src/Variable.h")])

p("C31", "Conflict analysis resolves reasons, newest first, down to the first asserting clause",
  "Each clause learned by the non-chronological searches (src/ with and without watched literals, and the bit-vector solver) is the end of a chain that starts at the conflicting clause. While two or more literals of the current clause were falsified at the current level, the clause is resolved on its most recently falsified literal (literals falsified by one assignment may be taken in any order) with that literal's reason: the clause that was unit when it was assigned, v=d or v!=d for a decision, the disjunction of all values of v for an entailed value. The resolvent keeps every literal of both clauses except those resolved away (of the clause, the literals that imply the pivot; of the reason, those that contradict it) and nothing else. The chain stops at the first clause with a single literal of the current level, and exactly that clause is learned.",
  ["inputs", "configurations", "histories"], f"{WF}; {CFG} that learn; every conflict of every run, also after backjumps and restarts.",
  TESTS + "an analysis that goes too far or resolves on another literal still learns implied clauses and answers correctly.",
  ["src/Formula.cc", "bitvec/Formula.cc"],
  [("analyzeConflict, resolve, maxLit, assignWatched, potent", "src/Formula.cc"), ("CLAUSEID and ATOMINDEX updates", "src/Formula.cc reduceTheory/watchedReduceTheory"), ("analyzeConflict, resolve, assignWatched", "bitvec/Formula.cc"), ("getIGNode", "bitvec/Variable.cc")],
  ["stdout with -verbose: 'Conflicting clause', 'Latest falsified literal', 'Resolvent', 'Learned a clause' events"],
  [("CLAUSEID", "reason of each literal", "src/Variable.h"), ("ATOMINDEX", "order of assignment", "src/Variable.h"), ("graphNodes", "implication graph", "bitvec/Variable.h")])

p("C32", "A file that is read or written only in part is an error, not a result",
  "When the input file turns out to be unreadable while it is being read (an I/O error at any point, a folder in place of a file), the program says so and exits with a non-zero status: no solver prints a verdict for the part it saw and no converter passes the part off as the whole. When the output of a converter or generator cannot be written completely (device full, I/O error or size limit at any point), the program says so and exits with a non-zero status. Transfers that are merely short or interrupted change nothing at all.",
  ["inputs", "fault_sequences"], "every mode of src/ and bitvec/ that reads or writes a file; a read error after any number of bytes, a write error after any number of bytes, a folder as input, a full device as output, short and interrupted transfers of any size.",
  "No test makes a read or a write fail: a full disk leaves a truncated problem and exit status 0, a folder named as input is 'SAT, model is CORRECT'.",
  ["src/Formula.cc", "src/Boolean2Finite.cc", "src/LinearEncode.cc", "src/QuadraticEncode.cc", "src/GenBenFunc.cc", "bitvec/Formula.cc"],
  [("state of infile after the reading loop", "src/Formula.cc BuildFormula, src/*Encode.cc, src/Boolean2Finite.cc, bitvec/Formula.cc"), ("state of outfile after close", "src/*Encode.cc, src/Boolean2Finite.cc, src/GenBenFunc.cc")],
  ["exit status, stdout, output file under injected transfer faults"])

p("C33", "Reported times are the times that passed",
  "The building, solving and total times that both solvers (src/ and bitvec/) print before the verdict measure this run: none is negative, the total is the sum of the other two, it never exceeds the time that passed between the program's first and last look at the clock, time that passes while the file is read counts as building time, time that passes during the search counts as solving time (also when the search ends in UNSAT or TIMEOUT), and after TIMEOUT the solving time is at least the limit.",
  ["inputs", "configurations", "schedules"], f"{WF}; {CFG}; every clock that does not run backwards, and every limit.",
  "The times are what the project's experiments compare; no test reads them, and no test controls the clock.",
  ["src/SolveFinite.cc", "src/Formula.cc", "src/Global.cc", "bitvec/SolveFinite.cc", "bitvec/Formula.cc", "bitvec/Global.cc"],
  [("TIME_S, TIME_E, difftime, totaltime", "src/SolveFinite.cc, bitvec/SolveFinite.cc"), ("GetTime", "src/Global.cc, bitvec/Global.cc")],
  ["the three times on stdout under a controlled clock"])

p("C34", "A search loses no memory",
  "While either solver (src/ or bitvec/) searches, everything it allocates is either released or still reachable from the program: the temporary clauses of conflict analysis, the watch records and all other working data of a step do not pile up, so the memory a search needs depends on the problem and the clauses it keeps, not on the number of steps taken.",
  ["inputs", "configurations", "histories"], f"{WF}; {CFG}; searches of every length, with and without a time limit.",
  "A lost clause per conflict changes no answer; it ends the long searches the solver exists for. No test looks at memory.",
  ["src/Formula.cc", "src/Clause.cc", "src/Variable.cc", "bitvec/Formula.cc", "bitvec/Variable.cc"],
  [("analyzeConflict, resolve (ownership of resolvents and temporary reasons)", "src/Formula.cc, bitvec/Formula.cc"), ("addRecord, deleteRecord", "src/Variable.cc, bitvec/Variable.cc")],
  ["every allocation and release; the blocks reachable from registers, stack and static data at chosen steps"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
