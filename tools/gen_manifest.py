#!/usr/bin/env python3
"""Writes /verif/plan.json (what each check's evidence says about itself) and /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = "Problems are generated from VERIF_SEED (exhaustively enumerable random problems, planted-model problems, pigeonholes, queens, colourings, latin squares, parity and modular constraints, implication chains, scaled random problems near the threshold, large domains, very long clauses; a share with repeated/complementary literals, empty clauses and one-value domains) and run on the real program, each run in a fresh forked process under a virtual clock. "
A_ORACLE = "the checker's own reading of the extended-DIMACS format (README.md) and its exhaustive enumerator/DPLL search are correct"
A_BUILD = "the sources compiled from /repo's working tree with g++/clang++ (main renamed, clock functions interposed) behave as the ordinary build"
A_LOG = "the -verbose log reports the events that happened; what the log says is additionally tied to the printed model, the counters and the answer of the same run"
A_SAN = "the compilers' sanitizers, libstdc++ debug mode and valgrind report the errors that occur; only executed paths are judged"
A_SAMPLE = "sampled inputs and configurations: a violation that none of them provokes is not seen"
P = {}
def p(id, tech, rule, note, *assume):
    P[id] = (tech, rule, note, list(assume) + [A_SAMPLE])
p("C01", "monitored executions; printed model evaluated on the input file", RUN + "Non-trivial: a SAT answer on a problem with at least two variables and one clause, distinct by problem and configuration; its model was checked for completeness, domain membership and every clause.",
  "Every SAT answer seen is judged exactly (no tolerance); wrong models outside the sampled problems are not excluded.", A_ORACLE, A_BUILD)
p("C02", "monitored executions on problems with a known model", RUN + "Only problems for which a model is known (planted, enumerated or found by the checker, and re-checked) are run. Non-trivial: distinct problem and configuration that ended with a verdict.",
  "An UNSAT answer is judged against an explicit model, so alarms are certain.", A_ORACLE, A_BUILD)
p("C03", "liveness monitor on logical time (search iterations counted through the clock reads)", RUN + "Non-trivial: distinct problem and configuration whose run backtracked at least once. A run that exceeds its step budget, crashes, prints no verdict or several, or says TIMEOUT with a frozen clock is a violation; a slow but progressing run on a big problem is only counted.",
  "Non-termination is judged by a step budget on small problems (400 000 iterations where a few hundred are normal), never by wall-clock time alone.", A_BUILD)
p("C04", "differential (metamorphic) monitoring over configurations and rewritings", RUN + "Each problem is run as generated and after compositions of meaning-preserving rewritings in several configurations and all verdicts are compared. Non-trivial: a compared run that backtracked.",
  "Needs no model of the solver; a defect that shifts all configurations and rewritings alike is not seen here (C02/C05 see it).", A_BUILD)
T = RUN + "The solver's event log is parsed and replayed event by event on an independent model of the assignment, which judges every event. "
p("C05", "trace monitor on the event log; learned clauses checked for entailment", T + "Non-trivial: a distinct event sequence with at least one learned clause; each was checked for being false, asserting, and entailed (against all models, by propagation, or by search).",
  "Entailment is decided exactly on enumerable problems, elsewhere by reverse unit propagation or bounded search; undecided ones are counted, not alarmed.", A_LOG, A_ORACLE, A_BUILD)
p("C06", "trace monitor: reason of every forced assignment", T + "Non-trivial: a distinct event sequence with at least one forced assignment or conflict.",
  "Each forced assignment, entailment and conflict of every sampled run is judged.", A_LOG, A_BUILD)
p("C07", "trace monitor: level discipline and state restoration", T + "Non-trivial: a distinct event sequence with at least one backtrack. Levels, backjump targets and the replayed final state (compared with the printed model) are judged.",
  "Hidden state is seen through its effect on later events and on the printed model.", A_LOG, A_BUILD)
p("C08", "trace monitor: no open propagation at a decision", T + "Every state at which a decision is taken, and every final SAT state, is scanned over all input and learned clauses. Non-trivial: distinct event sequence with decisions and forced assignments.",
  "Exact on the runs seen.", A_LOG, A_BUILD)
p("C09", "trace monitor and counters: restart schedule", T + "Non-trivial: a distinct event sequence with at least one restart; counters must satisfy restarts = floor(backtracks/k) and the replayed state after each restart must be exactly level 0.",
  "Exact on the runs seen.", A_LOG, A_BUILD)
p("C10", "fault injection on the clock: a virtual clock jumps past the limit at every/random search steps", RUN + "The clock is interposed: it stands still, advances, or jumps past the limit at a chosen search step. Non-trivial: distinct problem, configuration and clock whose limit passed during the search, or which ran 10 or more looks at a clock that ended below the limit.",
  "Logical time: only the injected clock decides, so machine load cannot cause alarms.", A_BUILD, "the programs read the time through gettimeofday/clock_gettime/time/clock/getrusage/times (all interposed)")
p("C11", "counters compared with the event log of the same run", T + "Non-trivial: a distinct event sequence of more than two events whose log the monitor could read completely.",
  "Exact on the runs seen.", A_LOG, A_BUILD)
p("C12", "in-process monitor of verifyModel() with injected right and wrong assignments, plus every verification line printed", RUN + "A harness linked with the real sources builds the formula from a file, injects complete assignments (all of them on small problems) and compares verifyModel()'s words with a direct evaluation; whole-program verification lines are compared with the printed model. Non-trivial: distinct pair of problem and assignment put to the check (models and non-models), or distinct SAT run whose own verification line was judged.",
  "If the internal interface changes so that the harness no longer compiles, that part says 'inconclusive' and only the whole-program part decides.", A_ORACLE, A_BUILD)
p("C13", "differential monitoring of layouts; model enumeration through blocking clauses", RUN + "Problems are written in many layouts (comments, blanks, tabs, header keyword, missing 0, very long lines) and must give the same answer, model and counts as the plain one; on small problems all models are enumerated with blocking clauses appended. Non-trivial: distinct layout text whose answers were compared, or distinct problem whose models were all enumerated.",
  "Layouts are those the README and the stored instances use.", A_ORACLE, A_BUILD)
p("C14", "output monitor: converted file parsed and compared clause by clause", "Random DIMACS CNFs (unused variables, repeated literals, empty clauses, comments, blank lines, SATLIB trailer, long clauses). Non-trivial: distinct CNF text with at least two variables and one clause whose conversion was compared clause by clause.",
  "Exact on the files seen; clause order and literal order are not judged, only the multiset of meanings.", "the checker's parsers for the two formats are correct")
p("C15", "output monitor: models of the encoding enumerated and projected", "Random finite problems of all domain sizes. The CNF is parsed, its header compared, and its models enumerated by a counting search and projected on the value variables; for big inputs samples of models and non-models are tested by propagation. Non-trivial: distinct input text with at least one variable and one clause.",
  "Exact on enumerable inputs.", A_ORACLE)
p("C16", "output monitor: models of the encoding compared with the input's", "As C15, for the quadratic encoding. Non-trivial: distinct input text with at least one variable and one clause.",
  "Exact on enumerable inputs.", A_ORACLE)
p("C17", "output monitor under a controlled clock (generator seed)", "Every option combination at random, thousands of clock values (the generator seeds itself from the clock). Non-trivial: distinct output text.",
  "Counts, distinctness and ranges exact; satisfiability exact by the checker's search.", A_ORACLE, "the generator takes its randomness from the clock only")
p("C18", "output monitor under a controlled clock (generator seed)", "As C17 for boolean problems.", "Counts, distinctness and ranges exact; satisfiability exact by the checker's search.", A_ORACLE, "the generator takes its randomness from the clock only")
p("C19", "differential monitoring of tool chains", RUN + "Chains of -genben, -linenc, -b2f of random length, each end solved; the verdict is compared with the direct one and models are translated back and evaluated. Non-trivial: distinct chain and problem with a verdict at the end.",
  "Judges compositions, not single tools.", A_ORACLE, A_BUILD)
SAN = "gcc and clang builds with AddressSanitizer and UndefinedBehaviorSanitizer, a libstdc++ debug-mode build and valgrind memcheck run the workload; any report, abnormal end or crash is a violation. "
p("C20", "compiler sanitizers, libstdc++ debug mode, valgrind memcheck", RUN + SAN + "Non-trivial: distinct problem, configuration and build with at least two variables whose run looked at the clock more than four times (it searched).", "Covers the paths executed.", A_SAN)
p("C21", "compiler sanitizers, libstdc++ debug mode, valgrind memcheck", SAN + "Inputs as in C14-C18. Non-trivial: distinct command and input text per build.", "Covers the paths executed.", A_SAN)
p("C22", "differential monitoring across builds, uninitialised-memory patterns, environments and address layouts", RUN + "The same command runs in six builds of src/ and four of bitvec/, with junk environments, other address layouts and perturbed malloc; everything printed except times (and each converter's output file) must be identical. Non-trivial: distinct problem, command and build that backtracked or wrote a file.",
  "Exact comparison; depends on the time-valued lines being recognised.", A_BUILD)
p("C23", "differential monitoring with and without -verbose", RUN + "Non-trivial: distinct problem and configuration whose log had something to add.", "Exact comparison of answer, model, counters and verification lines.", A_BUILD)
p("C24", "monitored executions; printed value sets evaluated on the input file", RUN + "Domains up to 64. Non-trivial: distinct problem and configuration with a SAT answer.", "Every SAT answer seen is judged exactly: a clause must hold for every choice of values from the sets.", A_ORACLE, A_BUILD)
p("C25", "monitored executions on problems with a known model; learned clauses checked for entailment", RUN + "Non-trivial: distinct problem and configuration whose run backtracked.", "UNSAT answers are judged against an explicit model; learned clauses against all models or by propagation/search.", A_ORACLE, A_LOG, A_BUILD)
p("C26", "liveness monitor on logical time; counters", RUN + "Domains on both sides of 64. Non-trivial: distinct problem and configuration whose run backtracked, or that was refused.", "As C03.", A_BUILD)
p("C27", "compiler sanitizers, libstdc++ debug mode, valgrind memcheck", RUN + SAN + "Non-trivial: distinct problem, configuration and build whose run searched.", "Covers the paths executed.", A_SAN)
p("C28", "fault injection on files; before/after monitor of the scratch directory", "Every mode with missing or unreadable inputs, unwritable outputs, missing arguments, and ordinary runs, as an unprivileged user in a scratch directory whose whole content and metadata is recorded before and after. Non-trivial: distinct command line and fault.",
  "Exact on the commands seen.", A_BUILD)
p("C29", "differential monitoring over option orders; behavioural witnesses per option", RUN + "Permuted option lists must print the same; each option must show its documented effect (first decision has the heuristic's best score, restart schedule, limits). Non-trivial: distinct option list.",
  "Exact comparison; the heuristics are recomputed from README's and the code's documented scores for the first decision only.", A_ORACLE, A_BUILD)
p("C30", "monitored decision trace: activities recomputed for every decision", T + "Non-trivial: a distinct event sequence with more than one decision, each scored against every open candidate.",
  "Exact up to rounding; ties are free. The score definitions are those of the code's comments and the project's wiki names.", A_LOG, A_BUILD)
p("C31", "monitored conflict analysis: every resolution step recomputed", T + "Non-trivial: a distinct event sequence with at least one resolution step followed.",
  "Exact on the steps printed; the reason of each literal is taken from the replay, not from the analysis. Ties between literals falsified by one assignment are free.", A_LOG, A_BUILD)
p("C32", "fault injection on file transfers, at every byte offset, with an outcome monitor", "The program's transfers on the files it opened are cut short, interrupted or made to fail from a random byte on (interposed read/write calls, whose own counters confirm that the fault struck), and folders and a full device are put in place of files. Each faulty run is compared with an undisturbed one. Non-trivial: distinct command, input and fault that struck.",
  "Exact on the faults that struck; a fault the program never met is counted as undisturbed and must change nothing.", A_BUILD)
p("C33", "printed times compared with a virtual clock that the monitor drives", RUN + "The clock is interposed: it advances by a chosen amount at every look and at every file transfer, and may jump while the file is read or during the search; the monitor knows the time at the first and last look. Non-trivial: distinct problem, configuration and clock of a run on which time passed and whose three times were read.",
  "Exact up to the few looks at the clock outside the timed parts and the four printed decimals.", A_BUILD, "the programs read the time through gettimeofday/clock_gettime/time/clock/getrusage/times (all interposed)")
p("C34", "allocation tracking with reachability tracing during the search", RUN + "Every allocation and release is recorded by interposed malloc functions; at looks 6, 8, 16, 32, ... at the clock the heap is traced from registers, stack and static data, as a conservative garbage collector would. Blocks that nothing points to must not become more as the search goes on, and the allocated total must stay within a generous multiple of the problem and of the conflicts met. Non-trivial: distinct problem and configuration whose search was traced at step 32 or later.",
  "A block that a stray word happens to point to counts as reachable, so a loss can be missed, never invented. Five or more lost blocks are needed for an alarm.", A_BUILD)
plan = {k: {"rule": v[1], "assumptions": v[3]} for k, v in P.items()}
json.dump(plan, open(os.path.join(V, "plan.json"), "w"), indent=1)
man = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": [],
       "notes": "Runtime monitoring and sanitizers only. No hooks in /repo: events come from the program's own -verbose log, its output, its files and interposed clock functions. setup_cmd only warms the build cache; every check builds what it needs from /repo's working tree."}
for k in sorted(P):
    man["checks"].append({"property": k, "quick_cmd": "python3 check.py %s" % k, "thorough_cmd": "python3 check.py %s --tier thorough" % k,
                          "evidence_file": "evidence/%s.json" % k, "technique": P[k][0], "level": "exploration", "level_note": P[k][2]})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "checks")
