#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def m(name, where): return {"name": name, "where": where}
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": mech, "observe_at": observe, "hook_needed": None}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "src/candy/"
prop("C01", "The command-line solver's verdict is right",
     "Whenever the single-threaded command-line solver prints 's SATISFIABLE' the formula it was given has a model, and whenever it prints 's UNSATISFIABLE' it has none; a complete run that nothing interrupts prints exactly one status line, with exit code 10, 20 or 0 to match. This holds for every combination of documented solver options (branching heuristics, pre- and inprocessing, restarts, clause-database reduction, gate-based modes), and whatever the speed of the machine, the clocks and the content of fresh memory are.",
     ["inputs", "configurations", "fault_sequences"], "all formulas, all option combinations, all timings of clock-dependent phases, signals, limits and memory contents",
     "The tests run a few dozen fixed files with few option sets; wrong answers need particular interleavings of learning, restarts, reductions, simplification and time-outs.",
     [S + "Main.cc", S + "core/Solver.h", S + "core/CNFProblem.cc", S + "core/Trail.h", S + "core/clauses/ClauseDatabase.h", S + "core/clauses/ClauseAllocator.h", S + "systems/propagate/Propagate.h", S + "systems/propagate/StaticPropagate.h", S + "systems/learning/ConflictAnalysis.h", S + "systems/ReduceDB.h", S + "systems/Restart.h", S + "systems/branching/LRB.h", S + "systems/branching/VSIDS.h", S + "systems/branching/VSIDSC.h", S + "systems/branching/rsil/BranchingHeuristics.h", S + "simplification/Subsumption.h", S + "simplification/VariableElimination.h", S + "rsar/ARSolver.cc", S + "gates/GateAnalyzer.cc", S + "randomsimulation/Conjectures.cc"],
     [m("CDCL search: propagation, conflict analysis, backtracking, restarts", S + "core/Solver.h"), m("clause memory and its reorganisation", S + "core/clauses/ClauseAllocator.h"), m("subsumption and bounded variable elimination", S + "simplification/"), m("status line and exit code", S + "Main.cc")],
     ["standard output", "exit code"])
prop("C02", "The model printed by the command line satisfies the formula",
     "When a model is requested and the answer is SATISFIABLE, the 'v' line holds exactly one literal or 'undefined' marker for each variable and no literal contradicts another, and the printed literals satisfy every clause of the input, including clauses over variables that simplification eliminated. A minimised model still satisfies the formula (or, where it only keeps the clauses of relevant gates, can be extended to a model).",
     ["inputs", "configurations", "fault_sequences"], "all satisfiable formulas, option combinations (including model minimisation), timings and memory contents",
     "The tests check models of a few files; reconstruction errors depend on which variables happen to be eliminated, re-assigned or left undefined in a run.",
     [S + "Main.cc", S + "core/CandySolverResult.h", S + "core/Solver.h", S + "simplification/VariableElimination.h", S + "minimizer/Minimizer.cc", S + "gates/GateProblem.h"],
     [m("extension of the model over eliminated variables", S + "simplification/VariableElimination.h"), m("model store", S + "core/CandySolverResult.h"), m("model minimisation", S + "minimizer/Minimizer.cc")], ["the 'v' line and the minimised model on standard output"])
prop("C03", "The command-line solver ends properly under limits, signals and failures",
     "A run that receives an interrupt signal or passes its time or memory limit stops within a bounded amount of further work, still prints one status line and never a wrong answer (the answer is INDETERMINATE unless it was already decided); an interrupt that arrives after the search has ended quits at once without a wrong answer. No run crashes, corrupts its heap or loops for ever, whatever the signal timing, clock jumps, memory growth, full standard output or failing allocations (a failed allocation may only end the process, without a false answer).",
     ["inputs", "configurations", "crash_points", "fault_sequences"], "all points at which a signal, limit, clock jump or failed allocation can occur",
     "No test interrupts a run, exhausts a limit or fails an allocation.",
     [S + "Main.cc", S + "utils/MemUtils.h", S + "utils/Runtime.cc", S + "core/Solver.h", S + "systems/Restart.h"],
     [m("interrupted flag, limits and signal handlers", S + "Main.cc"), m("termination callback polled in the search", S + "core/Solver.h")], ["standard output", "exit code", "number of steps after the request"])
prop("C04", "In portfolio mode status, answer and exit code are right and consistent",
     "With several solver threads the program prints exactly one status line, which is a right answer for the formula (INDETERMINATE only after an interrupt or a limit), and its exit code matches it, however the threads are scheduled and whenever they finish. Output of threads that are still running never splits or garbles the status line.",
     ["schedules", "inputs", "configurations", "fault_sequences"], "all thread interleavings, including two threads that finish at the same time, and signals during any phase",
     "One test runs the portfolio; the outcome of a race cannot be sampled by one schedule.",
     [S + "Main.cc", S + "core/Solver.h", S + "frontend/CandyBuilder.cc"], [m("first answer wins, under a mutex", S + "Main.cc"), m("per-thread diversification of the global options", S + "Main.cc")], ["standard output", "exit code"])
prop("C05", "The portfolio prints the winner's model, and it satisfies the formula",
     "When the portfolio answers SATISFIABLE and a model is requested, one complete 'v' line is printed whose literals satisfy every input clause, even while the other threads continue to search, print and finish.",
     ["schedules", "inputs", "configurations"], "all thread interleavings and satisfiable formulas",
     "Mixing the result of one thread with the solver of another needs a schedule no test controls.",
     [S + "Main.cc", S + "core/CandySolverResult.h", S + "core/Solver.h"], [m("result and solver are published together", S + "Main.cc")], ["the 'v' line on standard output"])
prop("C06", "The portfolio always ends, without crash or deadlock",
     "Under every fair schedule the program with several solver threads ends after one thread has found an answer or an interrupt arrived: no deadlock, no lost wake-up, no crash at exit while threads still run, no heap corruption.",
     ["schedules", "inputs", "configurations", "fault_sequences"], "all fair thread interleavings, thread counts and signal timings",
     "Crashes at exit and lost updates depend on the schedule.",
     [S + "Main.cc", S + "core/Solver.h", S + "core/clauses/ClauseAllocator.h"], [m("waiting loop, detached threads and exit", S + "Main.cc")], ["process end"])
prop("C07", "Every IPASIR solve call answers for the current clauses and assumptions",
     "For every history of adding clauses, assuming literals and solving, a solve call that returns 10 or 20 is right for the conjunction of all clauses added so far and the assumptions given since the previous solve call; assumptions hold for one call only. It returns 0 only after its terminate callback asked for it, and no history crashes the library.",
     ["histories", "inputs", "configurations"], "all sequences of interface calls, with any in-/preprocessing configuration and any point of termination",
     "The tests use a handful of scripted histories; errors come from state carried over between calls (eliminated variables, learnt clauses, levels, pending units).",
     [S + "ipasir/ipasircandy.cc", S + "core/Solver.h", S + "core/Trail.h", S + "core/clauses/ClauseDatabase.h", S + "simplification/VariableElimination.h", S + "simplification/Subsumption.h"],
     [m("incremental solve with assumptions", S + "core/Solver.h"), m("undoing eliminations when a variable is used again", S + "simplification/VariableElimination.h")], ["return value of the solve call"])
prop("C08", "The IPASIR model satisfies all clauses and assumptions",
     "After a solve call returned 10, the values reported for all literals are consistent with each other, satisfy every clause added so far, including clauses over eliminated and re-introduced variables, and satisfy every assumption of that call.",
     ["histories", "inputs", "configurations"], "all histories that end in a satisfiable call", "Models after elimination and re-introduction depend on the whole history.",
     [S + "ipasir/ipasircandy.cc", S + "core/CandySolverResult.h", S + "core/Solver.h", S + "simplification/VariableElimination.h"], [m("model extension", S + "simplification/VariableElimination.h"), m("value query", S + "ipasir/ipasircandy.cc")], ["ipasir_val"])
prop("C09", "Failed assumptions form an unsatisfiable core",
     "After a solve call returned 20, the assumptions reported as failed are a subset of the assumptions of that call, and together with the clauses added so far they are unsatisfiable; when the clauses alone are unsatisfiable no false core is needed and every later call returns 20 as well.",
     ["histories", "inputs", "configurations"], "all histories that end in an unsatisfiable call, all sets and orders of assumptions including contradicting and repeated ones", "Cores are tested on a few fixed inputs only.",
     [S + "ipasir/ipasircandy.cc", S + "systems/learning/ConflictAnalysis.h", S + "core/Solver.h"], [m("analysis of the final conflict", S + "systems/learning/ConflictAnalysis.h")], ["ipasir_failed"])
prop("C10", "IPASIR callbacks: learnt clauses are implied, termination is prompt and harmless",
     "Every clause handed to the learn callback respects the length limit, is well formed and is implied by the clauses added so far; a solver whose terminate callback asks to stop returns within bounded work, with 0 or a right answer. Both callbacks are called only during a solve call, with the state pointer they were registered with, and can be set, replaced and removed at any time.",
     ["histories", "inputs", "configurations", "fault_sequences"], "all histories, all points at which termination is requested", "No test checks the content of learnt clauses or terminates in the middle of a search.",
     [S + "ipasir/ipasircandy.cc", S + "core/Solver.h", S + "systems/learning/ConflictAnalysis.h"], [m("learn and terminate callbacks", S + "core/Solver.h")], ["callback arguments", "return value of the solve call"])
prop("C11", "Solver instances do not influence each other",
     "Several IPASIR solvers used in one process, interleaved in one thread or each in a thread of its own, behave exactly as each would alone: same answers, models, failed assumptions, learnt clauses and callbacks.",
     ["schedules", "histories", "inputs"], "all interleavings of the calls and instructions of several solvers", "The tests never use two solvers at once.",
     [S + "ipasir/ipasircandy.cc", S + "core/Solver.h", S + "core/clauses/ClauseAllocator.h", S + "mtl/Stamp.h", S + "frontend/CLIOptions.cc"], [m("all solver state is held per instance; options are only read", S + "core/Solver.h")], ["complete log of calls, answers and callbacks of each instance"])
prop("C12", "Certified UNSAT answers come with a valid, complete DRAT proof",
     "With certified output and one solver thread, every line written is a clause that is RUP or RAT with respect to the formula and the preceding lines, or a deletion, and when the answer is UNSATISFIABLE the proof derives the empty clause. This holds with every pre-/inprocessing, branching, minimisation and gate-based configuration.",
     ["inputs", "configurations"], "all formulas and option combinations (single-threaded)", "The acceptance tests check proofs of a few files with default options.",
     [S + "core/clauses/Certificate.h", S + "core/clauses/ClauseDatabase.h", S + "core/Solver.h", S + "simplification/Subsumption.h", S + "simplification/VariableElimination.h", S + "minimizer/Minimizer.cc", S + "gates/GateAnalyzer.cc"],
     [m("every clause created or removed is logged", S + "core/clauses/ClauseDatabase.h"), m("proof writer", S + "core/clauses/Certificate.h")], ["the proof file"])
prop("C13", "Disk faults and crashes leave a valid proof prefix and the answer untouched",
     "If writing the proof is cut off (crash or kill at any point, interrupt, full disk, I/O error, short writes, file that cannot be opened), every complete line that reached the file before the fault is still a valid proof step in order, and the verdict, status line and process end are the same kind as without proof output: never a wrong answer, crash or hang.",
     ["crash_points", "fault_sequences", "inputs", "configurations"], "all crash points and write faults", "No test injects a fault.",
     [S + "core/clauses/Certificate.h", S + "core/clauses/ClauseDatabase.h", S + "Main.cc"], [m("line-wise flushed proof output", S + "core/clauses/Certificate.h")], ["the proof file after the fault", "standard output", "exit code"])
prop("C14", "The built-in proof checker is sound and accepts the solver's own proofs",
     "The built-in proof checker reports 'verified' only for unsatisfiable formulas whose proof file really refutes them, never for a proof file that is torn, corrupted, truncated, reordered or made up for a satisfiable formula, and it accepts every complete proof the solver itself wrote for its formula. No content of a proof file crashes it.",
     ["inputs", "fault_sequences", "configurations"], "all formulas and all contents of the proof file", "The tests only feed it correct proofs of a few files.",
     [S + "core/DRATChecker.cc", S + "core/DRATChecker.h", S + "utils/StreamBuffer.cc", S + "Main.cc"], [m("RUP and RAT check of each line", S + "core/DRATChecker.cc")], ["result of the checker", "standard output"])
prop("C15", "Reading a formula does not depend on layout, compression or chunking",
     "Every well-formed DIMACS input is read as exactly its clauses, whatever its white space, line breaks, comments, size, plain or (multi-part) gzip compression, file or standard input, and however the operating system splits the reads.",
     ["inputs", "fault_sequences"], "all layouts, positions relative to internal buffer borders and read sizes", "Test files are smaller than the read buffer and read in one piece.",
     [S + "utils/StreamBuffer.cc", S + "utils/StreamBuffer.h", S + "core/CNFProblem.cc"], [m("refilling the buffer without cutting a token", S + "utils/StreamBuffer.cc")], ["the clauses read", "the answer"])
prop("C16", "Broken input and failing disks are reported, never read as another formula",
     "A malformed token, a number out of range, a clause or header cut off by the end of the file, a truncated or damaged compressed file, a failing read or a file that cannot be opened ends in a parser error (message, exit code 1, no status line); in no case is a different formula than the one in the file solved silently, and no content crashes the reader or makes it loop.",
     ["inputs", "fault_sequences"], "all byte-level corruptions, truncations and read faults at any point", "A few malformed strings are tested; no read fault and no truncated file is.",
     [S + "utils/StreamBuffer.cc", S + "core/CNFProblem.cc", S + "Main.cc"], [m("parser exceptions", S + "utils/StreamBuffer.cc")], ["the clauses read", "standard output", "exit code"])
exec(open(os.path.join(HERE, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "meta_more.py")) else None

TECH = "deterministic simulation with fault injection"
CHK = {}
def chk(id, tech, note): CHK[id] = (tech, note)
AS = "Seeded search, not exhaustive: it shows that no explored seed violates the property. Trusted: the simulator's seams, the reference oracles, g++-10 and its libraries."
chk("C01", "seeded simulation of whole command-line runs; verdict compared with exact model sets or an independent CDCL solver", AS)
chk("C02", "seeded simulation of whole command-line runs; printed model evaluated on the input", AS)
chk("C03", "seeded simulation with signals, limits, clock jumps, memory growth and failing allocations at seeded points; bounded-steps liveness", AS + " Liveness is stated as a number of basic blocks, except for -use-vsidsc.")
chk("C04", "seeded thread-schedule search (preemption at shared accesses) of the portfolio; consistency of status, answer and exit code", AS + " Interleavings are sequentially consistent; weak memory effects are not simulated.")
chk("C05", "seeded thread-schedule search of the portfolio; printed model evaluated on the input", AS + " Interleavings are sequentially consistent.")
chk("C06", "seeded thread-schedule search of the portfolio with signals; bounded-steps liveness, crash, deadlock and heap-canary detection", AS + " Interleavings are sequentially consistent.")
chk("C07", "seeded call histories with termination faults against an executable reference model", AS)
chk("C08", "seeded call histories with termination faults; reported values evaluated on the reference state", AS)
chk("C09", "seeded call histories with termination faults; failed assumptions re-solved by the reference", AS)
chk("C10", "seeded call histories with termination faults; learnt clauses checked for implication, callbacks for discipline and promptness", AS)
chk("C11", "seeded interleaving of several solvers (threads and single thread); history refinement against solo runs", AS + " Interleavings are sequentially consistent.")
chk("C12", "seeded simulation with in-memory proof disk; forward DRAT check of the proof against the input", AS)
chk("C13", "seeded crash, kill, signal and write-fault injection on the proof disk; forward DRAT check of what survived", AS)
chk("C14", "seeded proofs damaged by disk faults and mutation; soundness against exact model sets, acceptance against a reference DRAT check", AS)
chk("C15", "seeded layouts, compression and read chunking; clauses read compared with a reference reader", AS)
chk("C16", "seeded corruption, truncation and read-fault injection; reference reader decides error or formula", AS)
exec(open(os.path.join(HERE, "tools", "meta_checks.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "meta_checks.py")) else None
NA = []
exec(open(os.path.join(HERE, "tools", "meta_na.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "meta_na.py")) else None
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
M = {"version": 1, "setup_cmd": "python3 sim/build.py step && python3 sim/build.py race",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": TECH + ": " + CHK[p["id"]][0], "level": "exploration", "level_note": CHK[p["id"]][1]} for p in P if p["id"] in CHK],
     "not_applicable": NA,
     "notes": "No hooks in /repo: all seams are link-time (--wrap, own allocator, instrumented build of the unmodified sources). See DESIGN.md. Replay a violation with: python3 check.py --replay FILE."}
json.dump(M, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
for p in P:
    for w in p["anchors"]["files"]:
        if not os.path.exists(os.path.join("/repo", w)): print("missing anchor", p["id"], w)
    if len(p["title"]) > 80: print("title", p["id"])
