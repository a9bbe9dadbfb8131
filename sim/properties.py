"""Which scenarios decide which property, and for how long."""
COMPONENTS = {
  "real": "all of /repo/src/candy except gbd (command-line front end, parser, solver core, simplification, heuristics, gate analysis, random simulation, RSIL, RSAR, minimiser, proof writer and checker, IPASIR), compiled from the working tree; zlib, libstdc++",
  "stub": "threads, mutexes and timers (baton scheduler), clocks and CPU time, signals, input/proof files (in-memory with faults), memory statistics, heap (deterministic arenas with garbage, guard pages, failing allocations)"}
CLI = "A seed draws a formula (random, planted, pigeon hole, parity, circuits, degenerate clauses), a solver configuration, an environment (clock speed, heap garbage, guard pages) and faults, and runs the real command-line program once in the simulator."
IPA = "A seed draws a configuration and a history of interface calls (adding clauses over old and new variables, assumptions, solve calls, queries, callbacks set and removed, termination at a seeded poll) and plays it on the real library next to a reference model."
POR = "A seed draws a formula, a number of threads, options, signals and a thread schedule (seeded preemption at accesses to shared memory, locks and timers) and runs the real portfolio program once."
ISO = "A seed draws several call histories, each for a solver of its own, and plays them interleaved in threads or in one thread; each history is also played alone and the logs must be identical."
PRF = "A seed draws a formula, a configuration and faults on the proof disk (torn write and crash, kill at a step, write errors, short writes, signals, failing open) and runs the real command-line program with proof output; the proof is checked forward against the input."
CHKR = "A seed draws a formula and a proof file (written by the real solver on this or another formula, or made up), damages it (torn, lines dropped, repeated, reordered, literals changed, garbage, compressed, read faults) and runs the real checker on it."
ING = "A seed draws a formula and a layout (white space, comments, block borders, compression, file or standard input), the sizes of the reads and, for broken input, damage to the text, the compressed data or the disk, and runs the real reader or command line on it."
GAT = "A seed draws a formula (circuits with all kinds of gates, one-sided or redundant encodings, damaged circuits, others), a recognition method, a number of tries and clock jumps, and runs the real gate analysis (library call and -gate-stats)."
MIN = "A seed draws a formula, one of its models (from the solver or arbitrary) and options, and runs the real minimiser."
REP = "A seed draws a formula and a command line and runs the real program twice in different simulated environments."
AIG = "A seed draws a formula (circuits with all kinds of gates, damaged circuits, others) and faults (failing or short reads, clock jumps, failing allocations, heap garbage) and runs the real converter once."
RSI = "A seed draws a circuit, a gate recognition, a source of randomness (honest, stuck, repeating, correlated, sparse, the real generators), clause order, compression schedule, gate filter, numbers of rounds and runs, clock jumps and time limits, and runs the real random simulation."
REF = "A seed draws a circuit, true and false conjectures about it, refinement heuristics that withdraw arbitrary variables at arbitrary steps or count inputs, and runs the real refinement strategy step by step and the real abstraction refinement solver."
OPT = "A seed draws a command line (options with values in, at and out of their ranges, malformed values, repeated, negated, unknown and misplaced settings, file names in any position), heap contents and the speed of the clock, and runs the real parser, or the whole program on a formula."
PROPS = {
  "C01": {"scenarios": [("step", "cli", 1)], "rule": CLI},
  "C02": {"scenarios": [("step", "cli", 1)], "rule": CLI},
  "C03": {"scenarios": [("step", "cli", 1), ("step", "limits", 1)], "rule": CLI},
  "C04": {"scenarios": [("race", "portfolio", 1)], "rule": POR},
  "C05": {"scenarios": [("race", "portfolio", 1)], "rule": POR},
  "C06": {"scenarios": [("race", "portfolio", 1)], "rule": POR},
  "C07": {"scenarios": [("step", "ipasir", 2), ("step", "ipasirbig", 1)], "rule": IPA},
  "C08": {"scenarios": [("step", "ipasir", 2), ("step", "ipasirbig", 1)], "rule": IPA},
  "C09": {"scenarios": [("step", "ipasir", 2), ("step", "ipasirbig", 1)], "rule": IPA},
  "C10": {"scenarios": [("step", "ipasir", 2), ("step", "ipasirbig", 1)], "rule": IPA},
  "C11": {"scenarios": [("race", "isolation", 1)], "rule": ISO},
  "C12": {"scenarios": [("step", "proof", 1)], "rule": PRF},
  "C13": {"scenarios": [("step", "proof", 1)], "rule": PRF},
  "C14": {"scenarios": [("step", "checker", 2), ("step", "proof", 1)], "rule": CHKR},
  "C15": {"scenarios": [("step", "ingest", 1)], "rule": ING},
  "C16": {"scenarios": [("step", "badinput", 1)], "rule": ING},
  "C17": {"scenarios": [("step", "gates", 1)], "rule": GAT},
  "C18": {"scenarios": [("step", "minimize", 1)], "rule": MIN},
  "C19": {"scenarios": [("step", "repro", 1)], "rule": REP},
  "C20": {"scenarios": [("step", "aig", 1)], "rule": AIG},
  "C21": {"scenarios": [("step", "rsim", 1)], "rule": RSI},
  "C22": {"scenarios": [("step", "refine", 1)], "rule": REF},
  "C23": {"scenarios": [("step", "options", 1)], "rule": OPT},
}
