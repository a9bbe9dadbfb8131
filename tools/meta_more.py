prop("C17", "Gate analysis finds only real gates and accounts for every clause",
     "For every formula and gate-recognition setting, the result splits the clauses into roots, gate definitions and remainder without loss or duplicate; the gates form a hierarchy whose clauses leave every input assignment possible, the output of a gate used in both polarities is a function of its inputs, and gates treated as monotone really are used in one polarity only; in a fully encoded circuit without sharing no gate is missed. The counts and statistics (also those of -gate-stats) agree with that structure, and a recognition time-out at any moment only shortens the list.",
     ["inputs", "fault_sequences"], "all formulas, recognition methods, numbers of tries and time-out moments", "The tests count gates for a few textbook encodings without duplicates, damage or time-outs.",
     [S + "gates/GateAnalyzer.cc", S + "gates/GateAnalyzer.h", S + "gates/GateProblem.h", S + "gates/BlockList.h", S + "Main.cc"],
     [m("blocked sets and their cached counts", S + "gates/BlockList.h"), m("patterns and semantic checks", S + "gates/GateAnalyzer.cc")], ["the analysis result (public API)", "output of -gate-stats"])
prop("C18", "Minimised models are irredundant, minimum or projected as requested",
     "A minimised model is a part of the model: it satisfies every clause and no literal of it can be left out; with 'minimal' no smaller part of the model satisfies all clauses; with 'project' it contains no gate outputs. Pruned or not, projected or not, any values of the variables left open that are inputs of the recognised circuit can be completed to a model of the formula.",
     ["inputs", "fault_sequences"], "all formulas, models and option combinations", "The tests minimise models of at most two gates.",
     [S + "minimizer/Minimizer.cc", S + "minimizer/Minimizer.h", S + "gates/GateProblem.h"],
     [m("iterated solving with assumptions", S + "minimizer/Minimizer.cc"), m("cardinality encoding", S + "minimizer/Minimizer.h"), m("pruning by don't-care gates", S + "gates/GateProblem.h")], ["minimised model (public API and 'c Minimized-Model' line)"])
prop("C19", "Runs are reproducible",
     "With one solver thread and without time or memory limits, the same input and options give the same verdict, model, proof and search statistics in every run: nothing depends on the clock, the speed of the machine, the base address or the content of fresh memory, memory statistics or the sizes of the reads.",
     ["inputs", "configurations"], "all inputs, options and environments", "The tests run once, on one machine.",
     [S + "core/Solver.h", S + "core/clauses/ClauseAllocator.h", S + "systems/Restart.h", S + "randomsimulation/Randomization.cc", S + "utils/FastRand.h", S + "Main.cc"],
     [m("seeded pseudo-random numbers", S + "utils/FastRand.h"), m("search heuristics without clocks", S + "core/Solver.h")], ["standard output", "proof file", "exit code"])
prop("C20", "cnf2aig prints a circuit equivalent to the formula",
     "For every readable formula the converter prints one well-formed, acyclic and-inverter graph whose inputs are variables of the formula, and the graph is true for exactly those input values that can be completed to a model of the formula. For an input that cannot be read it prints no circuit.",
     ["inputs", "fault_sequences"], "all formulas and read faults", "There are no tests of the converter.",
     [S + "cnf2aig.cc", S + "gates/AIGProblem.h", S + "gates/GateAnalyzer.cc"],
     [m("encoding of gates and remaining clauses as and-gates", S + "gates/AIGProblem.h")], ["circuit on standard output"])
prop("C21", "Random simulation conjectures exactly what the simulated values show",
     "For every recognised circuit, source of randomness, clause order, gate filter and number of rounds, the outputs conjectured to be constant are exactly those that never changed and the conjectured equivalences group exactly the outputs that always agreed or always disagreed, each gate output having been computed from its defining clauses. Nothing that holds for all inputs is ever missed, conjecture and gate filters remove exactly what they are asked to remove, and the simulation ends, reporting that it ran out of time if and only if its limit was exceeded.",
     ["inputs", "fault_sequences"], "all circuits, random sources, filters, schedules and time-out moments", "The tests simulate a few small, fully encoded circuits with good random numbers and no filters.",
     [S + "randomsimulation/RandomSimulator.cc", S + "randomsimulation/Partition.cc", S + "randomsimulation/ClauseOrder.cc", S + "randomsimulation/Propagation.cc", S + "randomsimulation/Conjectures.cc", S + "randomsimulation/Randomization.cc", S + "frontend/RandomSimulationFrontend.h"],
     [m("bit-parallel propagation in clause order", S + "randomsimulation/Propagation.cc"), m("partition refinement by hashing, with compression", S + "randomsimulation/Partition.cc"), m("gate and conjecture filters", S + "randomsimulation/ClauseOrder.cc")], ["conjectures returned by the simulator and by the front end"])
prop("C22", "Abstraction refinement is exact about what it still assumes",
     "Whatever conjectures it is given, true or false, and whatever its heuristics withdraw in each step, the clauses enabled after a step state exactly the backbones and equivalences still believed: no withdrawn variable is constrained, no remaining equivalence is lost, and every clause has its own fresh assumption variable. The input-count heuristic withdraws each gate output in the step given by the number of inputs it depends on, and the abstraction refinement solver's answers and models are right for the formula.",
     ["inputs", "histories", "configurations"], "all circuits, conjectures, heuristics and histories of refinement steps", "The tests refine a few equivalences of two or three literals by fixed steps.",
     [S + "rsar/ARSolver.cc", S + "rsar/ApproximationState.cc", S + "rsar/Refinement.cc", S + "rsar/Heuristics.cc"],
     [m("cycles of implications patched on removal", S + "rsar/ApproximationState.cc"), m("assumption literals switch approximation clauses", S + "rsar/Refinement.cc"), m("input dependency counts", S + "rsar/Heuristics.cc")], ["encoded clauses and assumption literals per step", "answer and model of ARSolver"])
prop("C23", "Command-line options are obeyed or refused, never misread",
     "For every command line, each documented option ends up with exactly the value given last (or its default if it is not given), no option that was not given changes, and exactly the arguments that are no options are left as file names, in their order. A setting that is malformed, unknown or outside of the documented range is refused with an error message and a nonzero exit code before anything is solved, and no command line crashes the parser or makes it loop.",
     ["inputs", "configurations"], "all sequences of arguments", "The tests set options through variables and never parse a command line.",
     [S + "utils/Options.h", S + "utils/Options.cc", S + "frontend/CLIOptions.cc", S + "Main.cc"],
     [m("option classes register themselves and parse one argument each", S + "utils/Options.h"), m("strict parsing removes what was recognised", S + "utils/Options.cc"), m("ranges and defaults", S + "frontend/CLIOptions.cc")], ["values of the options after parsing", "exit code and output of the program"])
