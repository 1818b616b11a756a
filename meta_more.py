# further properties (executed by meta.py)
BP = "bounded: proof texts and formulas per harness in the evidence"
prop("P09", "The emitted proof is a valid DRAT refutation",
 "When a certificate file is configured and the solver answers unsatisfiable, the written proof is a well-formed DRAT text over the formula's variables: every added clause is implied by reverse unit propagation or has the RAT property with respect to the clauses live at that point, and the proof derives the empty clause. This holds for every combination of preprocessing, inprocessing, learning and clause deletion.",
 ["inputs", "configurations"], "every unsatisfiable formula and every solver configuration",
 "Tests check a few proofs with external tools; a missing or premature deletion line shows only for particular simplification steps.",
 ["src/candy/core/clauses/Certificate.h", "src/candy/core/clauses/ClauseDatabase.h", "src/candy/core/Solver.h", "src/candy/simplification/Subsumption.h"],
 [("Certificate::added/removed/proof", "src/candy/core/clauses/Certificate.h"), ("createClause/removeClause/strengthenClause", "src/candy/core/clauses/ClauseDatabase.h")],
 note="bounded: whole solver runs on formula families with symbolic signs and clauses; the written proof of every path is checked by a naive RUP/RAT checker")
prop("P10", "The built-in proof checker accepts exactly convincing proofs",
 "The built-in DRAT checker accepts a proof only if the formula is unsatisfiable, whatever the proof text contains: lemmas, deletions of present, absent or duplicate clauses, and literals of unknown variables. Proofs written by the solver itself for its unsatisfiable answers are accepted.",
 ["inputs"], "every formula and every proof text",
 "Tests run the checker on proofs of a few files; wrong acceptance needs a bogus proof, which no test constructs systematically.",
 ["src/candy/core/DRATChecker.cc", "src/candy/core/DRATChecker.h"],
 [("check_clause_add/remove", "src/candy/core/DRATChecker.cc"), ("check_asymm", "src/candy/core/DRATChecker.cc")],
 note="bounded: proof texts with symbolic literals, signs and line kinds over formulas with symbolic parts, and the solver's own proofs on formula families")
prop("P11", "Well-formed DIMACS text is read exactly",
 "Reading a well-formed DIMACS text yields exactly its clauses: in order, each with its distinct literals, tautologies dropped, nothing invented, and the variable count equal to the largest variable mentioned. Comments, any whitespace, clauses over several lines, several clauses per line, missing final newline and file sizes around the read buffer make no difference.",
 ["inputs"], "every well-formed DIMACS text",
 "Tests read a handful of well-formed files; buffer boundaries and unusual whitespace are not sampled.",
 ["src/candy/core/CNFProblem.cc", "src/candy/core/CNFProblem.h", "src/candy/utils/StreamBuffer.h", "src/candy/utils/StreamBuffer.cc"],
 [("readDimacs", "src/candy/core/CNFProblem.cc"), ("readInteger/skipWhitespace/skipLine", "src/candy/utils/StreamBuffer.h")],
 note="bounded: text templates with up to 6 arbitrary bytes, and files of 2^20 bytes around the buffer boundary, compared with a reference reader")
prop("P12", "Malformed input is rejected with an error, never a crash",
 "A text that is not well-formed DIMACS (non-numeric tokens, missing terminating zero, truncated header, numbers out of range) is rejected with ParserException. No input text makes the reader access memory out of bounds, loop forever or silently accept a changed number.",
 ["inputs", "faults"], "every byte sequence",
 "Tests contain no malformed files of arbitrary shape; overflow and truncation cases need specific bytes.",
 ["src/candy/core/CNFProblem.cc", "src/candy/utils/StreamBuffer.h", "src/candy/utils/StreamBuffer.cc"],
 [("readInteger", "src/candy/utils/StreamBuffer.h"), ("refill", "src/candy/utils/StreamBuffer.cc")],
 note="bounded: text templates with up to 5 arbitrary bytes, and truncation near the buffer boundary")
prop("P13", "Command-line options are parsed exactly",
 "Each argument that names an option sets exactly that option to the value written; a value that is not a number or lies outside the option's range, and in strict mode any unknown flag, is reported instead of being accepted. All other arguments stay in argv in order and argc counts them; string values of any length are stored terminated.",
 ["inputs"], "every sequence of command-line arguments",
 "No test passes malformed, extreme or out-of-range option values.",
 ["src/candy/utils/Options.h", "src/candy/utils/Options.cc"],
 [("parseOptions", "src/candy/utils/Options.cc"), ("IntOption/DoubleOption/BoolOption/StringOption::parse", "src/candy/utils/Options.h")],
 note="bounded: command lines of up to 4 arguments with up to 4 symbolic characters, for options of every type registered by the harness")

prop("P14", "Recognised gates are exactly the definitions the clauses contain",
 "Gate recognition partitions the problem's clauses into roots, gate definitions and a remainder, with every clause in exactly one part and the problem unchanged. Every recognised gate is a total definition: for each assignment of its inputs its clauses leave a value for the output, a single one where the gate is used in both polarities. Definitions are acyclic, a gate used in both polarities is marked so, and the counters agree with the gates.",
 ["inputs", "configurations"], "every formula and every recognition method",
 "Tests compare gate counts on a handful of formulas; a clause set that only looks like a definition needs specific redundancy.",
 ["src/candy/gates/GateAnalyzer.cc", "src/candy/gates/GateProblem.h", "src/candy/gates/BlockList.h", "src/candy/core/CNFProblem.cc"],
 [("GateAnalyzer::isGate/patternCheck/semanticCheck", "src/candy/gates/GateAnalyzer.cc"), ("BlockList", "src/candy/gates/BlockList.h")],
 note="bounded: formulas of up to 30 clauses with symbolic literals and presence, all methods and root selections; single-valuedness is not checked for gates found by the holistic solver-based check")
BD = "bounded: the components are driven directly on formula families of up to 15 variables with symbolic signs, clauses and decisions; every value within the bounds listed per harness"
prop("P15", "Unit propagation is sound, complete and leaves a consistent trail",
 "After every propagation from any reachable state, either a live clause whose literals are all false is reported, or no clause is falsified or unit. Every propagated literal is implied by the clauses and the decisions, its reason clause contains it and otherwise only literals that were false earlier, values, levels and positions agree with the trail, and backtracking removes exactly the levels above the target.",
 ["inputs", "histories"], "every clause set and every sequence of decisions, conflicts and backtracks, for dynamic and static propagation",
 "A lost watch or a stale blocker shows only for particular orders of assignment; the tests propagate on a few fixed clauses.",
 ["src/candy/systems/propagate/Propagate.h", "src/candy/systems/propagate/StaticPropagate.h", "src/candy/core/Trail.h", "src/candy/core/clauses/Clause.h"],
 [("propagate", "src/candy/systems/propagate/Propagate.h"), ("propagate", "src/candy/systems/propagate/StaticPropagate.h"), ("backtrack/decide/propagate", "src/candy/core/Trail.h")], note=BD)
prop("P16", "Every learnt clause is implied, falsified and asserting",
 "The clause derived from any conflict is implied by the clause database, is falsified by the current trail, has exactly one literal of the conflict level and none of level zero or repeated, and the reported backtrack level is its second highest level, so that it asserts its first literal after backtracking; the reported LBD is the number of its levels.",
 ["inputs", "histories"], "every clause set and every sequence of decisions leading to conflicts",
 "A wrong minimisation or level computation yields a clause that is only occasionally not implied; tests do not inspect learnt clauses.",
 ["src/candy/systems/learning/ConflictAnalysis.h", "src/candy/core/clauses/ClauseDatabase.h", "src/candy/core/Stamp.h"],
 [("handle_conflict/analyze", "src/candy/systems/learning/ConflictAnalysis.h"), ("litRedundant/minimization", "src/candy/systems/learning/ConflictAnalysis.h")], note=BD)
prop("P17", "Subsumption and asymmetric reduction preserve all models",
 "Subsumption, strengthening, duplicate removal and asymmetric variable reduction leave the set of models of the clauses unchanged; a contradiction is reported only for contradictory clauses; and the permanent clauses alone always imply every input clause, so that deleting learnt clauses later loses nothing.",
 ["inputs", "histories"], "every set of input and learnt clauses and any number of rounds",
 "Tests check a handful of clause pairs; an unsound strengthening needs particular sizes and sign patterns.",
 ["src/candy/simplification/Subsumption.h", "src/candy/simplification/SubsumptionClause.h", "src/candy/simplification/SubsumptionClauseDatabase.h", "src/candy/simplification/AsymmetricVariableReduction.h"],
 [("subsume/backwardSubsumption", "src/candy/simplification/Subsumption.h"), ("reduce", "src/candy/simplification/AsymmetricVariableReduction.h")], note=BD)
prop("P18", "Variable elimination can be extended and undone",
 "After eliminating variables the remaining clauses are implied by the clauses before, mention no eliminated variable and none that is assumed; every model of them extends to a model of all input clauses; eliminated variables, and only they, are no longer decided; and restoring any variables, in any order, brings back clauses that together with the rest are equivalent to the input.",
 ["inputs", "histories"], "every clause set, every assumption set and every restoration order",
 "Tests eliminate on fixed files and check satisfiability only; a lost stored clause needs a specific elimination order.",
 ["src/candy/simplification/VariableElimination.h", "src/candy/simplification/SubsumptionClauseDatabase.h", "src/candy/core/Trail.h"],
 [("eliminate/eliminateVar", "src/candy/simplification/VariableElimination.h"), ("propagate_eliminated_variables", "src/candy/simplification/VariableElimination.h"), ("undo_elimination", "src/candy/simplification/VariableElimination.h")], note=BD)
prop("P19", "The program reports the answer it found",
 "Running candy on any readable input prints exactly one status line, all other lines then being comments or the model; SATISFIABLE only with clauses that have a model and UNSATISFIABLE only without; the exit status is 10 or 20 accordingly (0 when a requested check of the answer succeeded); the printed model is a list of literals of the formula, each variable once, ending in 0, that satisfies every clause; -test-model and -test-proof confirm every correct answer; inputs that cannot be parsed give exit status 1 and no answer; -gate-stats and -test-limit print no answer. This holds for every solver the command line selects: elimination, LRB, RSIL, static propagation, variable sorting, inprocessing and abstraction refinement.",
 ["inputs", "configurations"], "every input text and every supported combination of command line options",
 "No test runs the program; status line, model line and exit status are produced by code that only Main contains.",
 ["src/candy/Main.cc", "src/candy/frontend/SolverFactory.h", "src/candy/frontend/CandyBuilder.cc", "src/candy/core/CandySolverResult.h", "src/candy/rsar/ARSolver.cc"],
 [("main", "src/candy/Main.cc"), ("createSolver", "src/candy/frontend/CandyBuilder.cc"), ("createRSARSolver", "src/candy/frontend/SolverFactory.h"), ("ARSolver::solve", "src/candy/rsar/ARSolver.cc"), ("CandySolverResult::value", "src/candy/core/CandySolverResult.h")],
 note="bounded: whole program runs on formula families of up to 12 variables with symbolic signs, clauses and characters for the option combinations listed; multi-threaded runs (-threads > 1) are outside: the executor has no threads")
prop("P20", "Minimised models still determine satisfaction and are minimal",
 "For every model of every formula, the minimised model is a part of the model; it satisfies every clause and no literal of it can be dropped; with -minimize-minimal no smaller part of the model satisfies every clause. With pruning or projection, every completion of the listed variables that are not gate outputs extends to a model of the whole formula, and a projected model lists no gate output.",
 ["inputs", "configurations"], "every formula, every model of it and every combination of the minimisation options",
 "Tests minimise a few fixed models; whether a literal is needed depends on the interplay of model, gates and cardinality constraint.",
 ["src/candy/minimizer/Minimizer.h", "src/candy/minimizer/Minimizer.cc", "src/candy/gates/GateProblem.h", "src/candy/Main.cc"],
 [("mimimizeModel/iterativeMinimization", "src/candy/minimizer/Minimizer.cc"), ("genParCounter/genLessThanConstraint", "src/candy/minimizer/Minimizer.h"), ("getPrunedProblem", "src/candy/gates/GateProblem.h")],
 note="bounded: formulas of up to 8 variables (gate formulas up to 18) with symbolic signs and clauses, every total model")
prop("P21", "Simulation computes gate outputs and conjectures exactly what was observed",
 "For every choice of input bits, simulation gives every enabled gate output the value its defining clauses prescribe, in evaluation order, each output listed once and never after a gate that uses it; gates that are filtered out, and those depending on them, are left alone. The partition after any rounds groups exactly the variables that agreed (up to sign) in all rounds and lists as backbones exactly the constant ones, so that no fact holding for all inputs is ever lost, and compression and the size filters only drop whole conjectures. Randomizations produce the promised patterns.",
 ["inputs", "configurations", "histories"], "every gate structure, every input pattern, every number of rounds, filter and partition compression",
 "Tests simulate a few fixed circuits with random inputs; they cannot tell a conjecture that was lost from one that was never there.",
 ["src/candy/randomsimulation/ClauseOrder.cc", "src/candy/randomsimulation/Propagation.cc", "src/candy/randomsimulation/Partition.cc", "src/candy/randomsimulation/Randomization.cc", "src/candy/randomsimulation/SimulationVector.cc", "src/candy/randomsimulation/RandomSimulator.cc", "src/candy/randomsimulation/Conjectures.cc"],
 [("readGates/backtrack", "src/candy/randomsimulation/ClauseOrder.cc"), ("propagate", "src/candy/randomsimulation/Propagation.cc"), ("update/getConjectures", "src/candy/randomsimulation/Partition.cc"), ("run", "src/candy/randomsimulation/RandomSimulator.cc")],
 note="bounded: gate formulas of up to 18 variables; 12 symbolic bit positions per input and vector, or all input assignments simulated; partitions of up to 4 variables over up to 4 rounds")
prop("P22", "Refinement keeps exactly the conjectures not withdrawn, and none decides answers",
 "Before every solve of abstraction refinement, the enabled clauses hold exactly for the assignments that satisfy all conjectures not withdrawn so far, every approximation clause has its own fresh activation variable, and every such variable is assumed. The input dependency heuristic withdraws an output exactly in the first step whose limit its number of inputs exceeds. Whatever is conjectured, true or false, and however little is withdrawn, the answer is the truth about the formula and models satisfy it.",
 ["inputs", "histories", "configurations"], "every set of conjectures, every history of withdrawals, every formula",
 "Tests use a few conjectures and steps; a clause left enabled after its variable was withdrawn shows only for particular orders of removal.",
 ["src/candy/rsar/ARSolver.cc", "src/candy/rsar/Refinement.cc", "src/candy/rsar/ApproximationState.h", "src/candy/rsar/Heuristics.cc"],
 [("refine/init", "src/candy/rsar/Refinement.cc"), ("removeVariable/removeBackbone", "src/candy/rsar/ApproximationState.h"), ("probe", "src/candy/rsar/Heuristics.cc"), ("solve", "src/candy/rsar/ARSolver.cc")],
 note="bounded: up to 6 conjectured literals with symbolic signs, all withdrawals over up to 3 steps; solver runs on formulas of up to 12 variables")
prop("P23", "The clause store loses, invents and changes no clause",
 "After any history of adding, removing, strengthening, reducing and reorganising, the clause database holds exactly the clauses added and not removed, each with its literals and LBD, whatever their number and length (empty and very long ones included); the unit clauses and binary watchers listed are exactly those of the live clauses; strengthening keeps permanent clauses permanent; and reduction removes only learnt clauses above the LBD bound, none better than one it keeps.",
 ["histories", "inputs"], "every history of clause database operations, every clause length",
 "Tests allocate a few short clauses on one page; loss depends on page boundaries, lengths and the order of operations.",
 ["src/candy/core/clauses/ClauseDatabase.h", "src/candy/core/clauses/ClauseAllocator.h", "src/candy/core/clauses/ClauseAllocatorMemory.h", "src/candy/core/clauses/Clause.h", "src/candy/systems/ReduceDB.h"],
 [("reorganize/strengthenClause/removeClause", "src/candy/core/clauses/ClauseDatabase.h"), ("reallocate/import/absorb", "src/candy/core/clauses/ClauseAllocatorMemory.h"), ("reduce", "src/candy/systems/ReduceDB.h")],
 note="bounded: histories of up to 7 operations, clauses of up to 300000 literals on several pages; the multi-threaded use of one allocator (-static-database) is disabled by the program and outside")
prop("P24", "Branching proposes open decision variables and follows its advice",
 "After any history of decisions, propagation, conflicts, backtracking and restarts, every branching heuristic proposes a literal of an unassigned decision variable as long as there is one, and none otherwise. VSIDS proposes a variable of maximal activity; the polarity is the one set from outside or last assigned; RSIL decides against a conjecture whenever one applies at the current level, uses each piece of advice at most as often as its budget allows, and otherwise decides as usual with backbone conjectures negated. The heuristic built is the one the options name.",
 ["histories", "inputs", "configurations"], "every clause set, every conjecture set and every history of the search",
 "Tests query heuristics on one trail; a variable missing from the queue after backtracking makes the solver report a model too early, only on particular histories.",
 ["src/candy/systems/branching/VSIDS.h", "src/candy/systems/branching/LRB.h", "src/candy/systems/branching/rsil/BranchingHeuristics.h", "src/candy/systems/branching/rsil/ImplicitLearningAdvice.h", "src/candy/mtl/Heap.h", "src/candy/frontend/CandyBuilder.h"],
 [("pickBranchLit/process_conflict/reset", "src/candy/systems/branching/VSIDS.h"), ("getAdvice/getSignAdvice", "src/candy/systems/branching/rsil/BranchingHeuristics.h"), ("removeMin/decrease/build", "src/candy/mtl/Heap.h")],
 note="bounded: formulas of up to 12 variables, up to 3 symbolic decisions, 6 conflicts and 3 restarts per history; outside: centrality branching (VSIDSC)")
prop("P25", "cnf2aig prints a well-formed circuit that means the formula",
 "For every formula, cnf2aig writes nothing but an and-inverter graph in ASCII AIGER format: the announced numbers of inputs and gates, every literal within the announced maximum, every variable defined exactly once as input or gate, no cycle, inputs carrying the formula's variable numbers. Its single output is true for exactly the input assignments that extend to a model of the formula. Gate analysis and root normalisation leave the formula's clauses as they were.",
 ["inputs", "configurations"], "every formula and every circuit structure recognised in it",
 "No test runs the translation; a wrong number or polarity gives a plausible circuit of another function.",
 ["src/candy/cnf2aig.cc", "src/candy/gates/AIGProblem.h", "src/candy/gates/GateProblem.h", "src/candy/gates/GateAnalyzer.cc"],
 [("createAnds/convertNaryAndsToBinaryAnds/printAIG", "src/candy/gates/AIGProblem.h"), ("normalizeRoots", "src/candy/gates/GateProblem.h")],
 note="bounded: all 2-3 variable formulas of up to 4 short clauses, gate formulas of up to 18 variables with symbolic signs and optional clauses; with more than 8 non-input variables only that every model makes the circuit true")
prop("P26", "Formulas are stored, printed, renamed, checked and identified faithfully",
 "A formula object holds exactly the non-tautological clauses given, in order, each literal once, and the largest variable. Printing and reading back gives the same clauses; renaming variables is a gap-free one-to-one renaming; a result is accepted exactly if it satisfies every clause, whatever part of the variables it assigns. The clause identifier is equal exactly for equal clause lists, and the degree identifier depends neither on the order of clauses and literals nor on names or polarity of variables.",
 ["inputs"], "every formula, every partial result, every renaming and clause order",
 "Tests compare a few fixed formulas; order dependence of an identifier shows only for particular combinations of unit clauses.",
 ["src/candy/core/CNFProblem.cc", "src/candy/core/CNFProblem.h", "src/candy/core/CandySolverResult.h", "src/candy/gbd/hash.cpp"],
 [("readClause/checkResult/normalizeVariableNames/printDIMACS", "src/candy/core/CNFProblem.cc"), ("gbd_hash/degree_hash", "src/candy/gbd/hash.cpp"), ("satisfies/value", "src/candy/core/CandySolverResult.h")],
 note="bounded: formulas of up to 5 short clauses over 3 to 6 variables with symbolic literals, numbers up to 1000000; every permutation, renaming and complementing of up to 4 clauses over 3 variables. That different formulas get different identifiers rests on MD5 and is checked for the formulas within the bounds")
