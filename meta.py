#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=[], note="", technique="symbolic execution of the real code (LLVM IR) with Z3; counterexamples replayed natively"):
    P.append(dict(id=id, note=note, technique=technique, p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))))
B = "bounded: whole solver runs on formula families with symbolic literal signs and symbolically present clauses; every value within the bounds listed per harness in the evidence"
prop("P01", "A reported model satisfies the input formula",
 "Whenever the solver answers satisfiable, the reported assignment satisfies every clause of the formula it was given, including clauses with repeated or complementary literals, and never contains a literal together with its negation. This includes values of variables removed by preprocessing or inprocessing.",
 ["inputs", "histories"], "every CNF formula and every run of the solver on it",
 "Tests solve a fixed set of files; a model that is wrong only for particular clause shapes, elimination orders or reconstruction steps is not sampled.",
 ["src/candy/core/Solver.h", "src/candy/simplification/VariableElimination.h", "src/candy/core/Trail.h", "src/candy/core/CandySolverResult.h"],
 [("solve/search, model extension", "src/candy/core/Solver.h: solve()"), ("propagate_eliminated_variables", "src/candy/simplification/VariableElimination.h"), ("setModel", "src/candy/core/CandySolverResult.h")], note=B)
prop("P02", "Unsatisfiable is only answered for unsatisfiable formulas",
 "Whenever the solver answers unsatisfiable without assumptions, no assignment satisfies all clauses of the formula it was given. Learning, clause deletion, restarts and simplification never make a satisfiable formula unsatisfiable.",
 ["inputs", "histories"], "every CNF formula and every run of the solver on it",
 "Tests compare the answer on a few benchmark files; an unsound step needs a particular conflict or simplification to surface.",
 ["src/candy/core/Solver.h", "src/candy/systems/learning/ConflictAnalysis.h", "src/candy/systems/propagate/Propagate.h", "src/candy/simplification/Subsumption.h", "src/candy/simplification/VariableElimination.h"],
 [("search", "src/candy/core/Solver.h: search()"), ("first-UIP learning and minimisation", "src/candy/systems/learning/ConflictAnalysis.h")], note=B)
prop("P03", "Every solver configuration gives the right definite answer",
 "For every combination of propagation, branching, preprocessing, inprocessing, restart and clause-deletion options, an uninterrupted solve terminates with satisfiable plus a correct model or unsatisfiable, and the answer is the truth about the formula. No configuration reads or writes outside its data.",
 ["inputs", "configurations"], "every formula under every supported option combination",
 "The test suite runs mostly default options; option combinations multiply and are not enumerated with formulas.",
 ["src/candy/frontend/CandyBuilder.cc", "src/candy/core/Solver.h", "src/candy/systems/branching/VSIDS.h", "src/candy/systems/branching/LRB.h", "src/candy/systems/propagate/StaticPropagate.h", "src/candy/systems/ReduceDB.h", "src/candy/systems/Restart.h", "src/candy/frontend/CLIOptions.cc"],
 [("createSolver", "src/candy/frontend/CandyBuilder.cc"), ("solve", "src/candy/core/Solver.h")], note=B + "; 16 option sets; outside: centrality branching (VSIDSC)")
BI = "bounded: call histories of up to 8 phases over up to 40 variables with symbolic literals, assumptions and optional clauses; every value within the bounds listed per harness"
prop("P04", "Incremental solving answers for exactly what was added so far",
 "After any sequence of adding clauses, assuming literals and solving, the solver answers satisfiable iff the conjunction of all clauses added so far and the current assumptions is satisfiable. Assumptions apply to the next solve call only, and adding clauses over variables simplified away earlier is handled correctly.",
 ["histories", "inputs"], "every finite sequence of IPASIR add, assume and solve calls",
 "The fuzz and unit tests sample few histories; interactions of elimination, undo and assumptions need specific sequences.",
 ["src/candy/ipasir/ipasircandy.cc", "src/candy/core/Solver.h", "src/candy/simplification/VariableElimination.h"],
 [("ipasir_add/assume/solve", "src/candy/ipasir/ipasircandy.cc"), ("undo_elimination", "src/candy/simplification/VariableElimination.h")], note=BI)
prop("P05", "Failed assumptions form an unsatisfiable core",
 "After an unsatisfiable answer under assumptions, the assumptions reported as failed are, together with the clauses added so far, unsatisfiable on their own; the answer per assumption is 0 or 1.",
 ["histories", "inputs"], "every incremental history ending in an unsatisfiable answer",
 "Tests check single examples; a missing or extra literal in the final conflict depends on the implication graph.",
 ["src/candy/ipasir/ipasircandy.cc", "src/candy/systems/learning/ConflictAnalysis.h", "src/candy/core/CandySolverResult.h"],
 [("analyzeFinal", "src/candy/systems/learning/ConflictAnalysis.h"), ("ipasir_failed", "src/candy/ipasir/ipasircandy.cc")], note=BI)
prop("P06", "Reported values are consistent and satisfy clauses and assumptions",
 "After a satisfiable answer, querying the value of any literal returns that literal, its negation, or 0 for don't care; a literal and its negation always get the same answer; and the literals reported true satisfy every clause added so far and every assumption.",
 ["histories", "inputs"], "every incremental history ending in a satisfiable answer, every literal queried",
 "Tests query a few literals after a few histories.",
 ["src/candy/ipasir/ipasircandy.cc", "src/candy/core/CandySolverResult.h"],
 [("ipasir_val", "src/candy/ipasir/ipasircandy.cc"), ("setModel", "src/candy/core/CandySolverResult.h")], note=BI)
prop("P07", "Clauses passed to the learn callback are implied and within the limit",
 "Every clause delivered to a registered learn callback is zero-terminated, over the problem's variables, no longer than the registered maximum length, delivered with the registered state pointer, and logically implied by the clauses added so far.",
 ["histories", "inputs"], "every history with a learn callback and every length limit",
 "No test checks delivered clauses semantically.",
 ["src/candy/core/Solver.h", "src/candy/ipasir/ipasircandy.cc"], [("ipasir_callback", "src/candy/core/Solver.h")], note=BI)
prop("P08", "Interruption at any point is safe",
 "If the termination callback asks to stop at any of its calls, solve returns 0 or a correct answer, never a wrong one; unknown is answered only if termination was requested; and later solve calls on the same solver still answer correctly.",
 ["schedules", "histories", "inputs"], "every position at which the termination callback first returns non-zero, in every history",
 "Tests interrupt at one or two fixed points.",
 ["src/candy/core/Solver.h", "src/candy/ipasir/ipasircandy.cc"], [("termCallback polling", "src/candy/core/Solver.h: solve(), processClauseDatabase()")], note=BI + "; interruption point symbolic in [0, n]")
NA = []
exec(open(V + "/meta_more.py").read()) if os.path.exists(V + "/meta_more.py") else None
def main():
    import props
    with open(V + "/properties.jsonl", "w") as f:
        for e in P + NA: f.write(json.dumps(e["p"]) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[dict(property=e["id"], quick_cmd="python3 check.py " + e["id"], thorough_cmd="python3 check.py %s --tier thorough" % e["id"], technique=e["technique"], level="model_checking", level_note=e["note"]) for e in P if e["id"] in props.PROPS],
             not_applicable=[dict(property=e["id"], reason=e["reason"]) for e in NA])
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
    for e in P:
        assert e["id"] in props.PROPS, e["id"]; assert len(e["p"]["title"]) <= 80, e["p"]["title"]
if __name__ == "__main__": main()
