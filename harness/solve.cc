// Whole solver on a formula with symbolic parts: answer against the formula's semantics.
#include "cnf.h"
#include "opts.h"
#include "candy/core/CandySolverInterface.h"
#include "candy/core/CandySolverResult.h"
#include "candy/frontend/CandyBuilder.h"
using namespace Candy; using namespace H;
extern "C" int harness() {
  configure(); const unsigned NV = sym_iparam("NV", 4); const char* SPEC = sym_param("SPEC", "");
  const bool CHECK_MODEL = sym_iparam("CHECK_MODEL", 1), CHECK_UNSAT = sym_iparam("CHECK_UNSAT", 1);
  Formula f; f.parse(SPEC, NV);
  Asg x = symAsg(NV);                      // an arbitrary assignment, refutes a wrong UNSAT
  CNFProblem p; f.addTo(p);
  if (sym_iparam("NEWVARS", 0)) while (p.nVars() < NV) p.newVar();
  CandySolverInterface* s = makeSolver();
  s->init(p);
  lbool r = s->solve();
  sym_check(r == l_True || r == l_False, "solver answers satisfiable or unsatisfiable");
  sym_observe("status", r == l_True ? 10 : r == l_False ? 20 : 0);
  sym_observe("conflicts", s->nConflicts()); if (s->nConflicts() >= 1) sym_reach("CONFLICT"); if (s->nConflicts() >= 10) sym_reach("CONFLICTS>=10"); if (s->nConflicts() >= 50) sym_reach("CONFLICTS>=50");
  CandySolverResult& res = s->getCandySolverResult();
  if (r == l_True) {
    sym_reach("SAT");
    if (CHECK_MODEL) {
    Asg m; m.n = NV; for (unsigned v = 0; v < MAXV; v++) m.b[v] = 0;
    for (unsigned v = 0; v < NV; v++) { bool t = res.satisfies(Lit(v, false)), u = res.satisfies(Lit(v, true)); sym_check(!(t && u), "model satisfies a literal and its negation"); m.b[v] = t; sym_observe("model", t ? 1 : u ? 2 : 0); }
    bool all = true;
    for (auto& c : f.cls) { bool sat = false; for (auto& l : c) sat |= res.satisfies(Lit(l.var, l.sign)); all &= sat; }
    sym_check(all, "model satisfies every input clause");
    sym_check(f.eval(m) != 0, "reported literals satisfy the formula");
    sym_check(p.checkResult(res), "checkResult confirms the model");
    std::vector<Lit> lits = res.getModelLiterals();
    for (Lit l : lits) sym_check(res.satisfies(l), "listed model literal is satisfied"); }
  } else {
    sym_reach("UNSAT");
    sym_check(res.getConflict().empty(), "no assumptions, so no assumption conflict");
    if (CHECK_UNSAT) sym_check(f.eval(x) == 0, "UNSAT answer, but an assignment satisfies every input clause");
  }
  if (sym_iparam("AGAIN", 0)) {             // solving again gives the same answer
  lbool r2 = s->solve();
  sym_check(r2 == r, "solving the same problem again changes the answer");
  if (r2 == l_True) { bool all = true; for (auto& c : f.cls) { bool sat = false; for (auto& l : c) sat |= res.satisfies(Lit(l.var, l.sign)); all &= sat; } sym_check(all, "second model satisfies every input clause"); } }
  delete s;
  return 0; }
