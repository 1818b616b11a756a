// Model minimisation: any model of a formula with symbolic parts, minimised through the Minimizer.
#include "cnf.h"
#include "opts.h"
#include "candy/core/CandySolverResult.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/minimizer/Minimizer.h"
using namespace Candy; using namespace H;
// every clause satisfied by a literal of the partial assignment (has, m)
static uint8_t all(const Formula& f, const Asg& m, const Asg& has) { uint8_t r = 1; for (auto& c : f.cls) { uint8_t s = 0; for (auto& l : c) s |= (uint8_t)(has.b[l.var] & (m.b[l.var] ^ (uint8_t)l.sign)); r &= s; } return r; }
extern "C" int harness() {
  configure(); const unsigned NV = sym_iparam("NV", 4);
  const bool pruned = sym_iparam("PRUNED", 0), minimal = sym_iparam("MINIMAL", 0), project = sym_iparam("PROJECT", 0);
  Formula f; f.parse(sym_param("SPEC", ""), NV); if (f.cls.empty()) return 0;
  CNFProblem p; f.addTo(p); while (p.nVars() < NV) p.newVar();
  // any total model of the formula
  Asg m; m.n = NV; for (unsigned v = 0; v < MAXV; v++) m.b[v] = 0;
  for (unsigned v = 0; v < NV; v++) m.b[v] = (uint8_t)sym_val("m", 1);
  sym_assume(f.eval(m) != 0);
  CandySolverResult r; for (unsigned v = 0; v < NV; v++) { m.b[v] = (uint8_t)sym_concretize(m.b[v]); r.setModelValue(Lit(v, !m.b[v])); }
  std::vector<char> out(NV, 0);
  if (pruned || project) { GateAnalyzer ga(p); ga.analyze(); for (unsigned v = 0; v < NV; v++) out[v] = ga.getGateProblem().isGateOutput(Lit(v, false)); }
  Minimizer mini(p, r); mini.mimimizeModel(pruned, minimal, project);
  Asg S; S.n = NV; for (unsigned v = 0; v < MAXV; v++) S.b[v] = 0; unsigned size = 0, outs = 0;
  for (Lit l : r.getMinimizedModelLiterals()) { unsigned v = l.var(); sym_check(v < NV, "the minimized model lists variables of the formula"); sym_check(!S.b[v], "each variable once"); S.b[v] = 1; size++; outs += out[v] != 0; sym_check(m.b[v] == !l.sign(), "the minimized model is a part of the model"); }
  for (unsigned v = 0; v < NV; v++) sym_check(r.satisfies(Lit(v, !m.b[v])), "the model itself is unchanged");
  sym_observe("size", size); if (size < NV) sym_reach("SMALLER"); else sym_reach("FULL");
  if (!pruned && !project) {
    sym_check(all(f, m, S), "the minimized model satisfies every clause");
    for (unsigned v = 0; v < NV; v++) if (S.b[v]) { S.b[v] = 0; sym_check(!all(f, m, S), "no literal of the minimized model can be dropped"); S.b[v] = 1; }
    if (minimal) { Asg y = symAsg(NV, "y"); unsigned n = 0; for (unsigned v = 0; v < NV; v++) n += y.b[v]; sym_check(!(all(f, m, y) & (uint8_t)(n < size)), "no smaller part of the model satisfies every clause"); } }
  else {
    if (project) sym_check(outs == 0, "a projected model lists no gate output");
    // whatever the variables left open are, the gate outputs can be chosen such that every clause is satisfied
    Asg x = symAsg(NV); for (unsigned v = 0; v < NV; v++) if (S.b[v] && !out[v]) x.b[v] = m.b[v];
    std::vector<unsigned> o; for (unsigned v = 0; v < NV; v++) if (out[v]) o.push_back(v);
    if (o.size() > 8) return 0;
    uint8_t some = 0; for (unsigned k = 0; k < (1u << o.size()); k++) { for (unsigned i = 0; i < o.size(); i++) x.b[o[i]] = (k >> i) & 1; some |= f.eval(x); }
    sym_check(some != 0, "every completion of the minimized model extends to a model"); sym_reach(o.empty() ? "NOGATES" : "GATES"); }
  return 0; }
