// Simplification driven directly: subsumption, asymmetric reduction and variable elimination on clauses with symbolic parts.
#include "cnf.h"
#include "opts.h"
#include <algorithm>
#include "candy/simplification/Subsumption.h"
#include "candy/simplification/VariableElimination.h"
#include "candy/simplification/AsymmetricVariableReduction.h"
using namespace Candy; using namespace H;
static uint8_t evalDb(ClauseDatabase& db, const Asg& a, bool persistentOnly = false) { uint8_t r = 1; for (Clause* c : db) if (!c->isDeleted() && (!persistentOnly || c->isPersistent())) r &= evCl(a, *c); return db.hasEmptyClause() ? 0 : r; }
extern "C" int harness() {
  configure(); const unsigned NV = sym_iparam("NV", 5), ROUNDS = sym_iparam("ROUNDS", 1); const bool SUB = sym_iparam("SUB", 1), RED = sym_iparam("RED", 0), VE = sym_iparam("VE", 0);
  VariableEliminationOptions::opt_use_asymm = true;
  Formula f, g; f.parse(sym_param("SPEC", ""), NV); g.parse(sym_param("LEARNT", ""), NV);
  Asg x = symAsg(NV);
  CNFProblem p; f.addTo(p); while (p.nVars() < NV) p.newVar();
  ClauseDatabase db; const bool LFIRST = sym_iparam("LFIRST", 0); { CNFProblem none; while (none.nVars() < NV) none.newVar(); if (LFIRST) db.init(none); else db.init(p); } Trail t(NV); Propagate prop(db, t);
  for (auto& c : g.cls) { Cl cl = Formula::cl(c); std::sort(cl.begin(), cl.end()); cl.erase(std::unique(cl.begin(), cl.end()), cl.end()); bool taut = false; for (size_t i = 1; i < cl.size(); i++) taut |= cl[i] == ~cl[i - 1]; if (taut) continue;   // learnt clauses have distinct variables
    db.createClause(cl.begin(), cl.end(), 1 + sym_iparam("LBD", 1) % cl.size()); }
  if (LFIRST) db.init(p);       // learnt clauses at lower addresses than problem clauses
  if (db.hasEmptyClause()) return 0;
  SubsumptionClauseDatabase sdb(db); Subsumption sub(sdb); VariableElimination ve(sdb, t); AsymmetricVariableReduction<Propagate> red(sdb, t, prop);
  std::vector<Lit> as; if (int n = sym_iparam("FROZEN", 0)) { as.push_back(Lit(n - 1, false)); t.setAssumptions(as); }
  uint8_t of = f.eval(x), og = g.eval(x), both = of & og;
  sdb.init(); bool ok = true; size_t before = 0; for (Clause* c : db) before += c->size();
  for (unsigned r = 0; r < ROUNDS && ok; r++) {
    uint8_t pre = evalDb(db, x);
    if (SUB) { ok = sub.subsume(); uint8_t post = ok ? evalDb(db, x) : 0; sym_check(pre == post, "subsumption preserves the set of models"); if (!ok) { sym_reach("SUBCONTRA"); break; } if (sub.nSubsumed) sym_reach("SUBSUMED"); if (sub.nStrengthened) sym_reach("STRENGTHENED"); if (sub.nDuplicates) sym_reach("DUPLICATES"); sdb.cleanup();
      pre = post; }
    if (RED || VE) { prop.reset(); for (Clause* c : db.getUnitClauses()) if (!t.fact(c->first())) ok = false; if (ok && prop.propagate()) ok = false; if (!ok) { sym_check(pre == 0, "contradiction, but an assignment satisfies the clauses"); sym_reach("CONTRA"); break; } }
    if (RED) { ok = red.reduce(); uint8_t post = ok ? evalDb(db, x) : 0; sym_check(pre == post, "asymmetric reduction preserves the set of models"); if (red.nStrengthened) sym_reach("REDUCED"); sdb.cleanup(); prop.reset(); if (!ok) break; sym_check(t.decisionLevel() == 0, "reduction leaves no decision"); pre = post; }
    if (VE) { unsigned sz = t.size(); ok = ve.eliminate(); uint8_t post = ok ? evalDb(db, x) : 0; sym_check((uint8_t)((pre ^ 1) | post) != 0, "clauses after elimination are implied by the clauses before"); sdb.cleanup(); prop.reset(); sym_check(t.size() == sz, "elimination assigns nothing"); if (!ok) { sym_check(pre == 0, "elimination reports a contradiction, but the clauses have a model"); sym_reach("VECONTRA"); break; } }
  }
  sym_observe("ok", ok);
  if (!ok) { if (!VE) sym_check(both == 0, "contradiction, but an assignment satisfies all clauses"); return 0; }
  // learnt clauses are optional: what is permanent must imply the input clauses
  if (!VE) { uint8_t pers = evalDb(db, x, true); uint8_t facts = 1; for (unsigned i = 0; i < t.size(); i++) facts &= evLit(x, t[i]); sym_check((uint8_t)((pers ^ 1) | of) != 0, "the permanent clauses imply the input clauses"); sym_check(evalDb(db, x) == both, "the clauses have the models they had"); }
  else {
    std::vector<Var> el; for (unsigned v = 0; v < NV; v++) if (ve.is_eliminated(v)) el.push_back(v);
    sym_check(ve.has_eliminated_variables() == !el.empty(), "has_eliminated_variables agrees"); sym_observe("eliminated", el.size());
    for (Lit l : as) sym_check(!ve.is_eliminated(l.var()), "assumed variables are not eliminated");
    for (unsigned v = 0; v < NV; v++) sym_check(t.isDecisionVar(v) == !ve.is_eliminated(v), "eliminated variables are not decided, others are");
    for (Clause* c : db) if (!c->isDeleted()) for (Lit l : *c) sym_check(!ve.is_eliminated(l.var()), "no clause mentions an eliminated variable");
    if (!el.empty()) sym_reach("ELIM"); if (el.size() > 1) sym_reach("ELIM2");
    uint8_t more = 1; const int MODE = sym_iparam("MODE", 0);
    if (MODE >= 2) {      // one variable is restored, the others stay eliminated; MODE 3 eliminates again
      if (el.empty()) return 0;
      unsigned k = sym_pick("restore", 0, el.size() - 1); std::vector<Cl> c1 = ve.undo_elimination(el[k]);
      sym_check(!ve.is_eliminated(el[k]) && t.isDecisionVar(el[k]), "a restored variable is decided again");
      for (Cl& c : c1) { for (Lit l : c) sym_check(!ve.is_eliminated(l.var()), "restored clauses mention no eliminated variable"); if (MODE == 3) sdb.create(c.begin(), c.end()); else more &= evCl(x, c); }
      if (ve.has_eliminated_variables()) sym_reach("PARTIAL");
      if (MODE == 3) { t.setAssumptions({}); ve.reset(); prop.reset(); bool ok2 = true; for (Clause* c : db.getUnitClauses()) if (!t.fact(c->first())) ok2 = false; if (ok2 && prop.propagate()) ok2 = false; ok2 = ok2 && ve.eliminate(); if (!ok2) { sym_check(of == 0, "contradiction, but an assignment satisfies all clauses"); return 0; } sdb.cleanup(); prop.reset(); } }
    if (MODE != 1) {         // every model of the rest extends to a model of the input
      uint8_t rest = evalDb(db, x) & more; sym_assume(rest != 0);
      for (unsigned v = 0; v < NV; v++) if (!ve.is_eliminated(v) && t.value((Var)v) == l_Undef) t.set_value(Lit(v, x.b[v] == 0));
      ve.propagate_eliminated_variables();
      Asg m; m.n = NV; for (unsigned v = 0; v < MAXV; v++) m.b[v] = 0;
      for (unsigned v = 0; v < NV; v++) { sym_check(t.value((Var)v) != l_Undef, "every variable has a value"); m.b[v] = t.value((Var)v) == l_True; }
      sym_check(f.eval(m) != 0, "the extended model satisfies the input clauses"); sym_reach("EXTENDED"); }
    else {                                    // restoring variables brings the input clauses back
      std::vector<Cl> back; std::vector<char> was(NV, 0); for (Var v : el) was[v] = 1;
      if (el.empty()) return 0;
      unsigned k = sym_pick("restore", 0, el.size() - 1); std::vector<Cl> c1 = ve.undo_elimination(el[k]); back.insert(back.end(), c1.begin(), c1.end());
      sym_check(!ve.is_eliminated(el[k]) && t.isDecisionVar(el[k]), "a restored variable is decided again");
      for (Cl& c : back) for (Lit l : c) sym_check(!ve.is_eliminated(l.var()), "restored clauses mention no eliminated variable");
      for (Var v : el) if (ve.is_eliminated(v)) { std::vector<Cl> c2 = ve.undo_elimination(v); back.insert(back.end(), c2.begin(), c2.end()); }
      uint8_t r = evalDb(db, x); for (Cl& c : back) r &= evCl(x, c);
      sym_check((uint8_t)((r ^ 1) | of) != 0, "after restoring all variables the input clauses are implied"); sym_check((uint8_t)((both ^ 1) | r) != 0, "restored clauses are implied by the input"); sym_check(!ve.has_eliminated_variables(), "nothing is left eliminated"); sym_reach("RESTORED"); }
  }
  return 0; }
