// Proof lines written by simplification: subsumption, asymmetric reduction and variable elimination on
// problem clauses and given lemmas; every line added after the lemmas is RUP or RAT.
#include "cnf.h"
#include "opts.h"
#include "proof.h"
#include "naive.h"
#include <algorithm>
#include "candy/simplification/Subsumption.h"
#include "candy/simplification/VariableElimination.h"
#include "candy/simplification/AsymmetricVariableReduction.h"
using namespace Candy; using namespace H;
extern "C" int harness() {
  configure(); const unsigned NV = sym_iparam("NV", 5), ROUNDS = sym_iparam("ROUNDS", 1); const bool SUB = sym_iparam("SUB", 1), RED = sym_iparam("RED", 0), VE = sym_iparam("VE", 0), LFIRST = sym_iparam("LFIRST", 0);
  VariableEliminationOptions::opt_use_asymm = true; Candy::SolverOptions::opt_certified_file = "proof.drat";
  Formula f, g; f.parse(sym_param("SPEC", ""), NV); g.parse(sym_param("LEARNT", ""), NV);
  CNFProblem p; f.addTo(p); while (p.nVars() < NV) p.newVar();
  unsigned given = 0;
  {
    ClauseDatabase db; { CNFProblem none; while (none.nVars() < NV) none.newVar(); if (LFIRST) db.init(none); else db.init(p); }
    for (auto& c : g.cls) { Cl cl = Formula::cl(c); std::sort(cl.begin(), cl.end()); cl.erase(std::unique(cl.begin(), cl.end()), cl.end()); bool taut = false; for (size_t i = 1; i < cl.size(); i++) taut |= cl[i] == ~cl[i - 1]; if (taut) continue; db.createClause(cl.begin(), cl.end(), 1 + sym_iparam("LBD", 1) % cl.size()); given++; }
    if (LFIRST) db.init(p);
    if (db.hasEmptyClause()) return 0;
    Trail t(NV); Propagate prop(db, t); SubsumptionClauseDatabase sdb(db); Subsumption sub(sdb); VariableElimination ve(sdb, t); AsymmetricVariableReduction<Propagate> red(sdb, t, prop);
    sdb.init(); bool ok = true;
    for (unsigned r = 0; r < ROUNDS && ok; r++) {
      if (SUB) { ok = sub.subsume(); if (!ok) break; if (sub.nSubsumed) sym_reach("SUBSUMED"); if (sub.nStrengthened) sym_reach("STRENGTHENED"); sdb.cleanup(); }
      if (RED || VE) { prop.reset(); for (Clause* c : db.getUnitClauses()) if (!t.fact(c->first())) ok = false; if (ok && prop.propagate()) ok = false; if (!ok) break; }
      if (RED) { ok = red.reduce(); if (red.nStrengthened) sym_reach("REDUCED"); sdb.cleanup(); prop.reset(); }
      if (ok && VE) { ok = ve.eliminate(); if (ve.nEliminated) sym_reach("ELIM"); sdb.cleanup(); prop.reset(); } }
    sym_observe("ok", ok); sdb.finalize(); db.reorganize();
  }
  ::db.clear(); live.clear(); tr.clear();
  bool bad; std::vector<PLine> pl = proofLines("proof.drat", bad);
  sym_check(!bad, "the proof text is a sequence of clauses, each terminated by 0"); sym_observe("lines", pl.size());
  for (auto& c : f.cls) { C k; for (auto& l : c) k.push_back((int)(2 * l.var + l.sign)); ::db.push_back(k); live.push_back(1); }
  val.assign(NV, 0);
  bool refuted = up(); unsigned adds = 0;
  for (auto& l : pl) {
    C c; for (int v : l.lits) { unsigned var = (unsigned)(v < 0 ? -v : v); sym_check(var >= 1 && var <= NV, "a proof literal is over the formula's variables"); c.push_back((int)(2 * (var - 1) + (v < 0))); }
    if (refuted) break;
    if (l.del) { if (c.size() < 2) continue; for (size_t i = 0; i < ::db.size(); i++) if (live[i] && ::db[i].size() >= c.size()) { bool eq = true; for (int a : c) { bool in = false; for (int b : ::db[i]) in |= a == b; eq &= in; } for (int b : ::db[i]) { bool in = false; for (int a : c) in |= a == b; eq &= in; } if (eq) { live[i] = 0; break; } } 
      undo(0); if (up()) refuted = true; sym_reach("DELETED"); continue; }
    if (adds >= given) { sym_check(rup(c) || rat(c), "an added clause is neither RUP nor RAT"); sym_reach("LEMMA"); }
    adds++; ::db.push_back(c); live.push_back(1); if (up()) refuted = true; }
  return 0; }
