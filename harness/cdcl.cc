// Propagation, trail and conflict analysis driven directly: clauses with symbolic parts, symbolic decisions.
#include "cnf.h"
#include "opts.h"
#include "candy/core/Trail.h"
#include "candy/core/clauses/ClauseDatabase.h"
#include "candy/systems/propagate/Propagate.h"
#include "candy/systems/propagate/StaticPropagate.h"
#include "candy/systems/learning/ConflictAnalysis.h"
using namespace Candy; using namespace H;
template <class P> static int run() {
  const unsigned NV = sym_iparam("NV", 4), SKIP = sym_iparam("SKIP", 0), DEC = sym_iparam("DEC", 4), CONF = sym_iparam("CONF", 2);
  const bool CP = sym_iparam("CHECK_PROP", 1), CA = sym_iparam("CHECK_ANA", 1);
  Formula f; f.parse(sym_param("SPEC", ""), NV);
  Asg x = symAsg(NV);
  CNFProblem p; f.addTo(p); while (p.nVars() < NV) p.newVar();
  ClauseDatabase db; db.init(p); Trail t(NV); P prop(db, t); prop.init(); ConflictAnalysis ca(db, t); ca.init(NV);
  uint8_t holds = f.eval(x);
  if (db.hasEmptyClause()) { sym_reach("EMPTY"); return 0; }
  for (Clause* c : db.getUnitClauses()) if (!t.fact(c->first())) { sym_check(holds == 0, "contradicting facts, but an assignment satisfies the clauses"); sym_reach("FACTS"); return 0; }
  std::vector<Lit> decisions; unsigned conflicts = 0, made = 0;
  std::vector<std::vector<Lit>> all; for (Clause* c : db) all.push_back(std::vector<Lit>(c->begin(), c->end()));
  for (;;) {
    Clause* confl = (Clause*)prop.propagate();
    // what every state must satisfy
    if (CP) {
      std::vector<int> at(NV, -1); unsigned lev = 0;
      for (unsigned i = 0; i < t.size(); i++) {
        while (lev < t.decisionLevel() && t.trail_lim[lev] <= i) lev++;
        Lit l = t[i]; Var v = l.var();
        sym_check(at[v] < 0, "a variable is on the trail twice"); at[v] = i;
        sym_check(t.value(l) == l_True && t.value(~l) == l_False, "literals on the trail are true");
        sym_check(t.level(v) == lev, "the recorded level is the level of the trail position");
        Clause* r = t.reason(v);
        if (r) { bool has = false, ok = true; for (Lit k : *r) { if (k == l) has = true; else ok &= t.value(k) == l_False && at[k.var()] >= 0; }
          sym_check(has && ok, "the reason of a propagated literal contains it and otherwise only literals that were false before"); sym_check(!r->isDeleted(), "reasons are live clauses"); }
        else if (lev > 0) sym_check(i == t.trail_lim[lev - 1], "only decisions have no reason"); }
      for (unsigned v = 0; v < NV; v++) sym_check((at[v] >= 0) == (t.value((Var)v) != l_Undef), "assigned variables are those on the trail");
      if (!confl) for (auto& c : all) { unsigned undef = 0; bool sat = false; for (Lit l : c) { sat |= t.value(l) == l_True; undef += t.value(l) == l_Undef; } sym_check(sat || undef >= 2 , "propagation leaves no falsified or unit clause"); }
      else { bool fals = true; for (Lit l : *confl) fals &= t.value(l) == l_False; sym_check(fals && !confl->isDeleted(), "the reported conflict is falsified"); sym_reach("PCONFLICT"); }
      // everything propagated follows from the clauses and the decisions
      if (confl || t.size() > SKIP) {
      uint8_t pre = holds; for (unsigned i = 0; i < t.decisionLevel(); i++) { unsigned q = t.trail_lim[i]; if (q < t.size() && (i + 1 == t.decisionLevel() || t.trail_lim[i + 1] > q)) pre &= evLit(x, t[q]); }
      if (confl) sym_check(pre == 0, "conflict, but an assignment satisfies clauses and decisions");
      else { uint8_t allTrue = 1; for (unsigned i = 0; i < t.size(); i++) allTrue &= evLit(x, t[i]); sym_check((uint8_t)((pre ^ 1) | allTrue) != 0, "a propagated literal is not implied"); } }
    }
    if (confl) {
      if (t.decisionLevel() == 0) { if (CA) sym_check(holds == 0, "conflict without decisions, but the clauses are satisfiable"); sym_reach("UNSAT"); return 0; }
      unsigned before = db.result.nConflicts;
      ca.handle_conflict(confl); conflicts++; sym_reach("CONFLICT");
      std::vector<Lit> L = db.result.learnt_clause; unsigned bt = db.result.backtrack_level;
      if (CA) {
        sym_check(L.size() > 0, "the learnt clause is not empty"); sym_check(db.result.nConflicts == before + 1, "conflicts are counted");
        bool fals = true; unsigned cur = 0, second = 0; std::vector<char> lv(t.decisionLevel() + 1, 0); unsigned lbd = 0; std::vector<char> vs(NV, 0); bool dup = false;
        for (size_t i = 0; i < L.size(); i++) { Var v = L[i].var(); fals &= t.value(L[i]) == l_False; unsigned l = t.level(v); if (l == t.decisionLevel()) cur++; else if (l > second) second = l; sym_check(l > 0, "no literal of level zero in a learnt clause"); if (!lv[l]) { lv[l] = 1; lbd++; } dup |= vs[v] != 0; vs[v] = 1; }
        sym_check(fals, "the learnt clause is falsified by the trail"); sym_check(!dup, "the learnt clause has no variable twice");
        sym_check(cur == 1 && t.level(L[0].var()) == t.decisionLevel(), "exactly one literal of the conflict level, in front");
        sym_check(bt == second, "the backtrack level is the second highest level");
        if (L.size() > 1) sym_check(t.level(L[1].var()) == second, "a literal of the backtrack level comes second");
        sym_check(db.result.lbd == lbd, "the LBD counts the levels of the learnt clause");
        uint8_t lc = evCl(x, L); sym_check((uint8_t)((holds ^ 1) | lc) != 0, "the learnt clause is not implied by the clauses");
        if (L.size() > 2) sym_reach("LONG"); if (L.size() == 1) sym_reach("UNIT"); }
      sym_observe("learnt", L.size()); sym_observe("bt", bt);
      Clause* c = db.createClause(L.begin(), L.end(), db.result.lbd); if (c->size() > 2) prop.attachClause(c); all.push_back(L);
      std::vector<Lit> keep; for (unsigned i = 0; i < (bt < t.decisionLevel() ? t.trail_lim[bt] : t.size()); i++) keep.push_back(t[i]);
      t.backtrack(bt);
      if (CP) { sym_check(t.decisionLevel() == bt && t.size() == keep.size(), "backtracking removes exactly the levels above"); for (unsigned i = 0; i < keep.size(); i++) sym_check(t[i] == keep[i], "backtracking keeps the lower levels"); sym_check(t.value(L[0]) == l_Undef, "backtracking unassigns the asserted literal"); }
      bool ok = t.propagate(c->first(), c); if (CA) sym_check(ok, "the learnt clause asserts its first literal");
      if (sym_iparam("EVENTS", 0)) {
        // the propagator is rebuilt at level zero (as after simplification), or a clause is taken out of it
        unsigned e = sym_pick("event", 0, 3); sym_observe("event", e);
        if (e) { t.backtrack(0); if (c->size() == 1) t.fact(c->first()); }
        if (e >= 2) { unsigned k = sym_pick("gone", 0, (unsigned)all.size() - 1), i = 0; Clause* g = nullptr; for (Clause* q : db) { if (q->isDeleted()) continue; if (i++ == k) g = q; }
          if (!g || g->size() < 2) sym_assume(0); for (unsigned q = 0; q < t.size(); q++) if (t.reason(t[q].var()) == g) sym_assume(0);
          std::vector<Lit> gl(g->begin(), g->end()); std::sort(gl.begin(), gl.end());
          if (e == 3) { if (g->size() > 2) prop.detachClause(g); db.removeClause(g); } else { db.removeClause(g); prop.reset(); }
          for (size_t q = 0; q < all.size(); q++) { auto w = all[q]; std::sort(w.begin(), w.end()); if (w == gl) { all.erase(all.begin() + q); break; } }
          if (!CA) { holds = 1; for (auto& w : all) holds &= evCl(x, w); }
          sym_reach("REMOVED"); }
        else if (e == 1) { prop.reset(); sym_reach("RESET"); } }
      if (conflicts >= CONF) return 0;
      continue; }
    if (t.size() == NV) { sym_reach("MODEL"); if (CP) { bool okm = true; for (auto& c : all) { bool s = false; for (Lit l : c) s |= t.value(l) == l_True; okm &= s; } sym_check(okm, "a full assignment without conflict satisfies every clause"); } return 0; }
    Lit d = lit_Undef;
    if (made < DEC) { unsigned pick = sym_pick("decide", 0, 2 * NV - 1); d = Lit(pick >> 1, pick & 1); if (t.value(d) != l_Undef) sym_assume(0); made++; }
    else for (unsigned v = NV; v-- > 0;) if (t.value((Var)v) == l_Undef) { d = Lit(v, false); break; }
    t.newDecisionLevel(); t.decide(d);
    if (sym_iparam("FINAL", 0) && t.decisionLevel() > 1) { /* the final conflict of the negation of the last decision */ }
  } }
extern "C" int harness() { configure(); return sym_iparam("STATICP", 0) ? run<StaticPropagate>() : run<Propagate>(); }
