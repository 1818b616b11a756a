// Branching: the decisions proposed along histories of decisions, conflicts, backtracking and restarts.
#include "cnf.h"
#include "opts.h"
#include "candy/core/Trail.h"
#include "candy/core/CandySolverInterface.h"
#include "candy/core/clauses/ClauseDatabase.h"
#include "candy/systems/propagate/Propagate.h"
#include "candy/systems/propagate/StaticPropagate.h"
#include "candy/systems/learning/ConflictAnalysis.h"
#include "candy/systems/branching/VSIDS.h"
#include "candy/systems/branching/LRB.h"
#include "candy/systems/branching/rsil/BranchingHeuristics.h"
#include "candy/randomsimulation/Conjectures.h"
#include <cstring>
#include <map>
using namespace Candy; using namespace H;
typedef std::vector<std::vector<Lit>> Classes;
static Classes classes(const char* s) { Formula f; f.parse(s, 1); Classes r; for (auto& c : f.cls) { r.emplace_back(); for (auto& l : c) r.back().push_back(Lit((int)l.var, sym_concretize(l.sign) != 0)); } return r; }
struct Plain { static const bool rsil = false; template <class B> static void init(B& b, const CNFProblem& p, const Classes&, const Classes&) { b.init(p); } };
template <unsigned MAX, int KIND> struct Rsil { static const bool rsil = true;   // KIND 0 unrestricted, 1 budgeted, 2 vanishing
  template <class B> static void init(B& b, const CNFProblem& p, const Classes& eq, const Classes& bb) { b.blockInitialization = true; b.init(p); std::unique_ptr<Conjectures> c(new Conjectures()); for (auto& e : eq) c->addEquivalence(EquivalenceConjecture(e)); for (auto& x : bb) for (Lit l : x) c->addBackbone(BackboneConjecture(l)); start(b, std::move(c)); }
  template <class B> static void start(B& b, std::unique_ptr<Conjectures> c) { go(b, std::move(c), std::integral_constant<int, KIND>()); }
  template <class B> static void go(B& b, std::unique_ptr<Conjectures> c, std::integral_constant<int, 0>) { b.init(std::move(c), sym_iparam("BBON", 1) != 0); }
  template <class B, int K> static void go(B& b, std::unique_ptr<Conjectures> c, std::integral_constant<int, K>) { b.init(std::move(c), sym_iparam("BBON", 1) != 0, (unsigned)sym_iparam("LIMIT", 2)); } };
static const std::vector<double>* activities(VSIDS& b) { return &b.activity; }
template <class B> static const std::vector<double>* activities(B&) { return nullptr; }

template <class B, class I, unsigned MAX, int KIND> static int run() {
  const unsigned NV = sym_iparam("NV", 4), DEC = sym_iparam("DEC", 3), CONF = sym_iparam("CONF", 2), RST = sym_iparam("RESTARTS", 1), LIMIT = sym_iparam("LIMIT", 2);
  Formula f; f.parse(sym_param("SPEC", ""), NV); CNFProblem p; f.addTo(p); while (p.nVars() < NV) p.newVar();
  Classes eq = classes(sym_param("EQ", "")), bb = classes(sym_param("BB", ""));
  ClauseDatabase db; db.init(p); Trail t(NV); Propagate prop(db, t); prop.init(); ConflictAnalysis ca(db, t); ca.init(NV); B br(db, t);
  std::vector<char> dec(NV, 1); for (unsigned v = 0; v < NV && v < (unsigned)sym_iparam("NODEC", 0); v++) if (sym_pick("decisionvar", 0, 1) == 0) { t.setDecisionVar((Var)v, false); dec[v] = 0; }
  I::init(br, p, eq, bb); std::vector<int> pol(NV, -1); const bool phase = !SolverOptions::opt_sort_variables;
  if (sym_iparam("SETPOL", 0)) for (unsigned v = 0; v < NV && v < 2; v++) { unsigned s = sym_pick("polarity", 0, 2); if (s < 2) { br.setPolarity((Var)v, s); pol[v] = s; } }
  if (db.hasEmptyClause()) return 0; for (Clause* c : db.getUnitClauses()) if (!t.fact(c->first())) return 0;
  unsigned made = 0, conflicts = 0, restarts = 0, advice = 0, bbuses = 0, picks = 0; std::map<std::pair<int, int>, unsigned> used; std::vector<unsigned> bbused(NV, 0);
  for (;;) {
    Clause* confl = (Clause*)prop.propagate();
    if (confl) { if (t.decisionLevel() == 0) { sym_reach("UNSAT"); return 0; }
      ca.handle_conflict(confl); conflicts++; unsigned bt = db.result.backtrack_level; for (unsigned i = bt ? t.trail_lim[bt] : (t.trail_lim.empty() ? t.size() : t.trail_lim[0]); i < t.size(); i++) pol[(int)t[i].var()] = t[i].sign(); if (bt == 0) for (unsigned i = 0; i < t.size(); i++) pol[(int)t[i].var()] = t[i].sign();
      br.process_conflict(); std::vector<Lit> L = db.result.learnt_clause; Clause* c = db.createClause(L.begin(), L.end(), db.result.lbd); if (c->size() > 2) prop.attachClause(c); t.backtrack(bt); t.propagate(c->first(), c); if (conflicts > CONF) return 0; sym_reach("CONFLICT"); continue; }
    if (restarts < RST && t.decisionLevel() > 0 && sym_pick("restart", 0, 1)) { restarts++; t.reset(); br.reset(); prop.reset(); bool ok = true; for (Clause* c : db.getUnitClauses()) ok &= t.fact(c->first()); if (!ok) return 0; sym_reach("RESTART"); continue; }
    bool open = false; for (unsigned v = 0; v < NV; v++) open |= dec[v] && t.value((Var)v) == l_Undef;
    if (made < DEC && open) { made++; unsigned k = sym_pick("assume", 0, 2 * NV); if (k < 2 * NV) { Lit d((int)(k >> 1), k & 1); if (t.value(d) != l_Undef) sym_assume(0); t.newDecisionLevel(); t.decide(d); sym_check(br.getLastDecision() == d, "the last decision is reported"); continue; } }
    // what the heuristic may propose
    std::vector<Lit> adv; std::vector<std::pair<int, int>> advKey;
    if (KIND >= 0 && t.decisionLevel() > 0) for (unsigned i = t.trail_lim.back(); i < t.size(); i++) for (auto& e : eq) if (e.size() <= MAX) for (Lit k : e) if (k.var() == t[i].var()) for (Lit o : e) if (o.var() != k.var() && dec[(int)o.var()] && t.value(o) == l_Undef) { bool ex = (k == t[i]); adv.push_back(ex ? ~o : o); advKey.push_back({(int)k.var(), (int)o.var()}); }
    Lit d = br.pickBranchLit(); picks++; sym_check((d == lit_Undef) == !open, "a decision is proposed as long as a decision variable is unassigned"); if (d == lit_Undef) { sym_reach("ALL"); return 0; }
    sym_check((unsigned)d.var() < NV && t.value(d) == l_Undef && dec[(int)d.var()], "the decision is an unassigned decision variable");
    bool isAdv = false; for (size_t i = 0; i < adv.size(); i++) if (adv[i] == d) isAdv = true;
    bool isBB = false, bbVar = false; for (auto& b : bb) for (Lit l : b) { if (KIND >= 0 && sym_iparam("BBON", 1) && l.var() == d.var()) { bbVar = true; if (d == ~l) isBB = true; } }
    bool natural = !phase || d.sign() == (pol[(int)d.var()] < 0 ? true : pol[(int)d.var()] != 0);
    if (KIND < 0) { sym_check(natural, "the polarity is the one set or last assigned"); if (auto* a = activities(br)) for (unsigned v = 0; v < NV; v++) if (dec[v] && (t.value((Var)v) == l_Undef)) sym_check((*a)[(int)d.var()] >= (*a)[v], "no open variable is more active than the decision"); }
    else if (KIND == 0) { if (!adv.empty()) { sym_check(isAdv, "if a conjecture suggests a decision, it is taken against the conjecture"); advice++; sym_reach("ADVICE"); } else { sym_check(bbVar ? isBB : natural, "backbone conjectures are decided the other way, other variables as without advice"); if (bbVar) sym_reach("BACKBONE"); } }
    else if (KIND == 1) { // every single advice is used LIMIT times at most
      bool left = false; for (auto& k : advKey) left |= used[k] < LIMIT;
      if (left) { sym_check(isAdv, "advice within its budget is taken"); bool found = false; (void)found; unsigned cand = 0; for (size_t i = 0; i < adv.size(); i++) if (adv[i] == d) cand++; if (cand == 1) { for (size_t i = 0; i < adv.size(); i++) if (adv[i] == d) { sym_check(used[advKey[i]] < LIMIT, "advice beyond its budget is not taken"); used[advKey[i]]++; } } else return 0; advice++; sym_reach("ADVICE"); }
      else { if (!adv.empty()) sym_reach("SPENT"); if (bbVar && bbused[(int)d.var()] < LIMIT) { sym_check(isBB, "backbone conjectures within their budget are decided the other way"); bbused[(int)d.var()]++; sym_reach("BACKBONE"); } else sym_check(natural, "without budget the usual decision is taken"); } }
    else { // in the first half-life all decisions use the conjectures
      if (2 * picks <= LIMIT) { if (!adv.empty()) { sym_check(isAdv, "advice is taken while it has not begun to vanish"); sym_reach("ADVICE"); } else sym_check(bbVar ? isBB : natural, "without advice the usual decision is taken"); } else { sym_check(isAdv || isBB || natural, "decisions are advised or usual ones"); sym_reach("LATER"); } }
    t.newDecisionLevel(); t.decide(d); sym_check(br.getLastDecision() == d, "the last decision is reported"); sym_observe("decision", (int)d);
  } }
template <class B> static bool is(CandySolverInterface* s) { return dynamic_cast<B*>(s->getBranchingUnit()) != nullptr; }
static int kinds() { // the branching unit is the one the options ask for
  static const char* modes[] = {"unrestricted", "vanishing", "implicationbudgeted"}; unsigned m = sym_pick("mode", 0, 2), size = sym_pick("size", 2, 3), st = sym_pick("static", 0, 1), k = sym_pick("kind", 0, 2);
  RSILOptions::opt_rsil_mode = modes[m]; std::unique_ptr<CandySolverInterface> s(createSolver(st, k == 1, false, k == 2, size)); bool ok = false;
  if (k == 0) ok = is<VSIDS>(s.get()); else if (k == 1) ok = is<LRB>(s.get());
  else if (m == 0) ok = size == 2 ? is<RSILBranchingHeuristic2>(s.get()) : is<RSILBranchingHeuristic3>(s.get());
  else if (m == 1) ok = size == 2 ? is<RSILVanishingBranchingHeuristic2>(s.get()) : is<RSILVanishingBranchingHeuristic3>(s.get());
  else ok = size == 2 ? is<RSILBudgetBranchingHeuristic2>(s.get()) : is<RSILBudgetBranchingHeuristic3>(s.get());
  sym_check(ok, "the solver branches as the options ask"); sym_reach("KIND"); return 0; }
extern "C" int harness() { configure(); const char* m = sym_param("BRANCH", "vsids");
  if (!strcmp(m, "kinds")) return kinds(); if (!strcmp(m, "vsids")) return run<VSIDS, Plain, 0, -1>(); if (!strcmp(m, "lrb")) return run<LRB, Plain, 0, -2>();
  if (!strcmp(m, "rsil3")) return run<RSILBranchingHeuristic3, Rsil<3, 0>, 3, 0>(); if (!strcmp(m, "rsil2")) return run<RSILBranchingHeuristic2, Rsil<2, 0>, 2, 0>();
  if (!strcmp(m, "budget3")) return run<RSILBudgetBranchingHeuristic3, Rsil<3, 1>, 3, 1>(); if (!strcmp(m, "budget2")) return run<RSILBudgetBranchingHeuristic2, Rsil<2, 1>, 2, 1>();
  if (!strcmp(m, "vanish3")) return run<RSILVanishingBranchingHeuristic3, Rsil<3, 2>, 3, 2>(); return run<RSILVanishingBranchingHeuristic2, Rsil<2, 2>, 2, 2>(); }
