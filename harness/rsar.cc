// Abstraction refinement: the encoded approximation after each refinement step, the input dependency heuristic and the
// solver using arbitrary conjectures.
#include "cnf.h"
#include "opts.h"
#include "candy/core/CandySolverInterface.h"
#include "candy/core/CandySolverResult.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/randomsimulation/Conjectures.h"
#include "candy/rsar/ARSolver.h"
#include "candy/rsar/ApproximationState.h"
#include "candy/rsar/Heuristics.h"
#include "candy/rsar/Refinement.h"
#include <cstring>
#include <set>
using namespace Candy; using namespace H;
// what is to be withdrawn is decided per step and variable
struct Drop : RefinementHeuristic { int step = -1; const std::vector<std::vector<char>>& d; explicit Drop(const std::vector<std::vector<char>>& d_) : d(d_) {}
  template <class T> void mark(T& t) { if (step < (int)d.size()) for (unsigned v = d[step].size(); v-- > 0;) if (d[step][v]) t.addVariableRemovalToWorkQueue((int)v); }
  void beginRefinementStep() override { step++; }
  void markRemovals(EquivalenceImplications& e) override { mark(e); }
  void markRemovals(Backbones& b) override { mark(b); } };
// classes of literals: "1 2 -3;4 ?5" and backbones "6 -7" (? : symbolic sign)
static std::vector<std::vector<Lit>> classes(const char* s) { Formula f; f.parse(s, 1); std::vector<std::vector<Lit>> r; for (auto& c : f.cls) { r.emplace_back(); for (auto& l : c) r.back().push_back(Lit((int)l.var, sym_concretize(l.sign) != 0)); } return r; }
static std::unique_ptr<Conjectures> conj(const std::vector<std::vector<Lit>>& eq, const std::vector<std::vector<Lit>>& bb) {
  std::unique_ptr<Conjectures> c(new Conjectures()); for (auto& e : eq) c->addEquivalence(EquivalenceConjecture(e)); for (auto& b : bb) for (Lit l : b) c->addBackbone(BackboneConjecture(l)); return c; }

static int strat() {
  const unsigned NV = sym_iparam("NV", 7), ST = sym_iparam("STEPS", 2); auto eq = classes(sym_param("EQ", "")), bb = classes(sym_param("BB", ""));
  std::vector<std::vector<char>> drop(ST, std::vector<char>(NV, 0)); std::vector<char> gone(NV, 0);
  for (unsigned s = 0; s < ST; s++) for (unsigned v = 0; v < NV; v++) if (!gone[v] && sym_pick("drop", 0, 1)) { drop[s][v] = 1; if (sym_iparam("ONCE", 1)) gone[v] = 1; }
  gone.assign(NV, 0); int next = NV; std::set<int> vars; std::vector<std::unique_ptr<RefinementHeuristic>> h; h.push_back(std::unique_ptr<RefinementHeuristic>(new Drop(drop)));
  auto c = conj(eq, bb); auto st = createDefaultRefinementStrategy(*c, std::move(h), [&]() { return Var(next++); });
  Asg x = symAsg(NV); std::vector<Cl> all; unsigned active = 0;
  for (unsigned s = 0; s < ST + 1; s++) {
    auto d = s == 0 ? st->init() : st->refine(); if (s < ST) for (unsigned v = 0; v < NV; v++) gone[v] |= drop[s][v];
    for (auto& cl : d->getNewClauses()) { all.push_back(cl); Lit a = getAssumptionLit(cl); sym_check((int)a.var() >= (int)NV && (int)a.var() < next && !isActive(a), "a clause carries the negated activation literal of a created variable");
      sym_check(vars.insert((int)a.var()).second, "every clause has its own activation variable"); auto p = getNonAssumptionLits(cl); for (Lit l : cl) if (l != a) sym_check(l == p.first || l == p.second, "the other literals of the clause are found"); }
    std::vector<int> act(next, -1); active = 0; for (Lit l : d->getAssumptionLiterals()) { sym_check((int)l.var() >= (int)NV && (int)l.var() < next && act[(int)l.var()] < 0, "each created variable is assumed once"); act[(int)l.var()] = isActive(l); active += isActive(l); sym_check(l == (isActive(l) ? activatedAssumptionLit(l.var()) : deactivatedAssumptionLit(l.var())), "assumptions are activations or deactivations"); }
    sym_check(d->countEnabledClauses() == active, "the enabled clauses are counted"); for (int v = NV; v < next; v++) sym_check(act[v] >= 0, "every created variable is assumed");
    uint8_t have = 1; for (auto& cl : all) { uint8_t k = 0; for (Lit l : cl) k |= (int)l.var() < (int)NV ? evLit(x, l) : (uint8_t)((act[(int)l.var()] != 0) != l.sign()); have &= k; }
    uint8_t want = 1; unsigned n = 0; for (auto& e : eq) { std::vector<Lit> r; for (Lit l : e) if (!gone[(int)l.var()]) r.push_back(l); for (unsigned i = 1; i < r.size(); i++) want &= (uint8_t)(evLit(x, r[0]) == evLit(x, r[i])); if (r.size() > 1) n += r.size(); }
    for (auto& b : bb) for (Lit l : b) if (!gone[(int)l.var()]) want &= evLit(x, l), n++;
    sym_check(have == want, "the enabled clauses say exactly that the conjectures not withdrawn hold"); sym_check(active <= n, "withdrawing everything disables everything"); if (n && s) sym_reach("REFINED"); sym_observe("active", active); }
  return 0; }

static int heur() {
  const unsigned NV = sym_iparam("NV", 4); Formula f; f.parse(sym_param("SPEC", ""), NV); CNFProblem p; f.addTo(p); while (p.nVars() < NV) p.newVar();
  GateAnalyzer ga(p, static_cast<GateRecognitionMethod>(sym_iparam("METHOD", 0)), 0, 0); ga.analyze(); const GateProblem& gp = ga.getGateProblem();
  std::vector<std::set<int>> dep(NV); std::vector<char> out(NV, 0), isDef(NV, 0); for (const Gate& g : gp) if (g.isDefined()) out[(int)g.out.var()] = 1;
  for (bool ch = true; ch;) { ch = false; for (const Gate& g : gp) if (g.isDefined()) { auto& d = dep[(int)g.out.var()]; size_t o = d.size(); for (Lit i : g.inp) if (out[(int)i.var()]) d.insert(dep[(int)i.var()].begin(), dep[(int)i.var()].end()); else d.insert((int)i.var()); ch |= d.size() != o; } }
  std::vector<size_t> cfg; unsigned c0 = sym_pick("limit", 0, 5); if (sym_iparam("LEVELS", 2) > 0) { cfg.push_back(c0); for (int k = 1; k < sym_iparam("LEVELS", 2); k++) cfg.push_back(cfg.back() > 1 ? cfg.back() - 1 - (k & 1) * (cfg.back() > 2) : cfg.back()); }
  auto h = createInputDepCountRefinementHeuristic(ga, cfg); const bool PROBE = sym_iparam("PROBE", 1);
  // all gate outputs: the even ones in one class, the odd ones as backbones
  std::unique_ptr<RefinementStrategy> st; std::unique_ptr<Conjectures> c(new Conjectures()); int next = NV; EquivalenceConjecture e; std::vector<Lit> le, lb;
  for (unsigned v = 0; v < NV; v++) if (out[v]) { if (v & 1) { c->addBackbone(BackboneConjecture(Lit((int)v, v % 3 == 0))); lb.push_back(Lit((int)v, v % 3 == 0)); } else { e.addLit(Lit((int)v, 0)); le.push_back(Lit((int)v, 0)); } }
  if (e.size()) c->addEquivalence(e); std::vector<char> gone(NV, 0);
  if (!PROBE) { std::vector<std::unique_ptr<RefinementHeuristic>> hs; hs.push_back(std::move(h)); st = createDefaultRefinementStrategy(*c, std::move(hs), [&]() { return Var(next++); }); }
  Asg x = symAsg(NV); std::vector<Cl> all;
  for (unsigned s = 0; s < cfg.size() + 3; s++) {
    std::vector<char> before = gone; for (unsigned v = 0; v < NV; v++) if (out[v]) gone[v] |= s >= cfg.size() || dep[v].size() > cfg[s];
    if (PROBE) { h->beginRefinementStep(); for (unsigned v = 0; v < NV; v++) sym_check(h->probe((int)v, v & 1) == (gone[v] && !before[v]), "the heuristic withdraws the outputs with too many inputs at the right step"); }
    else { auto d = s == 0 ? st->init() : st->refine(); for (auto& cl : d->getNewClauses()) all.push_back(cl); std::vector<int> act(next, 0); for (Lit l : d->getAssumptionLiterals()) act[(int)l.var()] = isActive(l);
      uint8_t have = 1, want = 1; for (auto& cl : all) { uint8_t k = 0; for (Lit l : cl) k |= (int)l.var() < (int)NV ? evLit(x, l) : (uint8_t)((act[(int)l.var()] != 0) != l.sign()); have &= k; }
      Lit fst = lit_Undef; for (Lit l : le) if (!gone[(int)l.var()]) { if (fst == lit_Undef) fst = l; else want &= (uint8_t)(evLit(x, fst) == evLit(x, l)); } for (Lit l : lb) if (!gone[(int)l.var()]) want &= evLit(x, l);
      sym_check(have == want, "the approximation keeps the conjectures with few enough inputs"); }
    unsigned n = 0; for (char g : gone) n += g; sym_observe("gone", n); if (n && s < cfg.size()) sym_reach("LIMITED"); }
  return 0; }

static int solver() {
  const unsigned NV = sym_iparam("NV", 4); Formula f; f.parse(sym_param("SPEC", ""), NV); Asg x = symAsg(NV); CNFProblem p; f.addTo(p); while (p.nVars() < NV) p.newVar();
  RSAROptions::opt_rsar_maxRefinementSteps = sym_iparam("MAXREF", 10); auto eq = classes(sym_param("EQ", "")), bb = classes(sym_param("BB", ""));
  std::vector<std::vector<char>> drop(3, std::vector<char>(NV, 0)); for (unsigned v = 0; v < NV && v < (unsigned)sym_iparam("DV", 2); v++) drop[v % 3][v] = sym_iparam("DROP", 0) ? sym_pick("drop", 0, 1) : 0;
  std::unique_ptr<ARSolver> s; if (sym_iparam("DROP", 0)) s.reset(new ARSolver(conj(eq, bb), std::unique_ptr<RefinementHeuristic>(new Drop(drop)), makeSolver())); else s.reset(new ARSolver(conj(eq, bb), makeSolver()));
  s->init(p); lbool r = s->solve(); sym_check(r == l_True || r == l_False, "the solver answers"); sym_observe("status", r == l_True ? 10 : 20);
  if (r == l_True) { sym_reach("SAT"); CandySolverResult& m = s->getCandySolverResult(); bool ok = true; for (auto& c : f.cls) { bool k = false; for (auto& l : c) k |= m.satisfies(Lit((int)l.var, l.sign)); ok &= k; } sym_check(ok, "whatever is conjectured, the model satisfies every clause"); }
  else { sym_reach("UNSAT"); sym_check(f.eval(x) == 0, "whatever is conjectured, an unsatisfiable answer is right"); }
  return 0; }
extern "C" int harness() {
  configure(); const char* m = sym_param("MODE", "strat"); return !strcmp(m, "strat") ? strat() : !strcmp(m, "heur") ? heur() : solver(); }
