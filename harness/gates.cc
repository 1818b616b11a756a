// Gate recognition on a formula with symbolic parts: the reported roots, gate definitions and remainder
// partition the clauses, and each recognised gate is a total (and, where claimed, unique) definition.
#include "cnf.h"
#include "opts.h"
#include "candy/gates/GateAnalyzer.h"
using namespace Candy; using namespace H;
static uint8_t sat(const For& f, const Asg& x, Lit o, bool v) {
  uint8_t r = 1;
  for (Cl* c : f) { uint8_t cs = 0; for (Lit l : *c) if (l.var() == o.var()) cs |= (uint8_t)((l == o) == v); else cs |= evLit(x, l); r &= cs; }
  return r; }
extern "C" int harness() {
  configure(); const unsigned NV = sym_iparam("NV", 4);
  Formula f; f.parse(sym_param("SPEC", ""), NV); Asg x = symAsg(NV);
  CNFProblem p; f.addTo(p); while (p.nVars() < NV) p.newVar();
  std::vector<const Cl*> all; std::vector<std::vector<Lit>> content;
  for (Cl* c : p) { all.push_back(c); content.push_back(std::vector<Lit>(c->begin(), c->end())); }
  const int method = sym_iparam("METHOD", 10);
  GateAnalyzer ga(p, static_cast<GateRecognitionMethod>(method), sym_iparam("TRIES", 0), 0);
  ga.analyze();
  GateProblem& gp = ga.getResult();
  // partition
  std::vector<int> seen(all.size(), 0);
  auto mark = [&](const Cl* c) { for (size_t i = 0; i < all.size(); i++) if (all[i] == c) { seen[i]++; return; } sym_fail("a clause of the result is not a clause of the problem"); };
  for (Cl* c : gp.getRoots()) mark(c);
  for (Cl* c : gp.remainder) mark(c);
  unsigned cnt = 0, mono = 0;
  for (const Gate& g : gp) if (g.isDefined()) {
    cnt++; if (!g.hasNonMonotonicParent()) mono++;
    sym_check(&gp.getGate(g.out) == &g, "a gate is stored under the variable of its output");
    for (Cl* c : g.fwd) { mark(c); bool has = false; for (Lit l : *c) has |= l == ~g.out; sym_check(has, "a forward clause contains the negated output"); }
    for (Cl* c : g.bwd) { mark(c); bool has = false; for (Lit l : *c) has |= l == g.out; sym_check(has, "a backward clause contains the output"); }
    sym_check(!g.fwd.empty(), "a gate has a forward clause");
    for (Cl* c : g.fwd) for (Lit l : *c) if (l != ~g.out) { bool in = false; for (Lit i : g.inp) in |= i == l; sym_check(in, "the inputs are the other literals of the forward clauses"); }
    for (Lit i : g.inp) { bool in = false; for (Cl* c : g.fwd) for (Lit l : *c) in |= l == i; sym_check(in && i.var() != g.out.var(), "an input occurs in a forward clause and is not the output"); }
    uint8_t t = sat(g.fwd, x, g.out, true) & sat(g.bwd, x, g.out, true), e = sat(g.fwd, x, g.out, false) & sat(g.bwd, x, g.out, false);
    sym_check((t | e) != 0, "for every input assignment the gate clauses leave a value for the output");
    if (g.hasNonMonotonicParent()) { sym_reach("NONMONO"); if (method == 0 || method == 1 || method == 10) sym_check((t & e) == 0, "for every input assignment the gate clauses leave a single value for the output"); }
    else sym_reach("MONO"); }
  sym_check(cnt == gp.nGates() && (int)cnt == gp.getGateCount() && mono == gp.nMonotonGates(), "the gate counters count the gates");
  for (size_t i = 0; i < all.size(); i++) sym_check(seen[i] == 1, "every clause is a root, in one gate, or in the remainder");
  for (size_t i = 0; i < all.size(); i++) sym_check(std::vector<Lit>(all[i]->begin(), all[i]->end()) == content[i], "analysis leaves the problem unchanged");
  // monotone use: a gate that is not marked occurs only in one polarity among roots and inputs of gates
  std::vector<char> used(2 * NV, 0);
  for (Cl* c : gp.getRoots()) for (Lit l : *c) used[l] = 1;
  for (const Gate& g : gp) if (g.isDefined()) for (Lit l : g.inp) { used[l] = 1; if (g.hasNonMonotonicParent()) used[~l] = 1; }
  for (const Gate& g : gp) if (g.isDefined() && !g.hasNonMonotonicParent()) sym_check(!(used[g.out] && used[~g.out]), "a gate used in both polarities is marked as non-monotone");
  // acyclic definitions
  std::vector<char> done(NV, 0); for (unsigned r = 0; r <= NV; r++) for (const Gate& g : gp) if (g.isDefined() && !done[g.out.var()]) { bool ok = true; for (Lit i : g.inp) { const Gate& h = gp.getGate(i); ok &= !h.isDefined() || done[i.var()]; } if (ok) done[g.out.var()] = 1; }
  for (const Gate& g : gp) if (g.isDefined()) sym_check(done[g.out.var()], "gate definitions are acyclic");
  sym_observe("gates", cnt); sym_observe("mono", mono); sym_observe("roots", gp.nRoots());
  if (cnt > 1) sym_reach("GATES2");
  return 0; }
