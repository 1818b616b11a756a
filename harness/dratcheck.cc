// The built-in proof checker on an arbitrary symbolic proof text: it accepts only refutations of
// unsatisfiable formulas, and a proof consisting of RUP steps that derives the empty clause is accepted.
#include "cnf.h"
#include "opts.h"
#include "candy/core/DRATChecker.h"
#include "candy/utils/Exceptions.h"
#include "naive.h"
using namespace Candy; using namespace H;
// the text is a refutation by unit propagation only (clauses without repeated variables, deletions of units ignored)
static bool rupRefutation(const Formula& f, const std::vector<char>& d, unsigned NV) {
  for (auto& c : f.cls) { C k; for (auto& l : c) k.push_back((int)sym_concretize((uint64_t)(2 * l.var + l.sign))); db.push_back(k); live.push_back(1); }
  val.assign(NV, 0); bool refuted = up(); size_t i = 0, n = d.size(); bool done = false;
  while (i < n) {
    bool del = false; C c; std::vector<char> used(NV, 0);
    while (i < n && (d[i] == ' ' || d[i] == '\n')) i++;
    if (i < n && sym_concretize((unsigned char)d[i]) == 'd') { del = true; i++; }
    if (i >= n) break;
    for (;;) { while (i < n && (d[i] == ' ' || d[i] == '\n')) i++; bool neg = false; if (i < n && d[i] == '-') { neg = true; i++; }
      if (i >= n || d[i] < '0' || d[i] > '9') return false;
      unsigned v = (unsigned)sym_concretize((unsigned char)d[i++]) - '0'; if (!v) { if (neg) return false; break; }
      if (v > NV || used[v - 1]) return false; used[v - 1] = 1; c.push_back((int)(2 * (v - 1) + neg)); }
    if (del) { if (c.size() < 2) continue; for (size_t j = 0; j < db.size(); j++) if (live[j] && db[j].size() == c.size()) { bool eq = true; for (int a : c) { bool in = false; for (int b : db[j]) in |= a == b; eq &= in; } if (eq) { live[j] = 0; break; } }
      undo(0); refuted = up(); continue; }
    if (!refuted && !rup(c)) return false;
    if (c.empty()) done = true;
    db.push_back(c); live.push_back(1); if (!refuted) refuted = up(); }
  return done; }
extern "C" int harness() {
  configure(); const unsigned NV = sym_iparam("NV", 3); const char* T = sym_param("PROOF", ""); const bool MUST = sym_iparam("MUST", 0);
  Formula f; f.parse(sym_param("SPEC", ""), NV); Asg x = symAsg(NV);
  CNFProblem p; f.addTo(p); if (sym_iparam("NEWVARS", 1)) while (p.nVars() < NV) p.newVar();
  // ~ a symbolic minus sign, @ a symbolic variable 1..NV, % a variable 1..NV+1, ? "d" or a blank, / end of line
  std::vector<char>& d = *new std::vector<char>;
  for (const char* t = T; *t; t++) {
    if (*t == '~') d.push_back(sym_pick("neg", 0, 1) ? '-' : ' ');
    else if (*t == '@') d.push_back((char)('0' + sym_pick("lit", 1, NV)));
    else if (*t == '%') d.push_back((char)('0' + sym_pick("lit", 1, NV + 1)));
    else if (*t == '?') d.push_back(sym_pick("del", 0, 1) ? 'd' : ' ');
    else if (*t == '/') d.push_back('\n'); else d.push_back(*t == '_' ? ' ' : *t); }
  const char* data = d.data(); sym_file("proof.drat", data, d.size());
  bool ok = false;
  try { DRATChecker ck(p); ok = ck.check_proof("proof.drat"); } catch (ParserException&) { sym_reach("MALFORMED"); return 0; }
  sym_observe("accepted", ok);
  if (ok) { sym_reach("ACCEPTED"); sym_check(f.eval(x) == 0, "a proof is accepted, but an assignment satisfies the formula"); }
  else { sym_reach("REJECTED"); if (MUST) sym_fail("a valid proof is rejected"); if (rupRefutation(f, d, NV)) sym_fail("a refutation by unit propagation is rejected"); }
  return 0; }
