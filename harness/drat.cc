// Proof emission: a refutation written by the solver is a valid DRAT proof of the input (checked by the
// naive checker below), and the repository's own checker accepts it.
#include "cnf.h"
#include "opts.h"
#include "proof.h"
#include "naive.h"
#include "candy/core/CandySolverInterface.h"
#include "candy/core/CandySolverResult.h"
#include "candy/core/DRATChecker.h"
#include "candy/frontend/CandyBuilder.h"
using namespace Candy; using namespace H;
extern "C" int harness() {
  configure(); const unsigned NV = sym_iparam("NV", 4); const char* SPEC = sym_param("SPEC", ""); const bool OWN = sym_iparam("OWN", 0);
  Candy::SolverOptions::opt_certified_file = "proof.drat";
  Formula f; f.parse(SPEC, NV);
  CNFProblem p; f.addTo(p);
  lbool r = l_Undef;
  { CandySolverInterface* s = makeSolver(); s->init(p); r = s->solve(); delete s; }
  sym_observe("status", r == l_True ? 10 : 20);
  if (r != l_False) { sym_reach("SAT"); return 0; }
  sym_reach("UNSAT");
  bool bad; std::vector<PLine> pl = proofLines("proof.drat", bad);
  sym_check(!bad, "the proof text is a sequence of clauses, each terminated by 0");
  sym_observe("lines", pl.size());
  if (OWN) {      // the repository's checker accepts the solver's proof
    std::vector<char>& txt = *new std::vector<char>;
    for (auto& l : pl) { if (l.del) { txt.push_back('d'); txt.push_back(' '); } for (int v : l.lits) { v = (int)sym_concretize((unsigned)v); if (v < 0) { txt.push_back('-'); v = -v; } char b[12]; int n = 0; do { b[n++] = '0' + v % 10; v /= 10; } while (v); while (n) txt.push_back(b[--n]); txt.push_back(' '); } txt.push_back('0'); txt.push_back('\n'); }
    const char* data = txt.data();
    sym_file("proof2.drat", data, txt.size());
    Candy::SolverOptions::opt_certified_file = "";
    DRATChecker ck(p);
    sym_check(ck.check_proof("proof2.drat"), "the built-in checker accepts the proof of an unsatisfiable answer");
    return 0; }
  bool ended = false; for (auto& l : pl) ended |= !l.del && l.lits.empty();
  sym_check(ended, "the proof of an unsatisfiable answer contains no empty clause");
  for (auto& c : f.cls) { C k; for (auto& l : c) k.push_back((int)(2 * l.var + l.sign)); db.push_back(k); live.push_back(1); }
  val.assign(NV, 0);
  bool refuted = false; unsigned adds = 0;
  if (up()) refuted = true;
  for (auto& l : pl) {
    C c; for (int v : l.lits) { unsigned var = (unsigned)(v < 0 ? -v : v); sym_check(var >= 1 && var <= NV, "a proof literal is over the formula's variables"); c.push_back((int)(2 * (var - 1) + (v < 0))); }
    if (refuted) break;
    if (l.del) { if (c.size() < 2) continue; for (size_t i = 0; i < db.size(); i++) if (live[i] && db[i].size() >= c.size()) { bool eq = true; for (int a : c) { bool in = false; for (int b : db[i]) in |= a == b; eq &= in; } for (int b : db[i]) { bool in = false; for (int a : c) in |= a == b; eq &= in; } if (eq) { live[i] = 0; break; } } 
      undo(0); if (up()) refuted = true; sym_reach("DELETED"); continue; }
    sym_check(rup(c) || rat(c), "an added clause is neither RUP nor RAT");
    adds++; db.push_back(c); live.push_back(1); if (up()) refuted = true; }
  sym_check(refuted, "the proof does not derive the empty clause");
  if (adds > 3) sym_reach("LEMMAS");
  return 0; }
