// Clause storage: histories of creating, removing, strengthening, reducing and reorganising, compared with a plain list.
#include "cnf.h"
#include "opts.h"
#include "candy/core/Trail.h"
#include "candy/core/clauses/ClauseDatabase.h"
#include "candy/core/clauses/ClauseAllocatorMemory.h"
#include "candy/core/CandySolverInterface.h"
#include "candy/core/CandySolverResult.h"
#include "candy/systems/ReduceDB.h"
#include <algorithm>
#include <cstring>
#include <map>
using namespace Candy; using namespace H;
typedef std::vector<Lit> V;
struct Ent { V l; unsigned lbd; Clause* c; };
static V sorted(const V& v) { V r = v; std::sort(r.begin(), r.end(), [](Lit a, Lit b) { return (int)a < (int)b; }); return r; }
static V lits(const Clause* c) { return V(c->begin(), c->end()); }

static void compare(ClauseDatabase& db, std::vector<Ent>& m, unsigned NV, bool fresh) {
  std::vector<char> used(m.size(), 0); unsigned live = 0, dead = 0;
  for (Clause* c : db) { if (c->isDeleted()) { dead++; continue; } live++; V s = sorted(lits(c)); bool found = false;
    for (size_t i = 0; i < m.size() && !found; i++) if (!used[i] && m[i].lbd == c->getLBD() && sorted(m[i].l) == s && (fresh || m[i].c == c)) { used[i] = 1; found = true; m[i].c = c; }
    sym_check(found, "the database holds only clauses that were added, with their literals and their LBD"); 
    sym_check(c->isLearnt() == (c->getLBD() > 0) && c->isPersistent() == (c->getLBD() == 0), "clauses without LBD are permanent"); }
  sym_check(live == m.size(), "no clause that was added and not removed is lost"); if (fresh) sym_check(dead == 0 && db.size() == m.size(), "removed clauses are gone after reorganising");
  std::vector<V> u, mu; for (Clause* c : db.getUnitClauses()) u.push_back(lits(c)); for (auto& e : m) if (e.l.size() == 1) mu.push_back(e.l);
  auto lt = [](const V& a, const V& b) { return (int)a[0] < (int)b[0]; }; std::sort(u.begin(), u.end(), lt); std::sort(mu.begin(), mu.end(), lt); sym_check(u == mu, "the unit clauses are listed");
  for (unsigned k = 0; k < 2 * NV; k++) { Lit w((int)(k / 2), k & 1); std::vector<std::pair<Clause*, int>> have, want; for (auto& b : db.getBinaryWatchers(w)) have.push_back({b.clause, (int)b.other});
    for (auto& e : m) if (e.l.size() == 2) { if (e.l[0] == ~w) want.push_back({e.c, (int)e.l[1]}); if (e.l[1] == ~w) want.push_back({e.c, (int)e.l[0]}); }
    bool ok = have.size() == want.size(); for (auto& h : have) { auto it = std::find(want.begin(), want.end(), h); if (it == want.end()) ok = false; else want.erase(it); }
    sym_check(ok, "the binary watchers are the live binary clauses"); } }

static int history() {
  const unsigned NV = sym_iparam("NV", 4), STEPS = sym_iparam("STEPS", 4), MED = sym_iparam("MEDIAN", 0), PLBD = sym_iparam("PLBD", 2);
  ClauseDatabaseOptions::opt_persistent_lbd = PLBD; ClauseDatabaseOptions::opt_keep_median_lbd = MED != 0; ClauseDatabaseOptions::opt_first_reduce_db = 1;
  Formula f; f.parse(sym_param("SPEC", ""), NV); CNFProblem p; f.addTo(p); while (p.nVars() < NV) p.newVar();
  ClauseDatabase db; db.init(p); Trail t(NV); ReduceDB red(db, t); std::vector<Ent> m; bool empty = false;
  for (Cl* c : p) { m.push_back({V(c->begin(), c->end()), 0, nullptr}); empty |= c->size() == 0; } { size_t i = 0; for (Clause* c : db) m[i++].c = c; }
  compare(db, m, NV, false); unsigned n = 0; const char* ops = sym_param("OPS", "crsod"); const unsigned NO = strlen(ops);
  for (unsigned s = 0; s < STEPS; s++) { char op = ops[sym_iparam("SEQ", 0) ? s % NO : sym_pick("op", 0, NO - 1)]; bool fresh = false;
    if (op == 'c') { unsigned len = sym_pick("len", sym_iparam("MINLEN", 0), sym_iparam("MAXLEN", 4)), lbd = len ? sym_pick("lbd", 0, len < 4 ? len : 4) : 0; V l; for (unsigned i = 0; i < len; i++) l.push_back(Lit((int)((n + i * (1 + s % 2)) % NV), i == 0 && sym_iparam("SIGNS", 1) ? sym_bool("sign") : (n + i) & 1)); for (size_t i = 1; i < l.size(); i++) for (size_t j = 0; j < i; j++) if (l[i].var() == l[j].var()) { l.erase(l.begin() + i); i--; break; }
      if (lbd > l.size()) lbd = l.size(); n++; Clause* c = db.createClause(l.begin(), l.end(), lbd); sym_check(lits(c) == l, "a new clause has the literals given"); m.push_back({l, l.size() < 3 ? 0 : lbd, c}); empty |= l.empty(); }
    else if (op == 'r') { if (m.empty()) continue; unsigned i = sym_pick("which", 0, m.size() - 1); db.removeClause(m[i].c); m.erase(m.begin() + i); sym_reach("REMOVED"); }
    else if (op == 's') { if (m.empty()) continue; unsigned i = sym_pick("which", 0, m.size() - 1); if (m[i].l.size() < 2) continue; unsigned k = sym_pick("at", 0, m[i].l.size() - 1); Lit x = m[i].l[k]; V l; for (Lit y : m[i].l) if (y != x) l.push_back(y); unsigned old = m[i].lbd;
      Clause* c = db.strengthenClause(m[i].c, x); m.erase(m.begin() + i); sym_check(sorted(lits(c)) == sorted(l), "a strengthened clause has exactly the other literals"); sym_check(old ? c->getLBD() <= old && c->getLBD() <= l.size() : c->isPersistent(), "strengthening keeps permanent clauses permanent and raises no LBD"); m.push_back({l, c->getLBD(), c}); sym_reach("STRENGTHENED"); }
    else if (op == 'o') { db.reorganize(); fresh = true; sym_reach("REORGANIZED"); }
    else if (op == 'd') { std::vector<Ent> cand, kept, gone; std::vector<Ent> m2; red.reduce();
      for (auto& e : m) if (e.lbd > PLBD) cand.push_back(e); for (auto& e : m) { if (e.c->isDeleted()) { sym_check(e.lbd > PLBD, "reduction removes no permanent clause and none with a small LBD"); gone.push_back(e); } else { if (e.lbd > PLBD) kept.push_back(e); m2.push_back(e); } }
      for (auto& g : gone) for (auto& k : kept) { sym_check(k.lbd <= g.lbd, "reduction keeps the clauses with the smaller LBD"); if (MED) sym_check(k.lbd < g.lbd, "clauses with the median LBD are kept"); }
      if (MED) { std::vector<unsigned> v; for (auto& e : cand) v.push_back(e.lbd); std::sort(v.begin(), v.end()); for (auto& g : gone) sym_check(g.lbd > v[v.size() / 2], "clauses with the median LBD are kept"); for (auto& k : kept) if (cand.size() > 1) sym_check(k.lbd <= v[v.size() / 2], "clauses above the median LBD are removed"); }
      else if (cand.size() > 1) sym_check(gone.size() == cand.size() - cand.size() / 2, "half of the candidates are removed"); 
      m.swap(m2); if (!gone.empty()) sym_reach("REDUCED"); }
    compare(db, m, NV, fresh); sym_check(db.hasEmptyClause() == empty, "the empty clause is noticed"); if (empty) sym_reach("EMPTY"); }
  sym_observe("clauses", m.size()); return 0; }

// several pages: reallocation, absorption and import of long clauses
static int pages() {
  const unsigned K = sym_iparam("CLAUSES", 6), R = sym_iparam("ROUNDS", 2); ClauseAllocatorMemory a(1), b(1), g(1); struct L { unsigned len; int first; unsigned lbd; }; std::vector<L> m; std::vector<Clause*> own;
  static const unsigned LEN[] = {1, 90000, 3, 120000, 200000, 0, 262100, 40000, 262140, 300000, 2};
  const unsigned S = sym_iparam("START", 0); ClauseAllocatorMemory* mem = &a; std::vector<Lit> big(300000);
  for (unsigned i = 0; i < K; i++) { unsigned len = LEN[(S + i) % 11], lbd = len > 2 ? sym_pick("lbd", 0, 1) : 0; if (len) big[0] = Lit((int)i, 0), big[len - 1] = len > 1 ? Lit((int)(100 + i), 1) : Lit((int)i, 0); void* q = mem->allocate(len); Clause* c = new (q) Clause(big.begin(), big.begin() + len, lbd); sym_check(mem->contains(c), "an allocated clause belongs to the memory"); m.push_back({len, len ? (int)i : -1, lbd}); own.push_back(c); }
  for (unsigned r = 0; r < R; r++) {
    unsigned how = sym_pick("how", 0, 2); ClauseAllocatorMemory* to = r == 0 ? &b : &g;
    if (how == 0) { mem->reallocate(); mem->free_phase_out_pages(); sym_reach("MOVED"); }
    else if (how == 1) { to->absorb(*mem); sym_check(mem->used() == 0 && mem->collect().empty(), "absorbed memory is empty"); mem = to; sym_reach("ABSORBED"); }
    else { unsigned limit = sym_pick("limit", 0, 1) * 100000; to->import(*mem, limit); std::vector<L> m2, rest; for (auto& e : m) (e.lbd == 0 || limit == 0 || e.len < limit ? m2 : rest).push_back(e); std::vector<Clause*> old = mem->collect(); sym_check(old.size() == rest.size(), "imported clauses are taken away, others stay"); for (size_t i = 0; i < old.size(); i++) sym_check(old[i]->size() == rest[i].len, "clauses over the limit stay"); mem = to; m = m2; sym_reach("IMPORTED"); }
    std::vector<Clause*> c = mem->collect(); sym_check(c.size() == m.size(), "no clause is lost"); std::vector<char> used(m.size(), 0);
    for (Clause* x : c) { bool f = false; for (size_t i = 0; i < m.size() && !f; i++) if (!used[i] && x->size() == m[i].len && x->getLBD() == m[i].lbd && (m[i].len == 0 || (int)x->first().var() == m[i].first)) { used[i] = 1; f = true; if (m[i].len > 1) sym_check((int)x->back().var() == 100 + m[i].first && x->back().sign(), "the literals are moved with the clause"); } sym_check(f, "every clause is one that was added"); }
    if (c.size() > 1) { unsigned i = sym_pick("del", 0, c.size()); if (i < c.size()) { ClauseDatabase* none = nullptr; (void)none; ClauseAllocator al; al.deallocate(c[i]); size_t k = 0; while (!(c[i]->size() == m[k].len && (m[k].len == 0 || (int)c[i]->first().var() == m[k].first))) k++; m.erase(m.begin() + k); sym_check(mem->collect().size() == m.size(), "a removed clause is not collected"); sym_reach("DELETED"); } } }
  return 0; }

// clauses of any length: all literals but the last few are refuted by unit clauses
static int longc() {
  const unsigned N = sym_iparam("LEN", 65537), F = sym_iparam("FREE", 3); CNFProblem p; Cl c; for (unsigned i = 0; i < N; i++) c.push_back(Lit((int)i, 0)); p.readClause(c);
  std::vector<char> val(F); Cl u; for (unsigned i = 0; i < F; i++) { val[i] = sym_pick("unit", 0, 2); if (val[i] < 2) { u.assign(1, Lit((int)(i % 2 ? N - 1 - i : i), val[i] == 0)); p.readClause(u); } }
  ClauseDatabase db; db.init(p); unsigned n = 0; for (Clause* x : db) if (x->size() > 1) { n++; sym_check(x->size() == N && (unsigned)x->back().var() == N - 1, "a clause of any length keeps its literals"); } sym_check(n == 1, "the clause is there"); db.reorganize(); n = 0; for (Clause* x : db) if (x->size() > 1) { n++; sym_check(x->size() == N && (unsigned)x->back().var() == N - 1, "a clause of any length survives reorganising"); } sym_check(n == 1, "the clause is still there");
  if (sym_iparam("SOLVE", 0)) { std::unique_ptr<CandySolverInterface> s(makeSolver()); s->init(p); lbool r = s->solve(); sym_check(r == l_True, "a long clause can be satisfied"); CandySolverResult& m = s->getCandySolverResult(); bool ok = false; for (unsigned i = 0; i < N; i++) ok |= m.satisfies(Lit((int)i, 0)); sym_check(ok, "the model satisfies the long clause"); for (unsigned i = 0; i < F; i++) if (val[i] < 2) sym_check(m.satisfies(Lit((int)(i % 2 ? N - 1 - i : i), val[i] == 0)), "the model satisfies the units"); sym_reach("SAT"); }
  return 0; }
extern "C" int harness() { configure(); const char* m = sym_param("MODE", "history"); return !strcmp(m, "history") ? history() : !strcmp(m, "pages") ? pages() : longc(); }
