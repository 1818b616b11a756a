// The formula store: printing, reading back, checking results, renaming, and the two identifiers.
#include "cnf.h"
#include "opts.h"
#include <string>
#include <cstdio>
#include <iostream>
#include <unistd.h>
#include "candy/core/CandySolverResult.h"
#include "candy/gbd/hash.h"
using namespace Candy; using namespace H;
static std::string* txt;
static void put(int c) { if (!txt) txt = new std::string; txt->push_back((char)c); }
extern "C" {
void* h_cout_int(void* os, long v) { char b[32]; snprintf(b, 32, "%i", (int)sym_concretize((uint64_t)v)); for (char* p = b; *p; p++) put(*p); return os; }
void* h_cout_char(void* os, char c) { put(c); return os; }
void* h_cout_str(void* os, const char* p) { for (; *p; p++) put(*p); return os; }
void* h_cout_buf(void* os, const char* p, long n) { for (long i = 0; i < n; i++) put(p[i]); return os; }
int h_printf(const char* p) { for (; *p; p++) put(*p); return 1; }
}
typedef std::vector<std::vector<int>> Plain;
static Plain plain(const CNFProblem& p) { Plain r; for (Cl* c : p) { r.emplace_back(); for (Lit l : *c) r.back().push_back(l.sign() ? -(int)l.var() - 1 : (int)l.var() + 1); } return r; }
static void onOut() { if (sym_native()) { std::cout.flush(); fflush(stdout); if (!freopen("out.txt", "w", stdout)) sym_fail("cannot redirect"); } if (txt) txt->clear(); else txt = new std::string; }
static void offOut() { if (sym_native()) { std::cout.flush(); fflush(stdout); FILE* f = fopen("out.txt", "r"); int c; while (f && (c = fgetc(f)) != EOF) put(c); if (f) fclose(f); } }
extern "C" int harness() {
  const unsigned NV = sym_iparam("NV", 3); const std::string mode = sym_param("MODE", "print");
  Formula f; f.parse(sym_param("SPEC", ""), NV);
  auto fix = [&](Formula& g) { if (mode == "equal") for (auto& c : g.cls) for (auto& l : c) l.sign = sym_concretize(l.sign) != 0; }; fix(f); // digests are computed on concrete text
  CNFProblem p; f.addTo(p); const Plain a = plain(p);
  // what is stored is the formula: no tautologies, no repeated literals, the rest in the given order
  { Plain w; unsigned max = 0; for (auto& c : f.cls) { bool taut = false; std::vector<int> q; for (auto& l : c) { max = l.var + 1 > max ? l.var + 1 : max; bool in = false; for (auto& k : c) taut |= k.var == l.var && k.sign != l.sign; int L = l.sign ? -(int)l.var - 1 : (int)l.var + 1; for (int k : q) in |= k == L; if (!in) q.push_back(L); } if (!taut) w.push_back(q); }
    sym_check(w.size() == a.size() && p.nClauses() == a.size(), "every clause is stored, tautologies are not"); sym_check(p.nVars() == max, "the number of variables is the largest variable");
    for (size_t i = 0; i < a.size(); i++) { sym_check(a[i].size() == w[i].size(), "repeated literals are stored once"); for (int l : w[i]) { bool in = false; for (int k : a[i]) in |= k == l; sym_check(in, "every literal is stored"); } } }
  if (mode == "print") {
    onOut(); p.printDIMACS(); offOut(); std::string t = *txt; sym_file("in.cnf", t.data(), t.size());
    CNFProblem q; q.readDimacsFromFile("in.cnf");
    sym_check(plain(q) == a, "a printed formula is read back unchanged");
    char h[64]; snprintf(h, 64, "p cnf %u %u\n", (unsigned)p.nVars(), (unsigned)a.size()); sym_check(t.compare(0, strlen(h), h) == 0, "the header announces variables and clauses"); sym_reach(a.empty() ? "EMPTY" : "CLAUSES"); }
  else if (mode == "check") {
    CandySolverResult r; std::vector<int> v(NV, 0); for (unsigned i = 0; i < NV; i++) { v[i] = (int)sym_pick("value", 0, 2) - 1; if (v[i]) r.setModelValue(Lit(i, v[i] < 0)); }
    bool all = true; for (auto& c : a) { bool s = false; for (int l : c) s |= l > 0 ? v[l - 1] > 0 : v[-l - 1] < 0; all &= s; }
    bool got = p.checkResult(r); sym_check(got == all, "a result is accepted exactly if it satisfies every clause"); sym_check(plain(p) == a, "checking leaves the formula unchanged"); sym_reach(got ? "ACCEPTED" : "REJECTED"); }
  else if (mode == "rename") {
    p.normalizeVariableNames(); Plain b = plain(p); std::vector<int> to(NV + 1, 0), from(NV + 1, 0); unsigned n = 0;
    sym_check(a.size() == b.size(), "renaming keeps the clauses");
    for (size_t i = 0; i < a.size(); i++) { sym_check(a[i].size() == b[i].size(), "renaming keeps the length"); for (size_t k = 0; k < a[i].size(); k++) { int x = a[i][k], y = b[i][k]; sym_check((x < 0) == (y < 0), "renaming keeps the sign"); unsigned u = x < 0 ? -x : x, w = y < 0 ? -y : y; sym_check(w >= 1 && w <= NV, "new names are in range"); if (!to[u]) { sym_check(!from[w], "different variables have different names"); to[u] = w; from[w] = u; n++; } sym_check(to[u] == (int)w, "one variable has one name"); } }
    sym_check(p.nVars() == n, "the names have no gaps"); for (unsigned i = 1; i <= n; i++) sym_check(from[i], "the names have no gaps"); sym_reach("RENAMED"); }
  else if (mode == "equal") {
    // two formulas: equal identifiers exactly for equal clause lists
    Formula g; g.parse(sym_param("SPEC2", ""), NV); fix(g); CNFProblem q; g.addTo(q); const Plain b = plain(q);
    std::string x = Hash(p).gbd_hash(), y = Hash(q).gbd_hash(); sym_check(x.size() == 32 && y.size() == 32, "32 digits");
    for (char c : x) sym_check((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'), "hexadecimal digits");
    sym_check((x == y) == (a == b), "equal identifiers exactly for equal clauses"); sym_reach(a == b ? "SAME" : "DIFFERENT"); sym_check(Hash(p).gbd_hash() == x, "the identifier is a function of the formula"); }
  else if (mode == "degree") {
    // clauses in another order, variables renamed and complemented
    std::vector<unsigned> perm(NV), ord(f.cls.size()); std::vector<bool> flip(NV);
    { std::vector<unsigned> rest; for (unsigned i = 0; i < NV; i++) rest.push_back(i); for (unsigned i = 0; i < NV; i++) { unsigned k = rest.size() > 1 ? sym_pick("name", 0, rest.size() - 1) : 0; perm[i] = rest[k]; rest.erase(rest.begin() + k); flip[i] = sym_bool("flip"); } }
    { std::vector<unsigned> rest; for (unsigned i = 0; i < ord.size(); i++) rest.push_back(i); for (unsigned i = 0; i < ord.size(); i++) { unsigned k = rest.size() > 1 ? sym_pick("order", 0, rest.size() - 1) : 0; ord[i] = rest[k]; rest.erase(rest.begin() + k); } }
    CNFProblem q; for (unsigned i : ord) { Cl c; for (auto& l : f.cls[i]) c.push_back(Lit(perm[l.var], l.sign != flip[l.var])); q.readClause(c); }
    std::string x = Hash(p).degree_hash(), y = Hash(q).degree_hash(); sym_check(x.size() == 32, "32 digits");
    sym_check(x == y, "the degree identifier does not depend on the order of clauses and the names of variables"); sym_reach("DEGREE"); }
  sym_observe("clauses", a.size());
  return 0; }
