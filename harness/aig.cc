// Translation of a formula with symbolic parts to an and-inverter graph: the printed circuit is a well-formed ASCII AIG,
// and it is true for exactly the input assignments that extend to a model of the formula.
#include "cnf.h"
#include "opts.h"
#include <string>
#include <cstdio>
#include <unistd.h>
#include "candy/gates/GateAnalyzer.h"
#include "candy/gates/AIGProblem.h"
#define main cnf2aig_main
#include "candy/cnf2aig.cc"
#undef main
using namespace Candy; using namespace H;
static std::string* txt;
static void put(int c) { if (!txt) txt = new std::string; txt->push_back((char)c); }
extern "C" {
void* h_cout_int(void* os, long v) { char b[32]; snprintf(b, 32, "%i", (int)sym_concretize((uint64_t)v)); for (char* p = b; *p; p++) put(*p); return os; }
void* h_cout_char(void* os, char c) { put(c); return os; }
void* h_cout_str(void* os, const char* p) { for (; *p; p++) put(*p); return os; }
void* h_cout_buf(void* os, const char* p, long n) { for (long i = 0; i < n; i++) put(p[i]); return os; }
int h_printf(const char* p) { for (; *p; p++) put(*p); return 1; }
}
extern "C" int harness() {
  const bool lib = sym_iparam("LIB", 0); if (lib) configure(); const unsigned NV = sym_iparam("NV", 4);
  Formula f; f.parse(sym_param("SPEC", ""), NV); Asg y = symAsg(NV);
  if (sym_native()) { fflush(stdout); if (!freopen("out.txt", "w", stdout)) sym_fail("cannot redirect"); } else txt = nullptr;
  if (lib) {
    CNFProblem p; f.addTo(p); while (p.nVars() < NV) p.newVar(); if (!p.nClauses()) sym_end();
    for (Cl* c : p) if (c->empty()) sym_end();
    std::vector<std::vector<Lit>> content; for (Cl* c : p) content.push_back(std::vector<Lit>(c->begin(), c->end()));
    GateAnalyzer ga(p, static_cast<GateRecognitionMethod>(sym_iparam("METHOD", 0)), sym_iparam("TRIES", 0), 0); ga.analyze();
    ga.getGateProblem().normalizeRoots();
    sym_check(ga.getGateProblem().getRoots().size() == 1 && ga.getGateProblem().getRootLiterals().size() == 1, "one root");
    size_t i = 0; for (Cl* c : p) { sym_check(std::vector<Lit>(c->begin(), c->end()) == content[i], "the problem's clauses are unchanged"); i++; }
    AIGProblem aig(ga.getGateProblem()); aig.createAIG(); if (txt) txt->clear(); if (sym_native()) { std::cout.flush(); fflush(stdout); if (!freopen("out.txt", "w", stdout)) sym_fail("cannot redirect"); } aig.printAIG(stdout); }
  else {
    std::string text; char h[64]; snprintf(h, 64, "p cnf %u %u\n", NV, (unsigned)f.cls.size()); text = h;
    for (auto& c : f.cls) { for (auto& l : c) { text.push_back((char)(' ' + ('-' - ' ') * (int)l.sign)); char b[16]; snprintf(b, 16, "%u ", l.var + 1); text += b; } text += "0\n"; }
    sym_file("in.cnf", text.data(), text.size());
    std::vector<char*> av{(char*)"cnf2aig", (char*)"in.cnf", nullptr};
    cnf2aig_main(2, av.data()); }
  if (sym_native()) { std::cout.flush(); fflush(stdout); FILE* fp = fopen("out.txt", "r"); int c; while (fp && (c = fgetc(fp)) != EOF) put(c); if (fp) fclose(fp); }
  // ---- the text as numbers
  if (!txt) sym_fail("nothing is printed");
  const std::string& t = *txt; size_t q = 0; std::vector<std::vector<unsigned>> L; 
  sym_check(t.size() > 4 && t[0] == 'a' && t[1] == 'a' && t[2] == 'g' && t[3] == ' ', "the output starts with aag"); q = 4;
  { std::vector<unsigned> cur; while (q < t.size()) { if (t[q] == '\n') { L.push_back(cur); cur.clear(); q++; } else if (t[q] == ' ') { sym_check(!cur.empty() || L.empty(), "no blank at the start of a line"); q++; } else { unsigned v = 0; sym_check(t[q] >= '0' && t[q] <= '9', "numbers only"); while (q < t.size() && t[q] >= '0' && t[q] <= '9') v = v * 10 + (t[q++] - '0'); cur.push_back(v); } } sym_check(cur.empty(), "the last line is terminated"); }
  sym_check(!L.empty() && L[0].size() == 5, "the header has five numbers");
  const unsigned M = L[0][0], I = L[0][1], A = L[0][4]; sym_check(L[0][2] == 0 && L[0][3] == 1, "no latches, one output"); sym_check(M < 200 && L.size() == 2 + I + A, "as many lines as announced");
  std::vector<char> def(M + 1, 0); def[0] = 1; std::vector<uint8_t> val(M + 1, 0); std::vector<char> input(NV, 0);
  for (unsigned i = 0; i < I; i++) { sym_check(L[1 + i].size() == 1, "an input is one literal"); unsigned l = L[1 + i][0]; sym_check(l % 2 == 0 && l >= 2 && l / 2 <= M && !def[l / 2], "an input is a fresh positive literal"); sym_check(l / 2 <= NV, "an input is a variable of the formula"); def[l / 2] = 1; val[l / 2] = y.b[l / 2 - 1]; input[l / 2 - 1] = 1; }
  sym_check(L[1 + I].size() == 1 && L[1 + I][0] / 2 <= M, "the output is one literal");
  for (unsigned i = 0; i < A; i++) { auto& a = L[2 + I + i]; sym_check(a.size() == 3, "an and gate is three literals"); sym_check(a[0] % 2 == 0 && a[0] >= 2 && a[0] / 2 <= M && def[a[0] / 2] == 0, "the left side is a fresh positive literal"); def[a[0] / 2] = 2; sym_check(a[1] / 2 <= M && a[2] / 2 <= M, "literals within the maximum"); }
  sym_check(def[L[1 + I][0] / 2], "the output is defined");
  for (unsigned i = 0; i < A; i++) { auto& a = L[2 + I + i]; sym_check(def[a[1] / 2] && def[a[2] / 2], "operands are defined"); }
  // evaluation in dependency order
  std::vector<char> ready(M + 1, 0); for (unsigned v = 0; v <= M; v++) ready[v] = def[v] == 1; unsigned left = A;
  for (unsigned r = 0; r <= A && left; r++) for (unsigned i = 0; i < A; i++) { auto& a = L[2 + I + i]; if (ready[a[0] / 2] || !ready[a[1] / 2] || !ready[a[2] / 2]) continue; val[a[0] / 2] = (uint8_t)(val[a[1] / 2] ^ (a[1] & 1)) & (uint8_t)(val[a[2] / 2] ^ (a[2] & 1)); ready[a[0] / 2] = 1; left--; }
  sym_check(left == 0, "the circuit is acyclic");
  const uint8_t out = (uint8_t)(val[L[1 + I][0] / 2] ^ (L[1 + I][0] & 1));
  // the other variables are chosen freely
  std::vector<unsigned> o; for (unsigned v = 0; v < NV; v++) if (!input[v]) o.push_back(v);
  uint8_t some = 0; if (o.size() <= 8) { for (unsigned k = 0; k < (1u << o.size()); k++) { for (unsigned i = 0; i < o.size(); i++) y.b[o[i]] = (k >> i) & 1; some |= f.eval(y); } }
  else { sym_check(out | (f.eval(y) ^ 1), "the circuit is true for the inputs of every model"); some = out; sym_reach("WIDE"); }
  sym_check(out == some, "the circuit is true for exactly the input assignments that extend to a model");
  sym_observe("inputs", I); sym_observe("ands", A); sym_reach(A > 1 ? "ANDS" : "FEW"); sym_reach(o.empty() ? "NOGATES" : "GATES");
  return 0; }
