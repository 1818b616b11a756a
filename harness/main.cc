// The whole program: command line, input file, answer, printed model and exit status.
#include "cnf.h"
#include <string>
#include <vector>
#include <cstdio>
#include <unistd.h>
#define main candy_main
#include "candy/Main.cc"
#undef main
using namespace H;
struct OTok { bool isInt; int v; };
static std::vector<OTok>* otoks; static std::string* proofText;
static void put(int c) { if (!otoks) otoks = new std::vector<OTok>; otoks->push_back({false, c}); }
static void pput(int c) { if (!proofText) proofText = new std::string; proofText->push_back((char)c); }
static const char* proofName = "proof.drat";
static void pflush() { sym_file(proofName, proofText->data(), proofText->size()); }
extern "C" {
void* h_cout_int(void* os, long v) { if (!otoks) otoks = new std::vector<OTok>; otoks->push_back({true, (int)sym_concretize((uint64_t)v)}); return os; }
void* h_cout_char(void* os, char c) { put(c); return os; }
void* h_cout_str(void* os, const char* p) { for (; *p; p++) put(*p); return os; }
void* h_cout_buf(void* os, const char* p, long n) { for (long i = 0; i < n; i++) put(p[i]); return os; }
int h_printf(const char* p) { for (; *p; p++) put(*p); return 1; }
void* h_stream_int(void* os, long v) { v = (int)sym_concretize((uint64_t)v); if (v < 0) { pput('-'); v = -v; } char b[24]; int n = 0; do { b[n++] = '0' + v % 10; v /= 10; } while (v); while (n) pput(b[--n]); pflush(); return os; }
void* h_stream_char(void* os, char c) { pput(c); pflush(); return os; }
void* h_stream_str(void* os, const char* p) { for (; *p; p++) pput(*p); pflush(); return os; }
void* h_stream_buf(void* os, const char* p, long n) { for (long i = 0; i < n; i++) pput(p[i]); pflush(); return os; }
}
// output lines as words: text or number
struct Word { std::string s; bool num; long v; };
static std::vector<std::vector<Word>> lines() {
  std::vector<std::vector<Word>> r(1); std::string cur; bool num = true; long v = 0; bool any = false, isInt = false;
  auto end = [&] { if (!any) return; Word w; if (isInt && cur.empty()) { w.num = true; w.v = v; } else { w.s = cur; size_t i = cur[0] == '-' ? 1 : 0; w.num = i < cur.size(); w.v = 0; for (size_t k = i; k < cur.size(); k++) { if (cur[k] < '0' || cur[k] > '9') w.num = false; else w.v = w.v * 10 + (cur[k] - '0'); } if (i) w.v = -w.v; } r.back().push_back(w); cur.clear(); any = isInt = false; };
  if (otoks) for (OTok t : *otoks) { if (t.isInt) { if (any) { /* text directly followed by a number */ std::string k = t.v < 0 ? "-" : ""; unsigned a = t.v < 0 ? -t.v : t.v; std::string d; do { d.insert(d.begin(), (char)('0' + a % 10)); a /= 10; } while (a); cur += k + d; } else { any = isInt = true; v = t.v; } }
    else if (t.v == ' ') end(); else if (t.v == '\n') { end(); r.emplace_back(); } else { if (isInt) { cur = "#"; isInt = false; } any = true; cur.push_back((char)t.v); } }
  end(); return r; }
static int run(std::vector<std::string> args) {
  std::vector<char*> av; for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
  if (sym_native()) { fflush(stdout); if (!freopen("out.txt", "w", stdout)) sym_fail("cannot redirect"); }
  int rc = candy_main((int)args.size(), av.data());
  if (sym_native()) { std::cout.flush(); fflush(stdout); FILE* f = fopen("out.txt", "r"); int c; while (f && (c = fgetc(f)) != EOF) put(c); if (f) fclose(f); }
  return rc; }
static bool all(const Formula& f, const Asg& m, const Asg& has) { for (auto& c : f.cls) { uint8_t s = 0; for (auto& l : c) s |= (uint8_t)(has.b[l.var] & (m.b[l.var] ^ (uint8_t)l.sign)); if (!s) return false; } return true; }
extern "C" int harness() {
  const unsigned NV = sym_iparam("NV", 4); const char* T = sym_param("TEXT", nullptr);
  Formula f; std::string text; Asg x = symAsg(NV);
  if (T) { for (const char* p = T; *p; p++) text.push_back(*p == 'o' ? sym_param("ALPH", "x0")[sym_pick("c", 0, strlen(sym_param("ALPH", "x0")) - 1)] : *p == '/' ? '\n' : *p == '_' ? ' ' : *p); }
  else {
    f.parse(sym_param("SPEC", ""), NV);
    char h[64]; snprintf(h, 64, "p cnf %u %u\n", NV, (unsigned)f.cls.size()); text = h;
    for (auto& c : f.cls) { for (auto& l : c) { text.push_back((char)(' ' + ('-' - ' ') * (int)l.sign)); char b[16]; snprintf(b, 16, "%u ", l.var + 1); text += b; } text += "0\n"; } }
  sym_file("in.cnf", text.data(), text.size());
  std::vector<std::string> args{"candy"}; bool file = false;
  { std::string o = sym_param("OPTS", ""), w; for (size_t i = 0; i <= o.size(); i++) { if (i == o.size() || o[i] == ' ') { if (!w.empty()) { if (w == "FILE") { w = "in.cnf"; file = true; } args.push_back(w); } w.clear(); } else w.push_back(o[i]); } if (!file) args.push_back("in.cnf"); }
  auto has = [&](const char* o) { for (auto& a : args) if (a == o) return true; return false; };
  for (auto& a : args) if (a.compare(0, 18, "-certified-output=") == 0) proofName = a.c_str() + 18;
  int rc = run(args);
  std::vector<std::vector<Word>> L = lines();
  int st = 0, n = 0, mod = -1, min = -1; bool verified = false;
  for (size_t i = 0; i < L.size(); i++) { auto& l = L[i]; if (l.empty()) continue;
    if (!sym_iparam("BAD", 0)) sym_check(!l[0].num && (l[0].s == "c" || l[0].s == "s" || l[0].s == "v"), "every line is a comment, the status or the model");
    if (l[0].s == "s") { n++; sym_check(l.size() == 2, "a status line has one word"); st = l[1].s == "SATISFIABLE" ? 10 : l[1].s == "UNSATISFIABLE" ? 20 : l[1].s == "INDETERMINATE" ? 0 : -1; }
    if (l[0].s == "v") { sym_check(mod < 0, "one model line"); mod = i; }
    if (l.size() > 1 && l[1].s == "Minimized-Model:") min = i;
    if (l.size() > 2 && l[1].s == "Result" && l[2].s == "verified") verified = true; }
  sym_observe("rc", rc); sym_observe("status", st);
  if (sym_iparam("BAD", 0)) { sym_check(rc == 1 && n == 0, "an unreadable input gives exit status 1 and no answer"); sym_reach("BAD"); return 0; }
  if (sym_iparam("QUIET", 0)) { sym_check(rc == 0 && n == 0, "no answer and exit status 0"); sym_reach("QUIET"); return 0; }
  if (T) return 0;
  sym_check(n == 1, "exactly one status line"); sym_check(st == 10 || st == 20, "the answer is definite");
  bool tm = has("-test-model") && st == 10, tp = has("-test-proof") && st == 20;
  sym_check(rc == (tm || tp ? 0 : st), "the exit status agrees with the answer"); if (tm || tp) { sym_check(verified, "the answer is confirmed by the checker"); sym_reach("VERIFIED"); }
  if (st == 20) { sym_check(f.eval(x) == 0, "UNSATISFIABLE printed, but an assignment satisfies every clause"); sym_check(mod < 0 && min < 0, "no model is printed"); sym_reach("UNSAT"); return 0; }
  sym_reach("SAT");
  Asg m, def; m.n = def.n = NV; for (unsigned v = 0; v < MAXV; v++) m.b[v] = def.b[v] = 0;
  const bool MIN = has("-minimize");
  if (has("-model") && !MIN) {
    sym_check(mod >= 0, "a model is printed"); auto& l = L[mod]; sym_check(l.size() >= 2 && l.back().num && l.back().v == 0, "the model line ends with 0");
    for (size_t i = 1; i + 1 < l.size(); i++) { long k = l[i].v; sym_check(l[i].num && k != 0 && (k < 0 ? -k : k) <= (long)NV, "the model lists literals of the formula"); unsigned v = (k < 0 ? -k : k) - 1; sym_check(!def.b[v], "each variable once"); def.b[v] = 1; m.b[v] = k > 0; }
    sym_check(all(f, m, def), "the printed model satisfies every clause"); sym_reach("MODEL"); }
  if (MIN && has("-model")) {
    sym_check(min >= 0, "a minimized model is printed"); auto& l = L[min];
    for (size_t i = 2; i < l.size(); i++) { if (!l[i].num) continue; long k = l[i].v; if (k == 0) continue; sym_check((k < 0 ? -k : k) <= (long)NV, "the minimized model lists literals of the formula"); unsigned v = (k < 0 ? -k : k) - 1; sym_check(!def.b[v], "each variable once"); def.b[v] = 1; m.b[v] = k > 0; }
    if (!has("-minimize-project") && !has("-minimize-pruned")) {
      sym_check(all(f, m, def), "the minimized model satisfies every clause");
      for (unsigned v = 0; v < NV; v++) if (def.b[v]) { def.b[v] = 0; sym_check(!all(f, m, def), "no literal of the minimized model can be dropped"); def.b[v] = 1; }
      sym_reach("MINIMIZED"); } }
  return 0; }
