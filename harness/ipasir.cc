// IPASIR histories: phases separated by '|'. "A<clauses>" adds clauses, "S<literals>" assumes the
// literals and solves, "L<n>" installs the learnt callback, "T<n>" a termination callback that
// requests termination from its n-th call on ("T-" removes it), "R" releases and re-creates.
#include "cnf.h"
#include "opts.h"
#include "candy/core/CandySolverInterface.h"
#include "candy/core/CandySolverResult.h"
#include "candy/frontend/CandyBuilder.h"
extern "C" {
#include "candy/ipasir/ipasir.h"
}
using namespace H;
static unsigned NV;
static Lit candyLit(int l) { return Lit((l < 0 ? -l : l) - 1, l < 0); }
static Formula f; static Asg x; static unsigned learnt, maxlen; static int fuse; static int token;
static unsigned num(const char* s) { unsigned v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); return v; }
static void onLearnt(void* st, int* c) {
  sym_check(st == &token, "the learnt callback receives the registered state");
  learnt++; unsigned n = 0; uint8_t v = 0;
  while (c[n] != 0) { int l = c[n]; unsigned var = (unsigned)(l < 0 ? -l : l); sym_check(var >= 1 && var <= NV, "learnt literal is over the problem's variables"); v |= evLit(x, candyLit(l)); n++; if (n > 200) sym_fail("learnt clause is not zero-terminated"); }
  sym_observe("learnt", n);
  sym_check(n <= maxlen, "delivered clause respects the length limit");
  sym_check((f.eval(x) & (v ^ 1)) == 0, "delivered clause is implied by the clauses added so far"); }
static int onTerm(void* st) { sym_check(st == &token, "the terminate callback receives the registered state"); if (fuse <= 0) return 1; fuse--; return 0; }
extern "C" int harness() {
  configure(); NV = sym_iparam("NV", 4); const char* SPEC = sym_param("SPEC", "");
  const bool CHECK_ANSWER = sym_iparam("CHECK_ANSWER", 1), CHECK_VAL = sym_iparam("CHECK_VAL", 1), CHECK_FAILED = sym_iparam("CHECK_FAILED", 1);
  x = symAsg(NV);
  void* s = ipasir_init();
  const char* p = SPEC; unsigned solves = 0; bool pendingTerm = false;
  while (*p) {
    static char buf[16384]; unsigned n = 0; char k = *p++; while (*p && *p != '|') { if (n < sizeof buf - 1) buf[n++] = *p; p++; } buf[n] = 0; if (*p == '|') p++;
    if (k == 'A') {
      unsigned from = f.cls.size(); f.parse(buf, NV);
      for (unsigned i = from; i < f.cls.size(); i++) { for (auto& l : f.cls[i]) ipasir_add(s, l.sign ? -(int)(l.var + 1) : (int)(l.var + 1)); ipasir_add(s, 0); }
    }
    else if (k == 'L') { maxlen = num(buf); ipasir_set_learn(s, &token, maxlen, onLearnt); }
    else if (k == 'T') { if (buf[0] == '-') { pendingTerm = false; ipasir_set_terminate(s, nullptr, nullptr); } else { pendingTerm = true; fuse = buf[0] == '?' ? (int)sym_pick("fuse", 0, num(buf + 1)) : (int)num(buf); ipasir_set_terminate(s, &token, onTerm); } }
    else if (k == 'R') { ipasir_release(s); s = ipasir_init(); f = Formula(); }
    else if (k == 'S') {
      Formula a; a.parse(buf, NV); SCl as; if (a.cls.size()) as = a.cls[0];
      for (auto& l : as) ipasir_assume(s, l.sign ? -(int)(l.var + 1) : (int)(l.var + 1));
      int r = ipasir_solve(s); solves++;
      sym_observe("answer", r);
      if (!pendingTerm) sym_check(r == 10 || r == 20, "solve answers 10 or 20");
      else sym_check(r == 0 || r == 10 || r == 20, "solve answers 0, 10 or 20");
      if (r == 0) { sym_reach("INTERRUPTED"); sym_check(fuse <= 0, "unknown is only answered when termination was requested"); }
      uint8_t av = 1; for (auto& l : as) av &= evLit(x, l.var, l.symVar, l.sign);
      if (r == 10) {
        sym_reach("SAT");
        Asg m; m.n = NV; for (unsigned v = 0; v < MAXV; v++) m.b[v] = 0;
        for (unsigned v = 0; v < NV; v++) {
          int a = ipasir_val(s, (int)v + 1), b = ipasir_val(s, -((int)v + 1));
if (CHECK_VAL) {
          sym_check(a == 0 || a == (int)v + 1 || a == -((int)v + 1), "val returns the literal, its negation or 0");
          sym_check(b == 0 || b == (int)v + 1 || b == -((int)v + 1), "val of a negative literal returns the literal, its negation or 0");
          sym_check(a == b, "val of a literal and of its negation name the same true literal");
}
          m.b[v] = a == (int)v + 1; sym_observe("val", (uint64_t)(int64_t)a);
        }
if (CHECK_VAL) {
        bool all = true;
        for (auto& c : f.cls) { bool sat = false; for (auto& l : c) { int L = l.sign ? -(int)(l.var + 1) : (int)(l.var + 1); sat |= ipasir_val(s, L) == L; } all &= sat; }
        sym_check(all, "the values satisfy every clause added so far");
        for (auto& l : as) { int L = l.sign ? -(int)(l.var + 1) : (int)(l.var + 1); sym_check(ipasir_val(s, L) == L, "the values satisfy every assumption"); }
}
if (CHECK_ANSWER) {
        sym_check(f.eval(m) != 0, "satisfiable is answered with an assignment that satisfies all clauses");
        uint8_t am = 1; for (auto& l : as) am &= evLit(m, l.var, l.symVar, l.sign);
        sym_check(am != 0, "satisfiable is answered with an assignment that satisfies the assumptions");
}
      } else if (r == 20) {
        sym_reach(as.size() ? "UNSAT-assumptions" : "UNSAT");
if (CHECK_ANSWER) {
        sym_check((f.eval(x) & av) == 0, "20 is answered, but an assignment satisfies the clauses and the assumptions");
}
if (CHECK_FAILED) {
        uint8_t core = 1; unsigned k2 = 0;
        for (auto& l : as) { int L = l.sign ? -(int)(l.var + 1) : (int)(l.var + 1); int fl = ipasir_failed(s, L); sym_check(fl == 0 || fl == 1, "failed answers 0 or 1"); sym_observe("failed", fl); if (fl) { core &= evLit(x, l.var, l.symVar, l.sign); k2++; } }
        sym_check((f.eval(x) & core) == 0, "the clauses together with the failed assumptions are satisfiable");
        if (as.size() && k2 < as.size()) sym_reach("PROPER-CORE");
}
      }
    }
  }
  if (learnt) sym_reach("LEARNT");
  ipasir_release(s);
  return 0; }
