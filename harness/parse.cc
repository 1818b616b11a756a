// DIMACS reader on an arbitrary symbolic text: accepted texts yield exactly the clauses of the
// reference reader below, others raise ParserException.
#include "sym.h"
#include "candy/core/CNFProblem.h"
#include "candy/utils/Exceptions.h"
#include <vector>
using namespace Candy;
static bool ws(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
// reference reader: 0 well-formed, 1 malformed
struct Ref { std::vector<std::vector<long>> cls; };
static int refInt(const char* d, unsigned n, unsigned& p, long& v) {
  while (p < n && ws(d[p])) p++;
  if (p >= n) return 1;
  bool neg = false; if (d[p] == '-') { neg = true; p++; } else if (d[p] == '+') p++;
  unsigned s = p; v = 0; bool big = false;
  while (p < n && d[p] >= '0' && d[p] <= '9') { v = v * 10 + (d[p] - '0'); if (v > (1l << 40)) big = true, v = 1l << 40; p++; }
  if (p == s) return 1;
  if (big) return 2;
  if (neg) v = -v; return 0; }
static int ref(const char* d, unsigned n, Ref& r, unsigned base) {
  unsigned p = 0;
  for (;;) {
    while (p < n && ws(d[p])) p++;
    if (p >= n) return 0;
    if (d[p] == 'p') {
      const char* h = "p cnf"; for (unsigned i = 0; i < 5; i++, p++) if (p >= n || d[p] != h[i]) return 1;
      long a, b; if (refInt(d, n, p, a)) return 1; if (refInt(d, n, p, b)) return 1; if (a < 0 || b < 0) return 1;
      if (a > (1l << 30) - 1 || b > (1l << 30) - 1) return 2; if (b > 1000000) return 3;
    } else if (d[p] == 'c') { while (p < n && d[p] != '\n' && d[p] != '\r' && d[p] != '\v' && d[p] != '\f') p++; }
    else { std::vector<long> c; for (;;) { long v; int e = refInt(d, n, p, v); if (e) return e; if (v == 0) break; if (v > (1l << 30) - 1 || v < -(1l << 30) + 1) return 2; c.push_back(v); } r.cls.push_back(c); }
  } }
extern "C" int harness() {
  // template: literal characters, except  \x01 any byte of ALPH, \x02 any byte at all; "@n@" in FILL: n filler bytes first
  const char* T = sym_param("TEXT", "ooooo"); const char* A = sym_param("ALPH", " -0123\n");
  const unsigned fill = sym_iparam("FILL", 0), fillw = sym_iparam("FILLSYM", 0), fk = sym_iparam("FILLKIND", 0);
  unsigned na = 0; while (A[na]) na++;
  unsigned k = fillw ? sym_pick("fill", 0, fillw) : 0;
  std::vector<char> d;
  if (fill) { if (fk == 1) d.push_back('c'); for (unsigned i = 0; i < fill + k; i++) d.push_back(fk == 0 ? '\n' : fk == 1 ? ' ' : i % 2 ? ' ' : '1'); if (fk == 1) d.push_back('\n'); }
  const unsigned start = d.size();
  for (const char* t = T; *t; t++) {
    if (*t == 'o') { uint8_t c = (uint8_t)sym_val("c", 8); uint8_t ok = 0; for (unsigned j = 0; j < na; j++) ok |= c == (uint8_t)A[j]; sym_assume(ok != 0); d.push_back((char)c); }
    else if (*t == '*') d.push_back((char)sym_val("byte", 8));
    else if (*t == '/') d.push_back('\n');
    else if (*t == '_') d.push_back(' ');
    else d.push_back(*t); }
  const unsigned n = d.size();
  const char* data = d.data();
  sym_file("input.cnf", data, n);
  Ref r; int want = ref(data, n, r, start);
  CNFProblem p; bool thrown = false;
  try { p.readDimacsFromFile("input.cnf"); } catch (ParserException&) { thrown = true; }
  sym_observe("thrown", thrown); sym_observe("clauses", p.nClauses());
  if (want == 3) sym_end();                 // absurdly large clause count in the header: only memory safety is checked
  if (want) { sym_reach("MALFORMED"); sym_check(thrown, "a malformed or out-of-range text is rejected with ParserException"); return 0; }
  sym_check(!thrown, "a well-formed text is accepted");
  sym_reach("ACCEPTED");
  // the reference normal form: literals sorted by (variable, sign), duplicates removed, tautologies dropped
  unsigned i = 0; long maxv = 0;
  for (auto& c : r.cls) {
    std::vector<long> u; bool taut = false;
    for (long v : c) { long a = v < 0 ? -v : v; if (a > maxv) maxv = a; bool dup = false; for (long w : u) { if (w == v) dup = true; if (w == -v) taut = true; } if (!dup) u.push_back(v); }
    if (taut) continue;
    sym_check(i < p.nClauses(), "every non-tautological clause of the text is stored");
    const Cl& q = *p[i]; i++;
    sym_check(q.size() == u.size(), "a stored clause has the distinct literals of its text");
    for (Lit l : q) { long v = (long)l.var() + 1; if (l.sign()) v = -v; bool in = false; for (long w : u) in |= w == v; sym_check(in, "a stored literal occurs in its text"); }
    if (c.size() >= 2) sym_reach("CLAUSE2");
  }
  sym_check(i == p.nClauses(), "no clause is invented");
  sym_check((long)p.nVars() == maxv, "the variable count is the largest variable mentioned");
  return 0; }
