// Shared helpers: CNF formulas with symbolic parts, evaluated under a symbolic assignment.
//
// A formula is described by a string; clauses are separated by ';', literals are DIMACS
// integers with these additions:
//   ?3   variable 3 with a symbolic sign          @   any of the n variables, symbolic sign
//   !    (first token) the clause is present or absent, symbolically
#pragma once
#include "sym.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/SolverTypes.h"
#include <vector>
#include <cstdlib>
namespace H {
using Candy::Lit; using Candy::Var; using Candy::Cl; using Candy::For; using Candy::CNFProblem;
struct SLit { unsigned var; bool symVar; bool sign; };   // var concrete unless symVar
typedef std::vector<SLit> SCl;
#ifndef H_MAXV
#define H_MAXV 128
#endif
static const unsigned MAXV = H_MAXV;
struct Asg { uint8_t b[MAXV]; unsigned n; };             // one 0/1 byte per variable

static inline Asg symAsg(unsigned n, const char* name = "x") { Asg a; a.n = n; for (unsigned i = 0; i < MAXV; i++) a.b[i] = 0; for (unsigned i = 0; i < n; i++) a.b[i] = (uint8_t)sym_val(name, 1); return a; }
// branch-free: value of a literal under a (variable may be symbolic)
static inline uint8_t evLit(const Asg& a, unsigned var, bool symVar, bool sign) {
  uint8_t r = 0;
  if (!symVar) r = a.b[var]; else for (unsigned v = 0; v < a.n; v++) r |= (uint8_t)((0 - (unsigned)(var == v)) & a.b[v]);
  return (uint8_t)(r ^ (uint8_t)sign); }
static inline uint8_t evLit(const Asg& a, Lit l) { unsigned x = (unsigned)(int)l; uint8_t r = 0; for (unsigned v = 0; v < a.n; v++) r |= (uint8_t)((0 - (unsigned)((x >> 1) == v)) & a.b[v]); return (uint8_t)(r ^ (x & 1)); }
template <class C> static inline uint8_t evCl(const Asg& a, const C& c) { uint8_t r = 0; for (Lit l : c) r |= evLit(a, l); return r; }

struct Formula {
  std::vector<SCl> cls; unsigned n = 0;                  // the clauses as given (tautologies, duplicates kept)
  uint8_t eval(const Asg& a) const { uint8_t r = 1; for (auto& c : cls) { uint8_t k = 0; for (auto& l : c) k |= evLit(a, l.var, l.symVar, l.sign); r &= k; } return r; }
  static Cl cl(const SCl& c) { Cl r; for (auto& l : c) r.push_back(Lit(l.var, l.sign)); return r; }
  void addTo(CNFProblem& p, unsigned from = 0) const { for (unsigned i = from; i < cls.size(); i++) { Cl c = cl(cls[i]); p.readClause(c); } }
  // appends the clauses of a description
  void parse(const char* s, unsigned nv) {
    if (nv > n) n = nv;
    SCl c; bool keep = true, any = false;
    for (;; s++) {
      while (*s == ' ') s++;
      if (*s == ';' || *s == 0) { if (any && keep) cls.push_back(c); c.clear(); keep = true; any = false; if (*s == 0) break; continue; }
      any = true;
      if (*s == '!') { keep = sym_bool("present"); continue; }
      if (*s == 'E') continue;                           // explicit empty clause
      if (*s == '@') { unsigned v = sym_pick("var", 0, nv - 1); c.push_back({v, false, sym_bool("sign")}); continue; }
      bool sy = false, neg = false; if (*s == '?') { sy = true; s++; } if (*s == '-') { neg = true; s++; }
      unsigned v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); s--;
      if (sy) neg = sym_bool("sign");
      if (v > n) n = v; c.push_back({v - 1, false, neg});
    } }
};
}
