// Hash-consed bit-vector expressions (width 1..64) with constant folding, unsigned
// interval and known-zero-bit tracking, plus the translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef int64_t i64;

enum Op : u8 { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT };

struct Expr {
  Op op; u8 w; u8 flag; // flag: bit0 = depends on an undef symbol
  u32 id;
  Expr *a, *b, *c;
  u64 val;            // CONST: value; SYM: symbol index; EXTRACT: low bit
  u64 lo, hi, kz;     // unsigned interval, known-zero bits
  u64 sm0, sm1;       // symbols occurring (bit 127: any symbol with index >= 127)
  u64 mid, mval;      // evaluation cache
  Z3_ast ast;
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); return (i64)(((v & maskw(w)) ^ m) - m); }

struct SymInfo { std::string name; u8 w; bool undef; };

struct Pool {
  std::vector<Expr**> dummy;
  Expr** tab; u64 cap, n;
  std::vector<SymInfo> syms;
  Expr* arena; u64 aleft;
  u32 nextid = 1;
  Expr* smallc[65][17];
  Pool() { cap = 1 << 16; tab = (Expr**)calloc(cap, sizeof(Expr*)); n = 0; aleft = 0; arena = nullptr; memset(smallc, 0, sizeof smallc); }
  static u64 h(Op op, u8 w, Expr* a, Expr* b, Expr* c, u64 v) {
    u64 x = op * 0x9E3779B97F4A7C15ull + w;
    x = (x ^ (u64)a) * 0xff51afd7ed558ccdull; x ^= x >> 29;
    x = (x ^ (u64)b) * 0xc4ceb9fe1a85ec53ull; x ^= x >> 31;
    x = (x ^ (u64)c) * 0x9E3779B97F4A7C15ull; x ^= x >> 27;
    x = (x ^ v) * 0xff51afd7ed558ccdull; x ^= x >> 32;
    return x;
  }
  Expr* intern(Op op, u8 w, Expr* a, Expr* b, Expr* c, u64 v) {
    u64 hh = h(op, w, a, b, c, v);
    u64 i = hh & (cap - 1);
    while (tab[i]) { Expr* e = tab[i]; if (e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->val == v) return e; i = (i + 1) & (cap - 1); }
    if (!aleft) { aleft = 4096; arena = (Expr*)malloc(sizeof(Expr) * aleft); }
    Expr* e = arena++; --aleft;
    e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->val = v; e->id = nextid++; e->mid = 0; e->ast = nullptr;
    e->flag = (a ? a->flag : 0) | (b ? b->flag : 0) | (c ? c->flag : 0);
    e->sm0 = (a ? a->sm0 : 0) | (b ? b->sm0 : 0) | (c ? c->sm0 : 0);
    e->sm1 = (a ? a->sm1 : 0) | (b ? b->sm1 : 0) | (c ? c->sm1 : 0);
    if (op == SYM) { if (v < 64) e->sm0 |= 1ull << v; else if (v < 127) e->sm1 |= 1ull << (v - 64); else e->sm1 |= 1ull << 63; }
    range(e);
    tab[i] = e;
    if (++n * 2 > cap) grow();
    return e;
  }
  void grow() {
    u64 nc = cap * 2; Expr** nt = (Expr**)calloc(nc, sizeof(Expr*));
    for (u64 i = 0; i < cap; i++) if (Expr* e = tab[i]) { u64 j = h(e->op, e->w, e->a, e->b, e->c, e->val) & (nc - 1); while (nt[j]) j = (j + 1) & (nc - 1); nt[j] = e; }
    free(tab); tab = nt; cap = nc;
  }
  static u64 topmask(u64 hi) { return hi ? (~0ull >> __builtin_clzll(hi)) : 0; }
  void range(Expr* e) {
    u64 m = maskw(e->w); e->lo = 0; e->hi = m; e->kz = ~m;
    Expr *a = e->a, *b = e->b, *c = e->c;
    switch (e->op) {
      case CONST: e->lo = e->hi = e->val; e->kz = ~e->val; break;
      case ADD: { u64 h = a->hi + b->hi; if (h >= a->hi && h <= m) { e->hi = h; e->lo = a->lo + b->lo; }
        u64 k = a->kz & b->kz; u64 tz = k == ~0ull ? 64 : __builtin_ctzll(~k); if (tz) e->kz |= (tz >= 64 ? ~0ull : ((1ull << tz) - 1)); break; }
      case SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
      case MUL: { unsigned __int128 h = (unsigned __int128)a->hi * b->hi; if (h <= m) { e->hi = (u64)h; e->lo = a->lo * b->lo; } break; }
      case UDIV: if (b->lo) { e->hi = a->hi / b->lo; e->lo = a->lo / b->hi; } break;
      case UREM: e->hi = a->hi; if (b->lo && b->hi - 1 < e->hi) e->hi = b->hi - 1; break;
      case AND: e->hi = a->hi < b->hi ? a->hi : b->hi; e->kz = a->kz | b->kz; break;
      case OR: e->lo = a->lo > b->lo ? a->lo : b->lo; e->kz = a->kz & b->kz; break;
      case XOR: e->kz = a->kz & b->kz; break;
      case SHL: if (b->op == CONST && b->val < e->w) { e->kz = (a->kz << b->val) | ((1ull << b->val) - 1) | ~m; if (a->hi <= (m >> b->val)) { e->lo = a->lo << b->val; e->hi = a->hi << b->val; } } break;
      case LSHR: if (b->op == CONST && b->val < e->w) { e->lo = a->lo >> b->val; e->hi = a->hi >> b->val; e->kz = (a->kz >> b->val) | ~(m >> b->val); } else e->hi = a->hi; break;
      case ITE: e->lo = b->lo < c->lo ? b->lo : c->lo; e->hi = b->hi > c->hi ? b->hi : c->hi; e->kz = b->kz & c->kz; break;
      case ZEXT: e->lo = a->lo; e->hi = a->hi; e->kz = a->kz; break;
      case SEXT: if (a->hi < (1ull << (a->w - 1))) { e->lo = a->lo; e->hi = a->hi; e->kz = a->kz; } break;
      case EXTRACT: if (e->val == 0 && a->hi <= m) { e->lo = a->lo; e->hi = a->hi; } e->kz = (a->kz >> e->val) | ~m; break;
      case CONCAT: e->kz = ((a->kz << b->w) | (b->kz & maskw(b->w))); e->kz |= ~m; e->lo = (a->lo << b->w) + b->lo; e->hi = (a->hi << b->w) + b->hi; break;
      default: break;
    }
    u64 km = ~e->kz & m; if (km < e->hi) e->hi = km;
    e->kz |= ~topmask(e->hi);
  }
};
extern Pool P;

static inline Expr* K(u64 v, unsigned w) {
  v &= maskw(w);
  if (v < 17) { Expr*& s = P.smallc[w][v]; if (!s) s = P.intern(CONST, w, 0, 0, 0, v); return s; }
  return P.intern(CONST, w, 0, 0, 0, v);
}
static inline bool isK(Expr* e) { return e->op == CONST; }
static inline bool isK(Expr* e, u64 v) { return e->op == CONST && e->val == v; }
Expr* mkSym(const std::string& name, unsigned w, bool undef = false);
Expr* mk(Op op, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* t, Expr* f);
Expr* mkZext(Expr* a, unsigned w);
Expr* mkSext(Expr* a, unsigned w);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
static inline Expr* mkNot(Expr* a) { return mk(XOR, a, K(maskw(a->w), a->w)); }
static inline Expr* mkEq(Expr* a, Expr* b) { return mk(EQ, a, b); }
u64 foldop(Op op, u64 a, u64 b, unsigned w);

struct Model { u64 id; std::vector<u64> v; int rc; };
u64 evalE(Expr* e, const Model& m);
std::string exprStr(Expr* e, int depth = 6);

struct Solver {
  Z3_context ctx; Z3_solver s;
  std::vector<Expr*> stack;
  u64 queries = 0, nsat = 0, nunsat = 0, nunk = 0; double time = 0;
  unsigned rlimit = 40000000; // deterministic resource limit (no timer threads: the engine forks)
  void init();
  Z3_ast tr(Expr* e);
  void sync(const std::vector<Expr*>& pc);
  // returns 1 sat, 0 unsat, -1 unknown; on sat fills m
  int check(const std::vector<Expr*>& pc, Expr* extra, Model* m);
  int checkRaw(Z3_ast extra_or_null, Model* m);
  int enumerate(const std::vector<Expr*>& pc, Expr* e, unsigned maxn, std::vector<u64>& out, std::vector<Model*>* models);
};
