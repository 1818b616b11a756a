#include "expr.h"
#include <chrono>
Pool P;
static u64 nextModel = 1;

u64 foldop(Op op, u64 a, u64 b, unsigned w) {
  u64 m = maskw(w);
  switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? (a / b) & m : m;
    case SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
    case UREM: return b ? a % b : a;
    case SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & m;
    case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: { i64 x = sx(a, w); return (u64)(x >> (b >= w ? w - 1 : b)) & m; }
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sx(a, w) < sx(b, w);
    case SLE: return sx(a, w) <= sx(b, w);
    default: abort();
  }
}

Expr* mkSym(const std::string& name, unsigned w, bool undef) {
  P.syms.push_back({name, (u8)w, undef});
  Expr* e = P.intern(SYM, w, 0, 0, 0, P.syms.size() - 1);
  if (undef) e->flag |= 1;
  return e;
}
static inline bool isNotOf(Expr* x, Expr* y) { // y == ~x, width 1
  return x->w == 1 && ((y->op == XOR && y->a == x && isK(y->b, 1)) || (x->op == XOR && x->a == y && isK(x->b, 1)));
}
static inline bool constArm(Expr* e) { return e->op == ITE && (isK(e->b) || isK(e->c)); }
static bool constLeaves(Expr* e, int d) { if (isK(e)) return true; if (d == 0 || e->op != ITE) return false; return constLeaves(e->b, d - 1) && constLeaves(e->c, d - 1); }

Expr* mk(Op op, Expr* a, Expr* b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "mk: width mismatch op=%d %d %d\n", op, a->w, b->w); abort(); }
  bool cmp = op >= EQ && op <= SLE;
  if (isK(a) && isK(b)) return K(foldop(op, a->val, b->val, w), cmp ? 1 : w);
  switch (op) { case ADD: case MUL: case AND: case OR: case XOR: case EQ:
      if (isK(a) || (!isK(b) && a->id > b->id)) { Expr* t = a; a = b; b = t; } break; default: break; }
  u64 m = maskw(w);
  // push operations with a constant into ITEs with constant leaves
  if (isK(b) && a->op == ITE && constLeaves(a, 4)) return mkIte(a->a, mk(op, a->b, b), mk(op, a->c, b));
  if (isK(a) && b->op == ITE && constLeaves(b, 4)) return mkIte(b->a, mk(op, a, b->b), mk(op, a, b->c));
  switch (op) {
    case ADD:
      if (isK(b, 0)) return a;
      if (w == 1) return mk(XOR, a, b);
      if (isK(b) && a->op == ADD && isK(a->b)) return mk(ADD, a->a, K(a->b->val + b->val, w));
      if (!isK(b) && a->op == ADD && isK(a->b)) return mk(ADD, mk(ADD, a->a, b), a->b);
      if (!isK(b) && b->op == ADD && isK(b->b)) return mk(ADD, mk(ADD, a, b->a), b->b);
      if (((~a->kz & m) & (~b->kz & m)) == 0) return mk(OR, a, b);
      if (a == b) return mk(SHL, a, K(1, w));
      break;
    case SUB:
      if (a == b) return K(0, w);
      if (isK(b)) return mk(ADD, a, K(0 - b->val, w));
      if (a->op == ADD && isK(a->b)) return mk(ADD, mk(SUB, a->a, b), a->b);
      if (b->op == ADD && isK(b->b)) return mk(ADD, mk(SUB, a, b->a), K(0 - b->b->val, w));
      if (a->op == ADD && a->a == b) return a->b;
      if (a->op == ADD && a->b == b) return a->a;
      if (w == 1) return mk(XOR, a, b);
      break;
    case MUL:
      if (isK(b, 0)) return b;
      if (isK(b, 1)) return a;
      if (w == 1) return mk(AND, a, b);
      if (isK(b) && (b->val & (b->val - 1)) == 0) return mk(SHL, a, K(__builtin_ctzll(b->val), w));
      break;
    case UDIV:
      if (isK(b, 1)) return a;
      if (isK(b) && b->val && (b->val & (b->val - 1)) == 0) return mk(LSHR, a, K(__builtin_ctzll(b->val), w));
      if (isK(b) && b->val && a->hi < b->val) return K(0, w);
      break;
    case SDIV:
      if (isK(b, 1)) return a;
      if (w > 1 && a->hi <= (m >> 1) && b->hi <= (m >> 1) && b->lo) return mk(UDIV, a, b);
      break;
    case UREM:
      if (isK(b, 1)) return K(0, w);
      if (isK(b) && b->val && (b->val & (b->val - 1)) == 0) return mk(AND, a, K(b->val - 1, w));
      if (b->lo && a->hi < b->lo) return a;
      break;
    case SREM:
      if (w > 1 && a->hi <= (m >> 1) && b->hi <= (m >> 1) && b->lo) return mk(UREM, a, b);
      break;
    case AND:
      if (isK(b, 0)) return b;
      if (isK(b, m)) return a;
      if (a == b) return a;
      if (isK(b) && ((~a->kz & m) & ~b->val) == 0) return a;
      if (((~a->kz & m) & (~b->kz & m)) == 0) return K(0, w);
      if (isNotOf(a, b)) return K(0, 1);
      if (isK(b) && a->op == AND && isK(a->b)) return mk(AND, a->a, K(a->b->val & b->val, w));
      if (isK(b) && a->op == OR) return mk(OR, mk(AND, a->a, b), mk(AND, a->b, b));
      if (isK(b) && a->op == ZEXT && b->val != 0 && a->a->w < w) { u64 bm = b->val & maskw(a->a->w); return mkZext(mk(AND, a->a, K(bm, a->a->w)), w); }
      if (a->op == AND && (a->a == b || a->b == b)) return a;
      if (b->op == AND && (b->a == a || b->b == a)) return b;
      break;
    case OR:
      if (isK(b, 0)) return a;
      if (isK(b, m)) return b;
      if (a == b) return a;
      if (isNotOf(a, b)) return K(1, 1);
      if (isK(b) && a->op == OR && isK(a->b)) return mk(OR, a->a, K(a->b->val | b->val, w));
      if (a->op == OR && (a->a == b || a->b == b)) return a;
      if (b->op == OR && (b->a == a || b->b == a)) return b;
      break;
    case XOR:
      if (isK(b, 0)) return a;
      if (a == b) return K(0, w);
      if (isK(b) && a->op == XOR && isK(a->b)) return mk(XOR, a->a, K(a->b->val ^ b->val, w));
      if (w == 1 && isK(b, 1)) {
        if (a->op == ULT) return mk(ULE, a->b, a->a);
        if (a->op == ULE) return mk(ULT, a->b, a->a);
        if (a->op == SLT) return mk(SLE, a->b, a->a);
        if (a->op == SLE) return mk(SLT, a->b, a->a);
        if (a->op == ITE) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
      }
      break;
    case SHL:
      if (isK(b, 0)) return a;
      if (isK(b) && b->val >= w) return K(0, w);
      if (isK(a, 0)) return a;
      if (isK(b) && a->op == SHL && isK(a->b)) return a->b->val + b->val >= w ? K(0, w) : mk(SHL, a->a, K(a->b->val + b->val, w));
      if (isK(b) && a->op == OR) return mk(OR, mk(SHL, a->a, b), mk(SHL, a->b, b));
      if (isK(b) && a->op == LSHR && a->b == b) return mk(AND, a->a, K(m << b->val, w));
      break;
    case ASHR:
      if (isK(b, 0)) return a;
      if (w > 1 && a->hi <= (m >> 1)) return mk(LSHR, a, b);
      break;
    case LSHR:
      if (isK(b, 0)) return a;
      if (isK(b) && b->val >= w) return K(0, w);
      if (isK(b) && (a->hi >> b->val) == 0) return K(0, w);
      if (isK(b) && a->op == SHL && a->b == b) return mk(AND, a->a, K(m >> b->val, w));
      if (isK(b) && a->op == SHL && isK(a->b) && a->b->val > b->val) { u64 d = a->b->val - b->val; return mk(AND, mk(SHL, a->a, K(d, w)), K(m >> b->val, w)); }
      if (isK(b) && a->op == LSHR && isK(a->b)) return a->b->val + b->val >= w ? K(0, w) : mk(LSHR, a->a, K(a->b->val + b->val, w));
      if (isK(b) && (a->op == OR || a->op == AND)) return mk(a->op, mk(LSHR, a->a, b), mk(LSHR, a->b, b));
      if (isK(b) && a->op == ZEXT && a->a->w > 1) { unsigned aw = a->a->w; return b->val >= aw ? K(0, w) : mkZext(mk(LSHR, a->a, K(b->val, aw)), w); }
      break;
    case EQ:
      if (a == b) return K(1, 1);
      if (a->hi < b->lo || b->hi < a->lo) return K(0, 1);
      if (w == 1) { if (isK(b)) return b->val ? a : mkNot(a); return mkNot(mk(XOR, a, b)); }
      if (isK(b)) {
        u64 k = b->val;
        if (k & a->kz & m) return K(0, 1);
        switch (a->op) {
          case ADD: if (isK(a->b)) return mkEq(a->a, K(k - a->b->val, w)); break;
          case XOR: if (isK(a->b)) return mkEq(a->a, K(k ^ a->b->val, w)); break;
          case ZEXT: if (k > maskw(a->a->w)) return K(0, 1); return mkEq(a->a, K(k, a->a->w));
          case SEXT: { unsigned aw = a->a->w; if ((u64)sx(k, aw) != (u64)sx(k, w)) return K(0, 1); return mkEq(a->a, K(k, aw)); }
          case CONCAT: return mk(AND, mkEq(a->a, K(k >> a->b->w, a->a->w)), mkEq(a->b, K(k, a->b->w)));
          case SHL: if (isK(a->b)) { u64 s = a->b->val; if (k & ((1ull << s) - 1)) return K(0, 1); if (a->a->hi <= (m >> s)) return mkEq(a->a, K(k >> s, w)); } break;
          case OR: // disjoint halves
            if (((~a->a->kz & m) & (~a->b->kz & m)) == 0) { u64 ma = ~a->a->kz & m; return mk(AND, mkEq(a->a, K(k & ma, w)), mkEq(a->b, K(k & ~ma, w))); }
            break;
          case ITE: if (constArm(a)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b)); break;
          default: break;
        }
      } else {
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->op == ADD && b->op == ADD && a->b == b->b) return mkEq(a->a, b->a);
        if (a->op == ADD && b->op == ADD && isK(a->b) && isK(b->b)) return mkEq(a->a, mk(ADD, b->a, K(b->b->val - a->b->val, w)));
      }
      break;
    case ULT:
      if (a == b || isK(b, 0)) return K(0, 1);
      if (a->hi < b->lo) return K(1, 1);
      if (a->lo >= b->hi) return K(0, 1);
      if (w == 1) return mk(AND, mkNot(a), b);
      if (isK(b, 1)) return mkEq(a, K(0, w));
      if (a->op == ZEXT && isK(b)) return mk(ULT, a->a, K(b->val, a->a->w));
      if (b->op == ZEXT && isK(a)) return mk(ULT, K(a->val, b->a->w), b->a);
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mk(ULT, a->a, b->a);
      if (isK(b) && constArm(a)) return mkIte(a->a, mk(ULT, a->b, b), mk(ULT, a->c, b));
      if (isK(a) && constArm(b)) return mkIte(b->a, mk(ULT, a, b->b), mk(ULT, a, b->c));
      break;
    case ULE:
      if (a == b || isK(a, 0)) return K(1, 1);
      if (a->hi <= b->lo) return K(1, 1);
      if (a->lo > b->hi) return K(0, 1);
      if (w == 1) return mk(OR, mkNot(a), b);
      if (isK(a, 1)) return mkNot(mkEq(b, K(0, w)));
      if (a->op == ZEXT && isK(b)) return mk(ULE, a->a, K(b->val, a->a->w));
      if (b->op == ZEXT && isK(a)) return mk(ULE, K(a->val, b->a->w), b->a);
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mk(ULE, a->a, b->a);
      if (isK(b) && constArm(a)) return mkIte(a->a, mk(ULE, a->b, b), mk(ULE, a->c, b));
      if (isK(a) && constArm(b)) return mkIte(b->a, mk(ULE, a, b->b), mk(ULE, a, b->c));
      break;
    case SLT: case SLE: {
      u64 h = m >> 1; bool an = a->hi <= h, bn = b->hi <= h, am = a->lo > h, bm = b->lo > h;
      if ((an && bn) || (am && bm)) return mk(op == SLT ? ULT : ULE, a, b);
      if (am && bn) return K(1, 1);
      if (an && bm) return K(0, 1);
      if (a == b) return K(op == SLE, 1);
      if (a->op == SEXT && isK(b) && (u64)sx(b->val, a->a->w) == (u64)sx(b->val, w)) return mk(op, a->a, K(b->val, a->a->w));
      if (b->op == SEXT && isK(a) && (u64)sx(a->val, b->a->w) == (u64)sx(a->val, w)) return mk(op, K(a->val, b->a->w), b->a);
      if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mk(op, a->a, b->a);
      if (isK(b) && constArm(a)) return mkIte(a->a, mk(op, a->b, b), mk(op, a->c, b));
      if (isK(a) && constArm(b)) return mkIte(b->a, mk(op, a, b->b), mk(op, a, b->c));
      break; }
    default: break;
  }
  return P.intern(op, cmp ? 1 : w, a, b, nullptr, 0);
}

Expr* mkIte(Expr* c, Expr* t, Expr* f) {
  if (isK(c)) return c->val ? t : f;
  if (t == f) return t;
  if (c->op == XOR && isK(c->b, 1)) return mkIte(c->a, f, t);
  if (t->w == 1) {
    if (isK(t, 1) && isK(f, 0)) return c;
    if (isK(t, 0) && isK(f, 1)) return mkNot(c);
    if (isK(t, 1)) return mk(OR, c, f);
    if (isK(f, 0)) return mk(AND, c, t);
    if (isK(t, 0)) return mk(AND, mkNot(c), f);
    if (isK(f, 1)) return mk(OR, mkNot(c), t);
  }
  if (t->op == ITE && t->a == c) t = t->b;
  if (f->op == ITE && f->a == c) f = f->c;
  if (t == f) return t;
  if (f->op == ITE && f->b == t) return mkIte(mk(OR, c, f->a), t, f->c);
  return P.intern(ITE, t->w, c, t, f, 0);
}
Expr* mkZext(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isK(a)) return K(a->val, w);
  if (a->op == ZEXT) return mkZext(a->a, w);
  if (a->op == ITE && constLeaves(a, 4)) return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
  return P.intern(ZEXT, w, a, 0, 0, 0);
}
Expr* mkSext(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isK(a)) return K((u64)sx(a->val, a->w), w);
  if (a->op == SEXT) return mkSext(a->a, w);
  if (a->hi <= (maskw(a->w) >> 1)) return mkZext(a, w);
  if (a->op == ITE && constLeaves(a, 4)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
  return P.intern(SEXT, w, a, 0, 0, 0);
}
Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isK(a)) return K(a->val >> lo, w);
  if (lo < 64 && lo > 0 && (a->hi >> lo) == 0) return K(0, w);
  switch (a->op) {
    case EXTRACT: return mkExtract(a->a, a->val + lo, w);
    case CONCAT: if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
      if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
    case ZEXT: if (lo >= a->a->w) return K(0, w); if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); if (lo == 0) return mkZext(a->a, w); return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
    case SEXT: if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); if (lo == 0) return mkSext(a->a, w); break;
    case ITE: if (constLeaves(a, 4) || isK(a->b) || isK(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
    case AND: case OR: case XOR: return mk(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case ADD: case SUB: case MUL: if (lo == 0) return mk(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    case LSHR: if (isK(a->b) && a->b->val + lo + w <= a->w) return mkExtract(a->a, lo + a->b->val, w); break;
    case SHL: if (isK(a->b)) { u64 s = a->b->val; if (lo >= s) return mkExtract(a->a, lo - s, w); if (lo + w <= s) return K(0, w);
        if (lo == 0) return mk(SHL, mkExtract(a->a, 0, w), K(s, w)); } break;
    default: break;
  }
  return P.intern(EXTRACT, w, a, 0, 0, lo);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (isK(hi) && isK(lo)) return K((hi->val << lo->w) | lo->val, w);
  if (isK(hi, 0)) return mkZext(lo, w);
  auto base = [](Expr* e, unsigned& off) -> Expr* { if (e->op == EXTRACT) { off = e->val; return e->a; } off = 0; return e; };
  unsigned oh, ol; Expr* bh = base(hi, oh); Expr* bl = base(lo, ol);
  if (bh == bl && oh == ol + lo->w) return mkExtract(bh, ol, w);
  // ((x concat extract) concat extract) merging
  if (hi->op == CONCAT) { Expr* t = hi->b; unsigned ot; Expr* bt = base(t, ot); if (bt == bl && ot == ol + lo->w) return mkConcat(hi->a, mkExtract(bt, ol, t->w + lo->w)); }
  if (lo->op == CONCAT) { Expr* t = lo->a; unsigned ot; Expr* bt = base(t, ot); if (bt == bh && oh == ot + t->w) return mkConcat(mkExtract(bt, ot, t->w + hi->w), lo->b); }
  if (lo->op == ITE && hi->op == ITE && lo->a == hi->a) return mkIte(lo->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  if (hi->op == ZEXT) return mkZext(mkConcat(hi->a, lo), w);
  // byte pieces of a zext: extract(x,8..) of narrow symbols
  if (bh->op == ITE && oh && lo->op == ITE && lo->a == bh->a) return mkIte(lo->a, mkConcat(mkExtract(bh->b, oh, hi->w), lo->b), mkConcat(mkExtract(bh->c, oh, hi->w), lo->c));
  return P.intern(CONCAT, w, hi, lo, 0, 0);
}

u64 evalE(Expr* e, const Model& m) {
  if (e->op == CONST) return e->val;
  if (e->mid == m.id) return e->mval;
  u64 r = 0;
  switch (e->op) {
    case SYM: r = e->val < m.v.size() ? m.v[e->val] : 0; break;
    case ITE: r = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->c, m); break;
    case ZEXT: r = evalE(e->a, m); break;
    case SEXT: r = (u64)sx(evalE(e->a, m), e->a->w) & maskw(e->w); break;
    case EXTRACT: r = (evalE(e->a, m) >> e->val) & maskw(e->w); break;
    case CONCAT: r = (evalE(e->a, m) << e->b->w) | evalE(e->b, m); break;
    default: r = foldop(e->op, evalE(e->a, m), evalE(e->b, m), e->a->w);
  }
  e->mid = m.id; e->mval = r;
  return r;
}
std::string exprStr(Expr* e, int d) {
  static const char* nm[] = {"K","S","+","-","*","u/","s/","u%","s%","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","zx","sx","ext","cat"};
  if (e->op == CONST) return std::to_string((i64)sx(e->val, e->w)) + ":" + std::to_string(e->w);
  if (e->op == SYM) return P.syms[e->val].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + nm[e->op];
  if (e->op == EXTRACT) s += std::to_string(e->val) + "/" + std::to_string(e->w);
  for (Expr* x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
  return s + ")";
}

static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
void Solver::init() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(ctx, z3err);
  s = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rlimit);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 1);
  Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
}
Z3_ast Solver::tr(Expr* e) {
  if (e->ast) return e->ast;
  Z3_ast r = nullptr;
  auto bv = [&](Expr* x) -> Z3_ast { Z3_ast t = tr(x); if (x->w == 1) { Z3_sort s1 = Z3_mk_bv_sort(ctx, 1); return Z3_mk_ite(ctx, t, Z3_mk_unsigned_int64(ctx, 1, s1), Z3_mk_unsigned_int64(ctx, 0, s1)); } return t; };
  auto asBool = [&](Z3_ast t) { return Z3_mk_eq(ctx, t, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); };
  if (e->w == 1) {
    switch (e->op) {
      case CONST: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
      case SYM: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->val), Z3_mk_bool_sort(ctx)); break;
      case EQ: r = Z3_mk_eq(ctx, tr(e->a), tr(e->b)); break;
      case ULT: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
      case ULE: r = Z3_mk_bvule(ctx, bv(e->a), bv(e->b)); break;
      case SLT: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
      case SLE: r = Z3_mk_bvsle(ctx, bv(e->a), bv(e->b)); break;
      case AND: case MUL: { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
      case OR: { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
      case XOR: case ADD: case SUB: if (isK(e->b, 1)) r = Z3_mk_not(ctx, tr(e->a)); else r = Z3_mk_xor(ctx, tr(e->a), tr(e->b)); break;
      case ITE: r = Z3_mk_ite(ctx, tr(e->a), tr(e->b), tr(e->c)); break;
      case EXTRACT: r = asBool(Z3_mk_extract(ctx, e->val, e->val, bv(e->a))); break;
      case UDIV: r = asBool(Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b))); break;
      case SDIV: r = asBool(Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b))); break;
      case UREM: r = asBool(Z3_mk_bvurem(ctx, bv(e->a), bv(e->b))); break;
      case SREM: r = asBool(Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b))); break;
      case SHL: r = asBool(Z3_mk_bvshl(ctx, bv(e->a), bv(e->b))); break;
      case LSHR: r = asBool(Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b))); break;
      case ASHR: r = asBool(Z3_mk_bvashr(ctx, bv(e->a), bv(e->b))); break;
      default: abort();
    }
  } else {
    switch (e->op) {
      case CONST: r = Z3_mk_unsigned_int64(ctx, e->val, Z3_mk_bv_sort(ctx, e->w)); break;
      case SYM: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->val), Z3_mk_bv_sort(ctx, e->w)); break;
      case ADD: r = Z3_mk_bvadd(ctx, tr(e->a), tr(e->b)); break;
      case SUB: r = Z3_mk_bvsub(ctx, tr(e->a), tr(e->b)); break;
      case MUL: r = Z3_mk_bvmul(ctx, tr(e->a), tr(e->b)); break;
      case UDIV: r = Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b)); break;
      case SDIV: r = Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b)); break;
      case UREM: r = Z3_mk_bvurem(ctx, tr(e->a), tr(e->b)); break;
      case SREM: r = Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b)); break;
      case AND: r = Z3_mk_bvand(ctx, tr(e->a), tr(e->b)); break;
      case OR: r = Z3_mk_bvor(ctx, tr(e->a), tr(e->b)); break;
      case XOR: r = Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
      case SHL: r = Z3_mk_bvshl(ctx, tr(e->a), tr(e->b)); break;
      case LSHR: r = Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b)); break;
      case ASHR: r = Z3_mk_bvashr(ctx, tr(e->a), tr(e->b)); break;
      case ITE: r = Z3_mk_ite(ctx, tr(e->a), tr(e->b), tr(e->c)); break;
      case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
      case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
      case EXTRACT: r = Z3_mk_extract(ctx, e->val + e->w - 1, e->val, bv(e->a)); break;
      case CONCAT: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
      default: abort();
    }
  }
  e->ast = r; return r;
}
void Solver::sync(const std::vector<Expr*>& pc) {
  size_t k = 0; while (k < stack.size() && k < pc.size() && stack[k] == pc[k]) k++;
  if (stack.size() > k) { Z3_solver_pop(ctx, s, stack.size() - k); stack.resize(k); }
  for (; k < pc.size(); k++) { Z3_solver_push(ctx, s); Z3_solver_assert(ctx, s, tr(pc[k])); stack.push_back(pc[k]); }
}
int Solver::checkRaw(Z3_ast extra, Model* m) {
  auto t0 = std::chrono::steady_clock::now();
  Z3_lbool r;
  if (extra) { Z3_solver_push(ctx, s); Z3_solver_assert(ctx, s, extra); }
  r = Z3_solver_check(ctx, s);
  queries++;
  if (r == Z3_L_TRUE) {
    nsat++;
    if (m) {
      Z3_model zm = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, zm);
      m->id = nextModel++; m->v.assign(P.syms.size(), 0);
      unsigned n = Z3_model_get_num_consts(ctx, zm);
      for (unsigned i = 0; i < n; i++) {
        Z3_func_decl d = Z3_model_get_const_decl(ctx, zm, i);
        Z3_symbol sy = Z3_get_decl_name(ctx, d);
        if (Z3_get_symbol_kind(ctx, sy) != Z3_INT_SYMBOL) continue;
        int ix = Z3_get_symbol_int(ctx, sy);
        Z3_ast v = Z3_model_get_const_interp(ctx, zm, d);
        if (!v || ix < 0 || (size_t)ix >= m->v.size()) continue;
        if (P.syms[ix].w == 1) m->v[ix] = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
        else { uint64_t u = 0; if (Z3_get_numeral_uint64(ctx, v, &u)) m->v[ix] = u; }
      }
      Z3_model_dec_ref(ctx, zm);
    }
  } else if (r == Z3_L_FALSE) nunsat++; else nunk++;
  if (extra) Z3_solver_pop(ctx, s, 1);
  time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}
int Solver::check(const std::vector<Expr*>& pc, Expr* extra, Model* m) {
  if (extra && isK(extra)) { if (!extra->val) return 0; extra = nullptr; }
  sync(pc);
  return checkRaw(extra ? tr(extra) : nullptr, m);
}
// Enumerates up to maxn values of e under pc. Returns 1 if complete, 0 if more exist, -1 unknown.
int Solver::enumerate(const std::vector<Expr*>& pc, Expr* e, unsigned maxn, std::vector<u64>& out, std::vector<Model*>* models) {
  sync(pc);
  Z3_solver_push(ctx, s);
  int res = 0;
  for (u64 v : out) Z3_solver_assert(ctx, s, tr(mkNot(mkEq(e, K(v, e->w)))));
  for (;;) {
    Model* m = new Model; m->rc = 0;
    int r = checkRaw(nullptr, m);
    if (r == 0) { delete m; res = 1; break; }
    if (r < 0) { delete m; res = -1; break; }
    if (out.size() >= maxn) { delete m; res = 0; break; }
    u64 v = evalE(e, *m);
    out.push_back(v);
    if (models) models->push_back(m); else delete m;
    Z3_solver_assert(ctx, s, tr(mkNot(mkEq(e, K(v, e->w)))));
  }
  Z3_solver_pop(ctx, s, 1);
  return res;
}
