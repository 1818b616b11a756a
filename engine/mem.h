// Copy-on-write object memory: an address is (object id << 32) | (0x1000 + offset).
#pragma once
#include "expr.h"
static const u32 CH = 256, DIRN = 64;
static const u64 OFF0 = 0x1000;

struct Value { u64 v; Expr* e; };
static inline Value V(u64 v) { return {v, nullptr}; }
static inline Value VE(Expr* e) { if (e->op == CONST) return {e->val, nullptr}; return {0, e}; }
static inline Expr* toE(const Value& v, unsigned w) { return v.e ? v.e : K(v.v, w); }

struct Chunk { int rc; u32 n; Expr** sym; u64 init[4]; u8 data[1];
  static Chunk* make(u32 n, bool zero) { Chunk* c = (Chunk*)malloc(sizeof(Chunk) + n); c->rc = 1; c->n = n; c->sym = nullptr;
    if (zero) { memset(c->init, 0xff, sizeof c->init); } else memset(c->init, 0, sizeof c->init);
    memset(c->data, 0, n); return c; }
  Chunk* clone() { Chunk* c = (Chunk*)malloc(sizeof(Chunk) + n); memcpy(c, this, sizeof(Chunk) + n); c->rc = 1;
    if (sym) { c->sym = (Expr**)malloc(sizeof(Expr*) * n); memcpy(c->sym, sym, sizeof(Expr*) * n); } return c; }
  void drop() { if (--rc == 0) { free(sym); free(this); } }
  bool inited(u32 o) const { return init[o >> 6] >> (o & 63) & 1; }
  void setInit(u32 o) { init[o >> 6] |= 1ull << (o & 63); }
  void clrInit(u32 o) { init[o >> 6] &= ~(1ull << (o & 63)); }
  bool initRange(u32 o, u32 k) const { // k <= 8
    u64 m = k >= 64 ? ~0ull : ((1ull << k) - 1); u32 s = o & 63; u64 a = init[o >> 6] >> s; if (s + k > 64) a |= init[(o >> 6) + 1] << (64 - s); return (a & m) == m; }
  void setInitRange(u32 o, u32 k) { u64 m = ((1ull << k) - 1); u32 s = o & 63; init[o >> 6] |= m << s; if (s + k > 64) init[(o >> 6) + 1] |= m >> (64 - s); }
};
struct Dir { int rc; u32 n; Chunk* c[1];
  static Dir* make(u32 n) { Dir* d = (Dir*)calloc(1, sizeof(Dir) + n * sizeof(Chunk*)); d->rc = 1; d->n = n; return d; }
  Dir* clone() { Dir* d = make(n); for (u32 i = 0; i < n; i++) { d->c[i] = c[i]; if (c[i]) c[i]->rc++; } return d; }
  void drop() { if (--rc == 0) { for (u32 i = 0; i < n; i++) if (c[i]) c[i]->drop(); free(this); } }
};
enum { OF_ZERO = 1, OF_FREED = 2, OF_HEAP = 4, OF_STACK = 8, OF_GLOBAL = 16, OF_CONST = 32, OF_OPAQUE = 64, OF_ARRAY = 128 };
struct Obj { int rc; u32 flags; u64 size; u32 nd; u32 site; Dir* d[1];
  static Obj* make(u64 size, u32 flags) { u32 nc = (size + CH - 1) / CH; u32 nd = (nc + DIRN - 1) / DIRN; Obj* o = (Obj*)calloc(1, sizeof(Obj) + nd * sizeof(Dir*)); o->rc = 1; o->size = size; o->flags = flags; o->nd = nd; return o; }
  Obj* clone() { Obj* o = (Obj*)malloc(sizeof(Obj) + nd * sizeof(Dir*)); memcpy(o, this, sizeof(Obj) + nd * sizeof(Dir*)); o->rc = 1; for (u32 i = 0; i < nd; i++) if (d[i]) d[i]->rc++; return o; }
  void drop() { if (--rc == 0) { for (u32 i = 0; i < nd; i++) if (d[i]) d[i]->drop(); free(this); } }
  const Chunk* rd(u64 off) const { u32 ci = off / CH; Dir* x = d[ci / DIRN]; return x ? x->c[ci % DIRN] : nullptr; }
  Chunk* wr(u64 off) { // object already unshared
    u32 ci = off / CH; Dir*& x = d[ci / DIRN];
    if (!x) { u32 nc = (size + CH - 1) / CH; u32 rem = nc - (ci / DIRN) * DIRN; x = Dir::make(rem < DIRN ? rem : DIRN); }
    else if (x->rc > 1) { Dir* y = x->clone(); x->drop(); x = y; }
    Chunk*& c = x->c[ci % DIRN];
    if (!c) { u64 rem = size - (u64)ci * CH; c = Chunk::make(rem < CH ? rem : CH, flags & OF_ZERO); }
    else if (c->rc > 1) { Chunk* y = c->clone(); c->drop(); c = y; }
    return c; }
};
static const u32 OPN = 64;
struct OPage { int rc; Obj* o[OPN];
  OPage* clone() { OPage* p = (OPage*)malloc(sizeof(OPage)); memcpy(p, this, sizeof(OPage)); p->rc = 1; for (Obj* x : p->o) if (x) x->rc++; return p; }
  void drop() { if (--rc == 0) { for (Obj* x : o) if (x) x->drop(); free(this); } } };
struct ObjTable { std::vector<OPage*> p; u32 n = 0;
  ObjTable() {} ObjTable(const ObjTable& o) : p(o.p), n(o.n) { for (auto x : p) x->rc++; }
  ObjTable& operator=(const ObjTable&) = delete;
  ~ObjTable() { for (auto x : p) x->drop(); }
  Obj* get(u32 i) const { return i < n ? p[i / OPN]->o[i % OPN] : nullptr; }
  OPage* own(u32 i) { OPage*& x = p[i / OPN]; if (x->rc > 1) { OPage* y = x->clone(); x->drop(); x = y; } return x; }
  Obj* wr(u32 i) { Obj*& o = own(i)->o[i % OPN]; if (o->rc > 1) { Obj* y = o->clone(); o->rc--; o = y; } return o; }
  u32 push(Obj* o) { if (n / OPN >= p.size()) { OPage* q = (OPage*)calloc(1, sizeof(OPage)); q->rc = 1; p.push_back(q); } Obj*& s = own(n)->o[n % OPN]; if (s) s->drop(); s = o; return n++; }
  void set(u32 i, Obj* o) { Obj*& s = own(i)->o[i % OPN]; if (s) s->drop(); s = o; }
  void popTo(u32 k) { while (n > k) { --n; if (p[n / OPN]->o[n % OPN]) { Obj*& s = own(n)->o[n % OPN]; s->drop(); s = nullptr; } } }
};
