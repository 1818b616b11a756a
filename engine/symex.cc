// A symbolic executor for LLVM IR. See /verif/DESIGN.md.
#include "mem.h"
#include <llvm/ADT/StringRef.h>
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <cmath>
#include <chrono>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <unordered_map>
using namespace llvm;
typedef ::Value SV;

// ------------------------------------------------------------------ options
static std::string optEntry = "harness", optOut = "/dev/stdout", optPrefix = "";
static double optTime = 60; static u64 optMaxSteps = 20000000; static unsigned optJobs = 8, optMaxErr = 8, optEnum = 16, optSamples = 12;
static bool optTrace = false, optIteLoads = true, optIteStores = false, optVerbose = false, optProfile = false; static u64 optSeed = 1;
static u64 optMaxDepth = 4000;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ shared statistics
struct Shared { volatile int active; volatile int stop; volatile u64 nerr; volatile u64 steps, paths, forks, queries, qsat, qunsat, qunk, silent, limited, timeouts, splits, assumes, checks, samples, unsup, pending_lost, undefbr;
  volatile double stime, deadline; volatile u64 reach[256]; volatile u64 obligations; volatile int procs; char rname[256][48]; volatile u8 fnUsed[32768]; volatile int rlock; };
static Shared* sh;

// ------------------------------------------------------------------ compiled code
enum IOp : u8 { I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_CAST, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL, I_RET, I_BR, I_CONDBR, I_SWITCH, I_SELECT, I_COPY, I_UNREACH, I_LPAD, I_RESUME, I_NOP, I_RMW, I_CMPXCHG, I_EXTDYN, I_INSDYN, I_UNSUP };
struct Copy { int dst, src; };
struct Edge { int pc; std::vector<Copy> cp; bool inter; };
struct Fn; struct State;
typedef bool (*Handler)(State&, struct Ins&, std::vector<SV>&, SV& ret);
struct Leaf { u32 off; u8 w; };
struct Ins {
  IOp op; u8 sub; u8 w; u8 w2; bool fp32 = false; bool invoke = false; int n = 1; int dst = -1, a = 0, b = 0, c = 0; u64 imm = 0;
  std::vector<Leaf> leaves; std::vector<int> args; std::vector<int> argn; std::vector<std::pair<int, u64>> gep; std::vector<u8> gepw;
  std::vector<Copy> copies; std::vector<Edge> edges; std::vector<u64> cases; Fn* callee = nullptr; Handler h = nullptr; u32 intr = 0; bool vol = false;
  std::vector<u64> lpad; bool cleanup = false; std::vector<u8> ws; int retn = 0; const Instruction* I = nullptr;
};
struct Fn { Function* F = nullptr; std::string name; bool compiled = false; bool defined = false; std::vector<Ins> code; std::vector<SV> consts; int nslots = 0; int nargs = 0; Handler h = nullptr; bool hInit = false; bool used = false; u64 addr = 0; u64 calls = 0, forks = 0; };
struct Frame { int rc; Fn* fn; int pc; u32 stkBase; int nslots; SV r[1];
  static Frame* make(Fn* f) { Frame* x = (Frame*)malloc(sizeof(Frame) + sizeof(SV) * f->nslots); x->rc = 1; x->fn = f; x->pc = 0; x->nslots = f->nslots; return x; }
  Frame* clone() { size_t s = sizeof(Frame) + sizeof(SV) * nslots; Frame* x = (Frame*)malloc(s); memcpy(x, this, s); x->rc = 1; return x; }
  void drop() { if (--rc == 0) free(this); } };
struct Exc { u64 obj, type; };
struct Obs { const std::string* name; SV v; };
struct State {
  std::vector<Frame*> st; ObjTable heap, stk; std::vector<Expr*> pc; Model* model = nullptr; u32 nsym = 0; std::vector<Expr*> usyms; u64 steps = 0; u64 fix0 = 0, fix1 = 0;
  std::vector<Obs> obs; std::vector<Exc> exc; std::vector<Exc> caught; u64 depth = 0; u64 retry = 0; std::unordered_map<Expr*, u64> known; std::vector<u32> reached;
  State() {}
  State(const State& o) : st(o.st), heap(o.heap), stk(o.stk), pc(o.pc), model(o.model), nsym(o.nsym), usyms(o.usyms), steps(o.steps), fix0(o.fix0), fix1(o.fix1), obs(o.obs), exc(o.exc), caught(o.caught), depth(o.depth), known(o.known), reached(o.reached) { for (auto f : st) f->rc++; if (model) model->rc++; }
  ~State() { for (auto f : st) f->drop(); if (model && --model->rc == 0) delete model; }
  void setModel(Model* m) { m->rc++; if (model && --model->rc == 0) delete model; model = m; }
  Frame* top() { Frame*& f = st.back(); if (f->rc > 1) { Frame* g = f->clone(); f->rc--; f = g; } return f; }
};
static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::unordered_map<const Function*, Fn*> fns; static std::vector<Fn*> fnByIdx; static std::unordered_map<const GlobalValue*, u64> gaddr;
static State* init0; static Solver S; static std::vector<State*> work;
static std::map<u64, std::string> globName; static std::map<u64, u64> typeIds; static std::vector<u64> typeById{0};
static std::unordered_map<std::string, Expr*> symCache;
static const u64 FNBASE = 0xF000000000000000ull;
static int outfd = -1; static bool inInit = false;

static void die(const std::string& s) { fprintf(stderr, "symex: fatal: %s\n", s.c_str()); _exit(3); }
static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static void emit(const std::string& line) { std::string l = line + "\n"; if (write(outfd, l.data(), l.size()) < 0) {} }

// ------------------------------------------------------------------ errors and path ends
static std::string locOf(const Instruction* I) {
  if (!I) return "?";
  if (const DebugLoc& D = I->getDebugLoc()) { std::string r; DILocation* L = D.get(); int k = 0;
    while (L && k++ < 3) { if (!r.empty()) r += " < "; r += L->getFilename().str() + ":" + std::to_string(L->getLine()); L = L->getInlinedAt(); } return r; }
  return "?";
}
static std::string trace(State& s) { std::string r; int k = 0; for (int i = (int)s.st.size() - 1; i >= 0 && k < 14; i--, k++) { Frame* f = s.st[i]; r += f->fn->name + " @ " + locOf(f->pc < (int)f->fn->code.size() ? f->fn->code[f->pc].I : nullptr) + "\n"; } return r; }
static std::string symsJson(State& s, Model& m) {
  std::string r = "["; bool first = true;
  for (Expr* e : s.usyms) { if (!first) r += ","; first = false; r += "[" + jstr(P.syms[e->val].name) + "," + std::to_string(e->w) + "," + std::to_string(evalE(e, m)) + "]"; }
  return r + "]";
}
static std::string obsJson(State& s, Model& m) { std::string r = "["; bool f = true; for (auto& o : s.obs) { if (!f) r += ","; f = false; u64 v = o.v.e ? evalE(o.v.e, m) : o.v.v; r += "[" + jstr(*o.name) + "," + std::to_string(v) + "]"; } return r + "]"; }
static std::set<std::string> errSeen;
static void error(State& s, const std::string& kind, const std::string& msg, Model* m = nullptr) {
  if (!m) m = s.model;
  std::string loc = s.st.empty() ? "?" : locOf(s.st.back()->fn->code[s.st.back()->pc].I);
  std::string key = kind + "|" + msg + "|" + loc;
  int cnt = 0; for (auto& k : errSeen) if (k == key) cnt++;
  errSeen.insert(key);
  u64 n = __sync_add_and_fetch(&sh->nerr, 1);
  if (cnt && n > optMaxErr) return;
  emit("{\"type\":\"error\",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"loc\":" + jstr(loc) + ",\"trace\":" + jstr(trace(s)) + ",\"syms\":" + symsJson(s, *m) + ",\"obs\":" + obsJson(s, *m) + "}");
  if (n >= optMaxErr) sh->stop = 1;
}
enum End { E_OK, E_ASSUME, E_ERR, E_LIMIT, E_UNSUP, E_SILENT };
static u64 lSteps, lPaths, lForks, lObl;
static void endPath(State* s, End e) {
  lSteps += s->steps;
  if (e == E_OK) {
    lPaths++;
    for (u32 r : s->reached) __sync_add_and_fetch(&sh->reach[r], 1);
    u64 k = __sync_add_and_fetch(&sh->paths, 1);
    // sample paths for native validation: first few, then at exponentially spaced indices
    bool smp = k <= optSamples / 2 || ((k * 2654435761u) % 65537) * (k / 8 + 1) < 65537 * 2;
    if (smp && sh->samples < optSamples) { __sync_add_and_fetch(&sh->samples, 1);
      emit("{\"type\":\"sample\",\"syms\":" + symsJson(*s, *s->model) + ",\"obs\":" + obsJson(*s, *s->model) + ",\"constraints\":" + std::to_string(s->pc.size()) + ",\"steps\":" + std::to_string(s->steps) + "}"); }
  } else if (e == E_ASSUME) __sync_add_and_fetch(&sh->assumes, 1);
  else if (e == E_LIMIT) __sync_add_and_fetch(&sh->limited, 1);
  else if (e == E_UNSUP) __sync_add_and_fetch(&sh->unsup, 1);
  else if (e == E_SILENT) __sync_add_and_fetch(&sh->silent, 1);
}
struct PathEnd { End e; };           // thrown to leave the current state
struct Retry {};                      // thrown to re-execute the current instruction
static void unsup(State& s, const std::string& what) {
  static std::set<std::string> seen; std::string loc = s.st.empty() ? "?" : locOf(s.st.back()->fn->code[s.st.back()->pc].I);
  if (seen.insert(what + loc).second) emit("{\"type\":\"unsupported\",\"what\":" + jstr(what) + ",\"loc\":" + jstr(loc) + ",\"trace\":" + jstr(trace(s)) + "}");
  throw PathEnd{E_UNSUP};
}

// ------------------------------------------------------------------ constraints
static void fixSym(State& s, Expr* c) {
  Expr* y = nullptr;
  if (c->op == SYM) y = c; else if (c->op == XOR && isK(c->b, 1) && c->a->op == SYM) y = c->a; else if (c->op == EQ && c->a->op == SYM && isK(c->b)) y = c->a;
  if (y) { if (y->val < 64) s.fix0 |= 1ull << y->val; else if (y->val < 127) s.fix1 |= 1ull << (y->val - 64); }
}
static void addC(State& s, Expr* c) {
  if (isK(c)) return;
  if (c->op == AND) { addC(s, c->a); addC(s, c->b); return; }
  if (c->op == XOR && isK(c->b, 1) && c->a->op == OR) { addC(s, mkNot(c->a->a)); addC(s, mkNot(c->a->b)); return; }
  if (c->op == EQ && isK(c->b)) s.known[c->a] = c->b->val;
  s.pc.push_back(c); fixSym(s, c);
}
static inline bool allFixed(State& s, Expr* e) { return !(e->sm0 & ~s.fix0) && !(e->sm1 & ~s.fix1); }
static inline Expr* simp(State& s, Expr* e) { if (e->op == CONST) return e; if (allFixed(s, e)) return K(evalE(e, *s.model), e->w); return e; }
static std::map<std::string, u64> forkLocs;
static State* forkState(State& s) { lForks++; if (optProfile) { s.st.back()->fn->forks++; forkLocs[locOf(s.st.back()->fn->code[s.st.back()->pc].I)]++; } State* n = new State(s); n->depth = s.depth + 1; return n; }
static u64 nUndefBr;
// Returns the truth value to follow in s (constraint added); pushes the other feasible side.
static bool branchOn(State& s, Expr* c, const std::function<void(State&, bool)>& other) {
  c = simp(s, c);
  if (isK(c)) return c->val;
  bool side = evalE(c, *s.model);
  Expr* mine = side ? c : mkNot(c); Expr* oth = side ? mkNot(c) : c;
  Model* m = new Model; m->rc = 0;
  int r = S.check(s.pc, oth, m);
  if (r == 0) { delete m; if (c->op == SYM || (c->op == EQ)) fixSym(s, mine); return side; }
  if (r < 0) { delete m; __sync_add_and_fetch(&sh->qunk, 1); addC(s, mine); return side; }
  if (c->flag & 1) { if (!nUndefBr++) emit("{\"type\":\"undefbranch\",\"loc\":" + jstr(locOf(s.st.back()->fn->code[s.st.back()->pc].I)) + ",\"trace\":" + jstr(trace(s)) + "}"); __sync_add_and_fetch(&sh->undefbr, 1); }
  State* n = forkState(s);
  n->setModel(m); addC(*n, oth);
  if (other) other(*n, !side);
  work.push_back(n);
  addC(s, mine);
  return side;
}
// Forces e to a single value on this path, forking the remaining values (they re-execute the instruction).
static u64 concretize(State& s, const SV& v, unsigned w) {
  if (!v.e) return v.v;
  Expr* e = simp(s, v.e);
  if (isK(e)) return e->val;
  auto it = s.known.find(e); if (it != s.known.end()) return it->second;
  u64 k = evalE(e, *s.model);
  Expr* eq = mkEq(e, K(k, e->w));
  Model* m = new Model; m->rc = 0;
  int r = S.check(s.pc, mkNot(eq), m);
  if (r == 1) { State* n = forkState(s); n->setModel(m); addC(*n, mkNot(eq)); work.push_back(n); addC(s, eq); }
  else { delete m; if (r < 0) { __sync_add_and_fetch(&sh->qunk, 1); addC(s, eq); } }
  s.known[e] = k;
  return k;
}

// ------------------------------------------------------------------ memory
static inline u32 idOf(u64 a) { return a >> 32; }
static inline bool isStk(u32 id) { return id >> 31 && id < 0xF0000000u; }
static Obj* findObj(State& s, u64 addr) { u32 id = idOf(addr); if (isStk(id)) return s.stk.get(id & 0x7fffffff); if (id >> 31) return nullptr; return id ? s.heap.get(id) : nullptr; }
static Obj* ownObj(State& s, u64 addr) { u32 id = idOf(addr); return isStk(id) ? s.stk.wr(id & 0x7fffffff) : s.heap.wr(id); }
static u64 allocHeap(State& s, u64 size, u32 flags) { if (size > 0x70000000ull) return 0; u32 id = s.heap.push(Obj::make(size, flags)); return ((u64)id << 32) + OFF0; }
static u64 allocStk(State& s, u64 size) { u32 i = s.stk.push(Obj::make(size, OF_STACK)); return ((u64)(0x80000000u | i) << 32) + OFF0; }
// classifies an access; empty string when valid
static std::string bad(State& s, u64 addr, u64 n, bool write) {
  Obj* o = findObj(s, addr);
  if (!o) return addr < 0x1000 ? "null-deref" : "invalid-pointer";
  if (o->flags & OF_FREED) return "use-after-free";
  u64 off = (addr & 0xffffffff) - OFF0;
  if (off + n > o->size || off > o->size) return write ? "out-of-bounds-write" : "out-of-bounds-read";
  if (write && (o->flags & OF_CONST) && !inInit) return "write-to-constant";
  return "";
}
static void memErr(State& s, const std::string& k, u64 addr, u64 n) {
  Obj* o = findObj(s, addr); char b[200]; snprintf(b, sizeof b, "%s of %llu bytes at offset %lld of object size %llu", k.c_str(), (unsigned long long)n, o ? (long long)((addr & 0xffffffff) - OFF0) : (long long)addr, o ? (unsigned long long)o->size : 0ull);
  error(s, "memory", b); throw PathEnd{E_ERR};
}
static u64 undefCtr;
static Expr* undefByte(State& s) { char b[32]; snprintf(b, 32, "undef%u", s.nsym++); auto& e = symCache[b]; if (!e) e = mkSym(b, 8, true); return e; }
static SV readRaw(State& s, Obj* o, u64 addr, u64 off, unsigned w) {
  unsigned nb = (w + 7) / 8; u32 co = off % CH;
  if (co + nb <= CH) {
    const Chunk* c = o->rd(off);
    if (!c) { if (o->flags & OF_ZERO) return V(0); }
    else if (!c->sym && c->initRange(co, nb)) { u64 v = 0; memcpy(&v, c->data + co, nb); return V(v & maskw(w)); }
  }
  // slow path
  Expr* r = nullptr; bool sym = false; u64 cv = 0; Expr* bs[8];
  for (unsigned i = 0; i < nb; i++) {
    const Chunk* c = o->rd(off + i); u32 x = (off + i) % CH; bs[i] = nullptr;
    if (!c) { if (!(o->flags & (OF_ZERO | OF_OPAQUE))) goto undef; continue; }
    if (!c->inited(x)) { if (o->flags & OF_OPAQUE) continue; undef: { Expr* u = undefByte(s); o = ownObj(s, addr); Chunk* cc = o->wr(off + i); u32 y = (off + i) % CH; if (!cc->sym) cc->sym = (Expr**)calloc(cc->n, sizeof(Expr*)); cc->sym[y] = u; cc->setInit(y); bs[i] = u; sym = true; continue; } }
    if (c->sym && c->sym[x]) { bs[i] = c->sym[x]; sym = true; } else cv |= (u64)c->data[x] << (8 * i);
  }
  if (!sym) return V(cv & maskw(w));
  for (unsigned i = 0; i < nb; i++) { Expr* b = bs[i] ? bs[i] : K(cv >> (8 * i), 8); r = r ? mkConcat(b, r) : b; }
  if (r->w > w) r = mkExtract(r, 0, w);
  return VE(r);
}
static void writeRaw(State& s, u64 addr, u64 off, const SV& v, unsigned w) {
  Obj* o = ownObj(s, addr); unsigned nb = (w + 7) / 8; u32 co = off % CH;
  if (!v.e && co + nb <= CH) { Chunk* c = o->wr(off); u64 x = v.v & maskw(w); memcpy(c->data + co, &x, nb); c->setInitRange(co, nb); if (c->sym) for (unsigned i = 0; i < nb; i++) c->sym[co + i] = nullptr; return; }
  Expr* e = v.e; if (e && e->w < nb * 8) e = mkZext(e, nb * 8);
  for (unsigned i = 0; i < nb; i++) { Chunk* c = o->wr(off + i); u32 x = (off + i) % CH; c->setInit(x);
    Expr* b = e ? mkExtract(e, 8 * i, 8) : nullptr;
    if (b && b->op != CONST) { if (!c->sym) c->sym = (Expr**)calloc(c->n, sizeof(Expr*)); c->sym[x] = b; }
    else { c->data[x] = b ? (u8)b->val : (u8)(v.v >> (8 * i)); if (c->sym) c->sym[x] = nullptr; } }
}
static inline SV loadC(State& s, u64 addr, unsigned w) {
  Obj* o = findObj(s, addr); unsigned nb = (w + 7) / 8; u64 off = (addr & 0xffffffff) - OFF0;
  if (!o || (o->flags & OF_FREED) || off + nb > o->size || off > o->size) { std::string k = bad(s, addr, nb, false); memErr(s, k, addr, nb); }
  return readRaw(s, o, addr, off, w);
}
static inline void storeC(State& s, u64 addr, const SV& v, unsigned w) {
  Obj* o = findObj(s, addr); unsigned nb = (w + 7) / 8; u64 off = (addr & 0xffffffff) - OFF0;
  if (!o || (o->flags & (OF_FREED | OF_CONST)) || off + nb > o->size || off > o->size) { std::string k = bad(s, addr, nb, true); if (!k.empty()) memErr(s, k, addr, nb); }
  writeRaw(s, addr, off, v, w);
}
// Symbolic address: returns the feasible values (each valid), reporting invalid ones as errors. When too many, forks one off and returns just it.
static void resolve(State& s, Expr* a, u64 nb, bool write, bool allowMany, std::vector<u64>& out) {
  std::vector<u64> vals; std::vector<Model*> ms;
  int r = S.enumerate(s.pc, a, optEnum, vals, &ms);
  std::vector<u64> ok; Expr* notbad = K(1, 1);
  for (size_t i = 0; i < vals.size(); i++) {
    std::string k = bad(s, vals[i], nb, write);
    if (k.empty()) ok.push_back(vals[i]);
    else { Obj* o = findObj(s, vals[i]); char b[200]; snprintf(b, sizeof b, "%s of %llu bytes at offset %lld of object size %llu", k.c_str(), (unsigned long long)nb, o ? (long long)((vals[i] & 0xffffffff) - OFF0) : (long long)vals[i], o ? (unsigned long long)o->size : 0ull);
      error(s, "memory", b, ms[i]); notbad = mk(AND, notbad, mkNot(mkEq(a, K(vals[i], 64)))); }
  }
  if (r < 0) __sync_add_and_fetch(&sh->qunk, 1);
  if (!isK(notbad)) {
    if (ok.empty() && r == 1) { for (auto m : ms) delete m; throw PathEnd{E_ERR}; }
    Model* m = new Model; m->rc = 0; int q = S.check(s.pc, notbad, m);
    if (q != 1) { delete m; for (auto x : ms) delete x; throw PathEnd{E_ERR}; }
    s.setModel(m); addC(s, notbad);
  }
  if (r == 1 && allowMany) { for (auto m : ms) delete m; out = ok; return; }
  // fork one value per state
  for (size_t i = 0, k = 0; i < vals.size(); i++) {
    if (std::find(ok.begin(), ok.end(), vals[i]) == ok.end()) { delete ms[i]; continue; }
    Expr* eq = mkEq(a, K(vals[i], 64));
    if (k++ == 0) { // continue here; postpone adding constraint until others are forked
      out.push_back(vals[i]); if (ms[i]->rc == 0) { } continue; }
    State* n = forkState(s); n->setModel(ms[i]); addC(*n, eq); n->known[a] = vals[i]; work.push_back(n);
  }
  if (r != 1) { // remaining values, unexplored so far
    Expr* rest = K(1, 1); for (u64 v : vals) rest = mk(AND, rest, mkNot(mkEq(a, K(v, 64))));
    Model* m = new Model; m->rc = 0; if (S.check(s.pc, rest, m) == 1) { State* n = forkState(s); n->setModel(m); addC(*n, rest); work.push_back(n); } else delete m;
  }
  if (out.empty()) throw PathEnd{E_ERR};
  for (size_t i = 0; i < vals.size(); i++) if (vals[i] == out[0]) { s.setModel(ms[i]); }
  addC(s, mkEq(a, K(out[0], 64))); s.known[a] = out[0];
}
static SV loadV(State& s, const SV& addr, unsigned w) {
  if (!addr.e) return loadC(s, addr.v, w);
  Expr* a = simp(s, addr.e); if (isK(a)) return loadC(s, a->val, w);
  auto it = s.known.find(a); if (it != s.known.end()) return loadC(s, it->second, w);
  std::vector<u64> c; resolve(s, a, (w + 7) / 8, false, optIteLoads && w < 64, c);
  if (c.size() == 1) return loadC(s, c[0], w);
  std::sort(c.begin(), c.end());
  Expr* r = nullptr; for (size_t i = c.size(); i-- > 0;) { Expr* x = toE(loadC(s, c[i], w), w); r = r ? mkIte(mkEq(a, K(c[i], 64)), x, r) : x; }
  return VE(r);
}
static void storeV(State& s, const SV& addr, const SV& v, unsigned w) {
  if (!addr.e) return storeC(s, addr.v, v, w);
  Expr* a = simp(s, addr.e); if (isK(a)) return storeC(s, a->val, v, w);
  auto it = s.known.find(a); if (it != s.known.end()) return storeC(s, it->second, v, w);
  std::vector<u64> c; resolve(s, a, (w + 7) / 8, true, optIteStores && w < 64, c);
  if (c.size() == 1) return storeC(s, c[0], v, w);
  for (u64 x : c) { SV old = loadC(s, x, w); storeC(s, x, VE(mkIte(mkEq(a, K(x, 64)), toE(v, w), toE(old, w))), w); }
}
static void copyMem(State& s, u64 dst, u64 src, u64 n) {
  if (!n) return;
  std::string k = bad(s, src, n, false); if (!k.empty()) memErr(s, k, src, n);
  k = bad(s, dst, n, true); if (!k.empty()) memErr(s, k, dst, n);
  Obj* so = findObj(s, src); u64 soff = (src & 0xffffffff) - OFF0, doff = (dst & 0xffffffff) - OFF0;
  // snapshot source (handles overlap)
  std::vector<u8> data(n), in(n); std::vector<Expr*> sy; bool anysym = false;
  for (u64 i = 0; i < n;) { const Chunk* c = so->rd(soff + i); u32 x = (soff + i) % CH; u64 seg = std::min<u64>(CH - x, n - i);
    if (!c) { memset(&data[i], 0, seg); memset(&in[i], so->flags & (OF_ZERO | OF_OPAQUE) ? 1 : 0, seg); }
    else { memcpy(&data[i], c->data + x, seg); for (u64 j = 0; j < seg; j++) in[i + j] = c->inited(x + j); if (c->sym) { if (!anysym) { sy.assign(n, nullptr); anysym = true; } for (u64 j = 0; j < seg; j++) sy[i + j] = c->sym[x + j]; } }
    i += seg; }
  Obj* d = ownObj(s, dst);
  for (u64 i = 0; i < n;) { u32 x = (doff + i) % CH; u64 seg = std::min<u64>(CH - x, n - i); Chunk* c = d->wr(doff + i);
    memcpy(c->data + x, &data[i], seg);
    for (u64 j = 0; j < seg; j++) { if (in[i + j]) c->setInit(x + j); else c->clrInit(x + j); Expr* e = anysym && in[i + j] ? sy[i + j] : nullptr;
      if (e) { if (!c->sym) c->sym = (Expr**)calloc(c->n, sizeof(Expr*)); c->sym[x + j] = e; } else if (c->sym) c->sym[x + j] = nullptr; }
    i += seg; }
}
static void setMem(State& s, u64 dst, const SV& v, u64 n) {
  if (!n) return;
  std::string k = bad(s, dst, n, true); if (!k.empty()) memErr(s, k, dst, n);
  u64 off = (dst & 0xffffffff) - OFF0; Obj* d = ownObj(s, dst);
  if (!v.e) { for (u64 i = 0; i < n;) { u32 x = (off + i) % CH; u64 seg = std::min<u64>(CH - x, n - i); Chunk* c = d->wr(off + i); memset(c->data + x, (int)v.v, seg); for (u64 j = 0; j < seg; j++) { c->setInit(x + j); if (c->sym) c->sym[x + j] = nullptr; } i += seg; } return; }
  for (u64 i = 0; i < n; i++) storeC(s, dst + i, v, 8);
}
static std::string readStr(State& s, u64 a) { std::string r; for (int i = 0; i < 4096; i++) { SV v = loadC(s, a + i, 8); u64 c = concretize(s, v, 8); if (!c) break; r += (char)c; } return r; }
#include "interp.inc"
