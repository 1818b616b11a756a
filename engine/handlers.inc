// External functions: harness API, allocation, exceptions, library stubs.
static std::map<std::string, std::string> params;   // --param=NAME=VALUE
#define HND [](State& s, Ins& in, std::vector<SV>& a, SV& ret) -> bool
static u32 reachIdx(const std::string& n) {
  for (size_t i = 0; i < 256; i++) { if (!sh->rname[i][0]) { // claim a slot
      while (__sync_lock_test_and_set(&sh->rlock, 1)) {} if (!sh->rname[i][0]) strncpy((char*)sh->rname[i], n.c_str(), 47); __sync_lock_release(&sh->rlock); }
    if (!strncmp((char*)sh->rname[i], n.c_str(), 47)) return i; }
  return 255;
}
static const std::string* internStr(const std::string& n) { static std::set<std::string> t; return &*t.insert(n).first; }
static void freeObj(State& s, u64 p, const char* what) {
  if (!p) return;
  Obj* o = findObj(s, p);
  if (!o) { error(s, "memory", std::string("invalid pointer passed to ") + what); throw PathEnd{E_ERR}; }
  if (o->flags & OF_FREED) { error(s, "memory", std::string("double free in ") + what); throw PathEnd{E_ERR}; }
  if (!(o->flags & OF_HEAP) || (p & 0xffffffff) != OFF0) { error(s, "memory", std::string("bad pointer passed to ") + what); throw PathEnd{E_ERR}; }
  Obj* n = Obj::make(0, OF_FREED | OF_HEAP); n->site = o->site; s.heap.set(idOf(p), n);
}
static u64 allocOrUnsup(State& s, u64 n, u32 fl) { u64 p = allocHeap(s, n, fl | OF_HEAP); if (!p) unsup(s, "huge allocation"); return p; }
static bool checkCond(State& s, const SV& c, const std::string& kind, const std::string& msg) {
  lObl++;
  Expr* e = toE(c, 1); if (c.e) { e = c.e; if (e->w != 1) e = mkNot(mkEq(e, K(0, e->w))); e = simp(s, e); } else e = K(c.v != 0, 1);
  if (isK(e, 1)) return true;
  if (isK(e, 0)) { error(s, kind, msg); throw PathEnd{E_ERR}; }
  Model* m = new Model; m->rc = 0;
  int r;
  if (!evalE(e, *s.model)) { // the current model already violates
    error(s, kind, msg);
  } else { r = S.check(s.pc, mkNot(e), m); if (r == 0) { delete m; return true; } if (r < 0) { delete m; __sync_add_and_fetch(&sh->qunk, 1); return true; } m->rc = 1; error(s, kind, msg, m); delete m; m = new Model; m->rc = 0; }
  r = S.check(s.pc, e, m);
  if (r != 1) { delete m; throw PathEnd{E_ERR}; }
  s.setModel(m); addC(s, e);
  return false;
}
static bool derivesOff(u64 t, u64 base, i64& off, int d = 0) {
  if (t == base) { off = 0; return true; } if (d > 16) return false;
  auto it = globName.find(t); if (it == globName.end()) return false;
  auto* g = M->getNamedGlobal(it->second); if (!g || !g->hasInitializer()) return derives(t, base) ? (off = 0, true) : false;
  auto* st = dyn_cast<ConstantStruct>(g->getInitializer()); if (!st) return false;
  unsigned n = st->getNumOperands();
  if (n == 3) { i64 o; if (derivesOff(constU64(st->getOperand(2)), base, o, d + 1)) { off = o; return true; } return false; }
  for (unsigned i = 4; i + 1 < n; i += 2) { i64 o; if (derivesOff(constU64(st->getOperand(i)), base, o, d + 1)) { off = o + ((i64)constU64(st->getOperand(i + 1)) >> 8); return true; } }
  return false;
}
static bool isCout(const SV& p);
static std::string fmtStr(State& s, const std::string& f, std::vector<SV>& a, size_t k) {
  std::string o; for (size_t i = 0; i < f.size(); i++) { if (f[i] != '%') { o += f[i]; continue; } if (f[i + 1] == '%') { o += '%'; i++; continue; }
    std::string sp = "%"; i++; while (i < f.size() && strchr("0123456789.-+ #lhzjt", f[i])) sp += f[i++]; char c = f[i]; if (k >= a.size()) break; u64 v = c == 's' ? a[k].v : concretize(s, a[k], 64); k++; char b[512]; bool l = sp.find('l') != std::string::npos || sp.find('z') != std::string::npos; sp += c;
    if (c == 's') { std::string q = readStr(s, v); snprintf(b, sizeof b, sp.c_str(), q.c_str()); } else if (strchr("eEfFgG", c)) snprintf(b, sizeof b, sp.c_str(), bitsD(v)); else if (c == 'p' || l) snprintf(b, sizeof b, sp.c_str(), v); else snprintf(b, sizeof b, sp.c_str(), (int)v);
    o += b; }
  return o; }
static void putStr(State& s, u64 d, const std::string& o) { for (size_t i = 0; i <= o.size(); i++) storeC(s, d + i, V(i < o.size() ? (u8)o[i] : 0), 8); }
static const std::unordered_map<std::string, Handler>& handlerMap() {
  static std::unordered_map<std::string, Handler> m;
  if (!m.empty()) return m;
  // ---- harness API
  m["sym_val"] = HND { std::string n = readStr(s, a[0].v); unsigned w = a[1].v; char b[32]; snprintf(b, 32, "%u:", (u32)s.usyms.size()); std::string k = b + n + ":" + std::to_string(w); auto& e = symCache[k]; if (!e) e = mkSym(n, w); s.usyms.push_back(e); ret = VE(mkZext(e, 64)); return true; };
  m["sym_param"] = HND { std::string n = readStr(s, a[0].v); auto it = params.find(n); if (it == params.end()) { ret = a[1]; return true; } u64 p = allocOrUnsup(s, it->second.size() + 1, 0); putStr(s, p, it->second); ret = V(p); return true; };
  m["sym_assume"] = HND {
    Expr* e = a[0].e ? simp(s, a[0].e) : K(a[0].v != 0, 1); if (e->w != 1) e = mkNot(mkEq(e, K(0, e->w)));
    if (isK(e, 1)) return true; if (isK(e, 0)) throw PathEnd{E_ASSUME};
    if (evalE(e, *s.model)) { addC(s, e); return true; }
    Model* md = new Model; md->rc = 0; int r = S.check(s.pc, e, md); if (r != 1) { delete md; if (r < 0) __sync_add_and_fetch(&sh->qunk, 1); throw PathEnd{E_ASSUME}; }
    s.setModel(md); addC(s, e); return true; };
  m["sym_check"] = HND { checkCond(s, a[0], "check", readStr(s, a[1].v)); return true; };
  m["sym_fail"] = HND { error(s, "check", readStr(s, a[0].v)); throw PathEnd{E_ERR}; };
  m["sym_reach"] = HND { u32 i = reachIdx(readStr(s, a[0].v)); s.reached.push_back(i); return true; };
  m["sym_observe"] = HND { s.obs.push_back({internStr(readStr(s, a[0].v)), a[1]}); return true; };
  m["sym_concretize"] = HND { ret = V(concretize(s, a[0], 64)); return true; };
  m["sym_end"] = HND { throw PathEnd{E_OK}; };
  m["sym_native"] = HND { ret = V(0); return true; };
  m["sym_is_symbolic"] = HND { ret = V(a[0].e && !isK(simp(s, a[0].e))); return true; };
  m["sym_unreachable"] = HND { error(s, "unreachable", "undefined behaviour: control reached a point the compiler treats as unreachable (missing return)"); throw PathEnd{E_ERR}; };
  m["sym_dump"] = HND { fprintf(stderr, "dump %s = %s\n", readStr(s, a[0].v).c_str(), a[1].e ? exprStr(a[1].e, 8).c_str() : std::to_string(a[1].v).c_str()); return true; };
  // ---- allocation
  Handler hNew = HND { u64 n = concretize(s, a[0], 64); ret = V(allocOrUnsup(s, n, 0)); return true; };
  for (auto n : {"_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "malloc"}) m[n] = hNew;
  Handler hDel = HND { freeObj(s, concretize(s, a[0], 64), in.callee ? in.callee->name.c_str() : "delete"); return true; };
  for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "free"}) m[n] = hDel;
  m["calloc"] = HND { u64 n = concretize(s, a[0], 64), k = concretize(s, a[1], 64); ret = V(allocOrUnsup(s, n * k, OF_ZERO)); return true; };
  m["aligned_alloc"] = HND { ret = V(allocOrUnsup(s, concretize(s, a[1], 64), 0)); return true; };
  m["posix_memalign"] = HND { u64 p = allocOrUnsup(s, concretize(s, a[2], 64), 0); storeC(s, concretize(s, a[0], 64), V(p), 64); return true; };
  m["realloc"] = HND { u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64); u64 q = allocOrUnsup(s, n, 0); if (p) { Obj* o = findObj(s, p); if (!o || (o->flags & OF_FREED) || (p & 0xffffffff) != OFF0) { error(s, "memory", "bad pointer passed to realloc"); throw PathEnd{E_ERR}; } copyMem(s, q, p, std::min<u64>(n, o->size)); freeObj(s, p, "realloc"); } ret = V(q); return true; };
  // ---- exceptions
  m["__cxa_allocate_exception"] = HND { ret = V(allocOrUnsup(s, a[0].v, OF_ZERO)); return true; };
  m["__cxa_free_exception"] = HND { return true; };
  m["__cxa_throw"] = HND { s.exc.push_back({a[0].v, a[1].v}); unwind(s, a[0].v, a[1].v); return false; };
  m["__cxa_begin_catch"] = HND { u64 t = 0; for (auto& e : s.exc) if (e.obj == a[0].v) t = e.type; s.caught.push_back({a[0].v, t}); ret = a[0]; return true; };
  m["__cxa_get_exception_ptr"] = HND { ret = a[0]; return true; };
  m["__cxa_end_catch"] = HND { if (!s.caught.empty()) s.caught.pop_back(); return true; };
  m["__cxa_rethrow"] = HND { if (s.caught.empty()) { error(s, "terminate", "rethrow without exception"); throw PathEnd{E_ERR}; } Exc e = s.caught.back(); unwind(s, e.obj, e.type); return false; };
  m["__cxa_pure_virtual"] = HND { error(s, "terminate", "pure virtual method called"); throw PathEnd{E_ERR}; };
  m["_ZSt9terminatev"] = HND { error(s, "terminate", "std::terminate called"); throw PathEnd{E_ERR}; };
  m["__clang_call_terminate"] = m["_ZSt9terminatev"];
  m["_ZSt18uncaught_exceptionv"] = HND { ret = V(0); return true; };
  m["__cxa_guard_acquire"] = HND { SV v = loadC(s, a[0].v, 8); ret = V(v.v == 0); return true; };
  m["__cxa_guard_release"] = HND { storeC(s, a[0].v, V(1), 8); return true; };
  m["__cxa_guard_abort"] = HND { return true; };
  m["__cxa_atexit"] = HND { return true; };
  m["__cxa_thread_atexit"] = HND { return true; };
  m["__dynamic_cast"] = HND { u64 p = concretize(s, a[0], 64); u64 vp = loadC(s, p, 64).v; i64 top = (i64)loadC(s, vp - 16, 64).v; u64 ti = loadC(s, vp - 8, 64).v; i64 off; ret = derivesOff(ti, a[2].v, off) ? V(p + top + off) : V(0); return true; };
  for (auto n : {"abort", "_ZSt13__glibcxx_failPKciS0_S0_"}) m[n] = HND { error(s, "abort", "abort() called"); throw PathEnd{E_ERR}; };
  m["__assert_fail"] = HND { error(s, "assert", "assertion failed: " + readStr(s, a[0].v)); throw PathEnd{E_ERR}; };
  for (auto n : {"exit", "_exit", "_Exit", "quick_exit"}) m[n] = HND { if (Function* hf = M->getFunction("h_exit")) if (!hf->isDeclaration()) { pushCall(s, getFn(hf), {a[0]}, in); return false; } error(s, "exit", "process exit(" + std::to_string((int)a[0].v) + ") called"); throw PathEnd{E_ERR}; };
  // ---- std exceptions with opaque layout
  for (auto n : {"runtime_error", "logic_error", "out_of_range", "length_error", "invalid_argument", "domain_error", "range_error", "overflow_error", "underflow_error", "exception", "bad_alloc"}) {
    std::string l = std::to_string(strlen(n)); std::string p = "_ZNSt" + l + n;
    for (auto c : {"C1", "C2"}) for (auto sfx : {"EPKc", "ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "ERKS_", "EOS_", "Ev"}) m[p + c + sfx] = HND { std::string c2 = in.callee ? in.callee->name : ""; // vtable
        size_t q = 5; size_t len = 0; while (q < c2.size() && isdigit(c2[q])) len = len * 10 + (c2[q++] - '0'); std::string tv = "_ZTVSt" + std::to_string(len) + c2.substr(q, len); u64 vt = 0; if (auto* g = M->getNamedGlobal(tv)) vt = globalAddr(g) + 16; storeC(s, concretize(s, a[0], 64), V(vt), 64); return true; };
    for (auto c : {"D1Ev", "D2Ev", "D0Ev"}) m[p + c] = HND { return true; };
    m["_ZNKSt" + l + n + "4whatEv"] = HND { u64 p = allocHeap(s, 4, OF_ZERO); ret = V(p); return true; };
  }
  // ---- libstdc++ internals called natively
  m["_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm"] = HND { std::__detail::_Prime_rehash_policy p(bitsF(loadC(s, a[0].v, 32).v)); p._M_next_resize = loadC(s, a[0].v + 8, 64).v; u64 r = p._M_next_bkt(concretize(s, a[1], 64)); storeC(s, a[0].v + 8, V(p._M_next_resize), 64); ret = V(r); return true; };
  m["_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm"] = HND { std::__detail::_Prime_rehash_policy p(bitsF(loadC(s, a[0].v, 32).v)); p._M_next_resize = loadC(s, a[0].v + 8, 64).v; auto r = p._M_need_rehash(concretize(s, a[1], 64), concretize(s, a[2], 64), concretize(s, a[3], 64)); storeC(s, a[0].v + 8, V(p._M_next_resize), 64); SV rv[2] = {V(r.first), V(r.second)}; finishCall(s, in, rv, 2); return false; };
  m["sprintf"] = HND { std::string o = fmtStr(s, readStr(s, a[1].v), a, 2); putStr(s, a[0].v, o); ret = V(o.size()); return true; };
  m["snprintf"] = HND { std::string o = fmtStr(s, readStr(s, a[2].v), a, 3); u64 n = concretize(s, a[1], 64); ret = V(o.size()); if (n) putStr(s, a[0].v, o.substr(0, n - 1)); return true; };
  // ---- file streams: contents are delivered to the harness through h_stream_int / h_stream_str
  const std::string OFS = "St14basic_ofstreamIcSt11char_traitsIcEE";
  for (auto c : {"C1Ev", "C2Ev"}) m["_ZN" + OFS + c] = HND { storeC(s, a[0].v + 8, V(0), 8); return true; };
  for (auto c : {"D1Ev", "D2Ev", "D0Ev"}) m["_ZN" + OFS + c] = HND { return true; };
  m["_ZN" + OFS + "4openEPKcSt13_Ios_Openmode"] = HND { storeC(s, a[0].v + 8, V(!readStr(s, a[1].v).empty()), 8); return true; };
  m["_ZN" + OFS + "5closeEv"] = HND { storeC(s, a[0].v + 8, V(0), 8); return true; };
  m["_ZNK" + OFS + "7is_openEv"] = HND { ret = V(loadC(s, a[0].v + 8, 8).v); return true; };
  m["_ZN" + OFS + "7is_openEv"] = m["_ZNK" + OFS + "7is_openEv"];
  // ---- math
#define M1(nm, f) m[nm] = HND { ret = V(dBits(f(bitsD(concretize(s, a[0], 64))))); return true; };
  M1("log", log) M1("exp", exp) M1("sqrt", sqrt) M1("floor", floor) M1("ceil", ceil) M1("log2", log2) M1("log10", log10) M1("round", round) M1("fabs", fabs) M1("exp2", exp2) M1("log1p", log1p)
#define M2(nm, f) m[nm] = HND { ret = V(dBits(f(bitsD(concretize(s, a[0], 64)), bitsD(concretize(s, a[1], 64))))); return true; };
  M2("pow", pow) M2("fmod", fmod)
  m["sym_strtod_n"] = HND { std::string t = readStr(s, a[0].v); char* e; double r = strtod(t.c_str(), &e); storeC(s, a[1].v, V(e - t.c_str()), 64); ret = V(dBits(r)); return true; };
  m["powf"] = HND { ret = V(fBits(powf(bitsF(concretize(s, a[0], 32)), bitsF(concretize(s, a[1], 32))))); return true; };
  m["logf"] = HND { ret = V(fBits(logf(bitsF(concretize(s, a[0], 32))))); return true; };
  m["sqrtf"] = HND { ret = V(fBits(sqrtf(bitsF(concretize(s, a[0], 32))))); return true; };
  m["frexp"] = HND { int e; double r = frexp(bitsD(concretize(s, a[0], 64)), &e); storeC(s, a[1].v, V((u32)e), 32); ret = V(dBits(r)); return true; };
  m["ldexp"] = HND { ret = V(dBits(ldexp(bitsD(concretize(s, a[0], 64)), (int)concretize(s, a[1], 32)))); return true; };
  // ---- no-ops
  for (auto n : {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "fflush", "fwrite", "putc", "perror", "signal", "setrlimit", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_broadcast", "pthread_cond_signal", "sched_yield", "__gthread_active_p", "alarm", "setitimer", "sigaction", "srand", "srandom", "setvbuf", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "time", "clock", "vprintf", "vfprintf"}) m[n] = HND { ret = V(0); return true; };
  for (auto n : {"fprintf", "fputs", "fputc", "putc", "fwrite"}) m[n] = HND { // text written to stdout goes to h_printf, other files are ignored
    std::string nm = in.callee ? in.callee->name : ""; size_t fi = nm == "fprintf" ? 0 : nm == "fwrite" ? 3 : 1; ret = nm == "fwrite" ? a[2] : V(0);
    auto* g = M->getNamedGlobal("stdout"); Fn* h = nullptr; { Function* f = M->getFunction("h_printf"); if (f && !f->isDeclaration()) h = getFn(f); }
    if (!g || !h || concretize(s, a[fi], 64) != loadC(s, globalAddr(g), 64).v) return true;
    std::string t; if (nm == "fprintf") t = fmtStr(s, readStr(s, concretize(s, a[1], 64)), a, 2); else if (nm == "fputs") t = readStr(s, concretize(s, a[0], 64)); else if (nm == "fwrite") { u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64) * concretize(s, a[2], 64); for (u64 k = 0; k < n; k++) t.push_back((char)concretize(s, loadC(s, p + k, 8), 8)); } else t = std::string(1, (char)concretize(s, a[0], 32));
    u64 p = allocHeap(s, t.size() + 1, OF_ZERO); putStr(s, p, t); pushCall(s, h, {V(p)}, in); return false; };
  // redirection of std::cout (to anything) makes it no longer the program's output
  m["_ZNSt9basic_iosIcSt11char_traitsIcEE5rdbufEPSt15basic_streambufIcS1_E"] = HND { SV c = V(a[0].v - 8); if (isCout(c)) storeC(s, c.v + 128, V(1), 8); ret = V(0); return true; };
  for (auto n : {"printf", "puts", "putchar"}) m[n] = HND { Fn* h = nullptr; { Function* f = M->getFunction("h_printf"); if (f && !f->isDeclaration()) h = getFn(f); } if (!h) { ret = V(0); return true; } std::string t, nm = in.callee ? in.callee->name : ""; 
    if (nm == "putchar") t = std::string(1, (char)concretize(s, a[0], 32)); else { std::string q = readStr(s, concretize(s, a[0], 64)); t = nm == "puts" ? q + "\n" : fmtStr(s, q, a, 1); }
    u64 p = allocHeap(s, t.size() + 1, OF_ZERO); putStr(s, p, t); pushCall(s, h, {V(p)}, in); return false; };
  m["gettimeofday"] = HND { storeC(s, a[0].v, V(1000), 64); storeC(s, a[0].v + 8, V(0), 64); ret = V(0); return true; };
  m["clock"] = HND { ret = V(1000); return true; };
  m["getrusage"] = HND { setMem(s, a[1].v, V(0), 144); ret = V(0); return true; };
  m["getrlimit"] = HND { setMem(s, a[1].v, V(0xff), 16); ret = V(0); return true; };
  m["clock_gettime"] = HND { setMem(s, a[1].v, V(0), 16); ret = V(0); return true; };
  m["_ZNSt6chrono3_V212system_clock3nowEv"] = HND { ret = V(0); return true; };
  m["_ZNSt6chrono3_V212steady_clock3nowEv"] = m["_ZNSt6chrono3_V212system_clock3nowEv"];
  m["getenv"] = HND { ret = V(0); return true; };
  m["getpid"] = HND { ret = V(4242); return true; };
  m["pthread_self"] = HND { ret = V(1); return true; };
  return m;
}
// stream output is not part of any property: inserters return the stream unchanged
static bool isStreamStub(const std::string& n) {
  static const char* pre[] = {"_ZNSo", "_ZStlsISt11char_traits", "_ZStlsIcSt11char_traits", "_ZSt4endl", "_ZSt5flush", "_ZSt16__ostream_insert", "_ZSt4ends", "_ZStlsISt8_Setfill", "_ZStlsI", "_ZNSt13basic_ostream"};
  for (auto p : pre) if (!n.compare(0, strlen(p), p)) return true;
  return false;
}
static bool isStubbed(const std::string& n) { if (!n.compare(0, 4, "sym_")) return false; if (n.find("St14basic_ofstreamIc") != std::string::npos && (!n.compare(0, 6, "_ZNSt1") || !n.compare(0, 7, "_ZNKSt1"))) return true; return isStreamStub(n); }
static Fn* hookFn(const char* n) { Function* f = M->getFunction(n); return f && !f->isDeclaration() ? getFn(f) : nullptr; }
static bool fileStream(State& s, const SV& p) { Obj* o = p.e ? nullptr : findObj(s, p.v); return o && !(o->flags & OF_GLOBAL); }
static bool isCout(const SV& p) { static u64 c = [] { auto* g = M->getNamedGlobal("_ZSt4cout"); if (!g) return (u64)0; for (auto& k : globName) if (k.second == "_ZSt4cout") return k.first; return (u64)0; }(); return c && !p.e && p.v == c; }
static Fn* streamHook(State& s, const SV& p, const char* kind) { if (fileStream(s, p)) return hookFn((std::string("h_stream_") + kind).c_str()); return isCout(p) && !loadC(s, p.v + 128, 8).v ? hookFn((std::string("h_cout_") + kind).c_str()) : nullptr; }
static Handler findHandler(const std::string& n) {
  auto& m = handlerMap(); auto it = m.find(n); if (it != m.end()) return it->second;
  bool isInt = !n.compare(0, 8, "_ZNSolsE") && n.size() == 9 && strchr("ijlmxyst", n[8]);
  if (isInt) return HND { if (Fn* h = streamHook(s, a[0], "int")) { std::vector<SV> b{a[0], a[1]}; if (a[1].e) b[1] = VE(mkSext(a[1].e->w > 32 ? mkExtract(a[1].e, 0, 32) : a[1].e, 32)); pushCall(s, h, b, in); return false; } ret = a[0]; return true; };
  if (!n.compare(0, 22, "_ZStlsISt11char_traits") && n.find("PKc") != std::string::npos) return HND { if (Fn* h = streamHook(s, a[0], "str")) { pushCall(s, h, a, in); return false; } ret = a[0]; return true; };
  if (n == "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c" || n == "_ZNSo3putEc") return HND { if (Fn* h = streamHook(s, a[0], "char")) { pushCall(s, h, {a[0], a[1]}, in); return false; } ret = a[0]; return true; };
  if (!n.compare(0, 9, "_ZSt4endl") || n == "_ZNSolsEPFRSoS_E") return HND { if (Fn* h = streamHook(s, a[0], "char")) { pushCall(s, h, {a[0], V(10)}, in); return false; } ret = a[0]; return true; };
  if (!n.compare(0, 20, "_ZSt16__ostream_inser") || !n.compare(0, 12, "_ZNSo5writeE")) return HND { if (Fn* h = streamHook(s, a[0], "buf")) { pushCall(s, h, a, in); return false; } ret = a[0]; return true; };
  if (isStreamStub(n)) return HND { ret = a.empty() ? V(0) : a[0]; return true; };
  return nullptr;
}
