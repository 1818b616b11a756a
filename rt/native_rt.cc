// Native replay of a symbolic path: values come from the file named by SYM_REPLAY, one
// "name bits value" triple per line. Exit status: 0 finished, 77 assumption failed,
// 78 valuation does not fit, 101 property assertion failed.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <string>
#include <unistd.h>
#include <vector>
extern "C" int harness();
struct Rec { std::string n; unsigned w; uint64_t v; };
static std::vector<Rec>* recs; static size_t pos; static FILE* obs;
static void fin(int c) { if (obs) fflush(obs); fflush(stdout); _exit(c); }
extern "C" {
uint64_t sym_val(const char* name, unsigned bits) {
  if (pos >= recs->size()) { fprintf(stderr, "REPLAY: values exhausted at %s\n", name); fin(78); }
  Rec& r = (*recs)[pos++]; if (r.n != name || r.w != bits) { fprintf(stderr, "REPLAY: expected %s:%u, have %s:%u\n", name, bits, r.n.c_str(), r.w); fin(78); }
  return r.v; }
void sym_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY: assumption failed\n"); fin(77); } }
void sym_check(bool c, const char* msg) { if (!c) { fprintf(stderr, "REPLAY: CHECK FAILED: %s\n", msg); fin(101); } }
void sym_fail(const char* msg) { fprintf(stderr, "REPLAY: CHECK FAILED: %s\n", msg); fin(101); abort(); }
void sym_reach(const char*) {}
void sym_observe(const char* l, uint64_t v) { if (obs) fprintf(obs, "%s %llu\n", l, (unsigned long long)v); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_end() { fin(0); abort(); }
int sym_native() { return 1; }
const char* sym_param(const char* n, const char* d) { const char* v = getenv((std::string("SYM_PARAM_") + n).c_str()); return v ? strdup(v) : d; }
void sym_file(const char* p, const char* d, unsigned long n) { FILE* f = fopen(p, "wb"); if (!f || fwrite(d, 1, n, f) != n) { fprintf(stderr, "REPLAY: cannot write %s\n", p); fin(78); } fclose(f); }
void sym_dump(const char* l, uint64_t v) { fprintf(stderr, "dump %s = %llu\n", l, (unsigned long long)v); }
}
int main() {
  recs = new std::vector<Rec>; const char* f = getenv("SYM_REPLAY"); FILE* fp = f ? fopen(f, "r") : nullptr; if (!fp) { fprintf(stderr, "no SYM_REPLAY\n"); return 78; }
  char n[256]; unsigned w; unsigned long long v; while (fscanf(fp, "%255s %u %llu", n, &w, &v) == 3) recs->push_back({n, w, v}); fclose(fp);
  if (const char* o = getenv("SYM_OBS")) obs = fopen(o, "w");
  try { harness(); } catch (std::exception& e) { fprintf(stderr, "REPLAY: uncaught exception: %s\n", e.what()); fin(102); } catch (...) { fprintf(stderr, "REPLAY: uncaught exception\n"); fin(102); }
  fin(0);
}
