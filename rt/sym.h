// Harness API. Under the symbolic executor these calls are intercepted; in the native
// replay build (native_rt.cc) they read a recorded valuation and evaluate the assertions.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sym_val(const char* name, unsigned bits);      // fresh symbolic value of 1..64 bits
void sym_assume(bool c);                                // restricts the inputs considered
void sym_check(bool c, const char* msg);                // the property: must hold for every value
void sym_fail(const char* msg) __attribute__((noreturn));
void sym_reach(const char* label);                      // coverage marker (vacuity control)
void sym_observe(const char* label, uint64_t v);        // compared between symbolic and native run
uint64_t sym_concretize(uint64_t v);                    // fork over the values of v
void sym_end() __attribute__((noreturn));               // ends the path (not an error)
int sym_native();
const char* sym_param(const char* name, const char* dflt);  // configuration given on the command line
// makes a file with this content available to the code under test (gzopen/gzread); natively it is written to disk
void sym_file(const char* path, const char* data, unsigned long len);
void sym_dump(const char* label, uint64_t v);
}
static inline bool sym_bool(const char* n) { return sym_val(n, 1) != 0; }
// value in [lo, hi]
static inline unsigned sym_range(const char* n, unsigned lo, unsigned hi) {
  unsigned span = hi - lo; unsigned bits = 1; while ((1u << bits) <= span) bits++;
  uint64_t v = sym_val(n, bits); if (((1u << bits) - 1) != span) sym_assume(v <= span); return lo + (unsigned)v; }
static inline unsigned sym_pick(const char* n, unsigned lo, unsigned hi) { return (unsigned)sym_concretize(sym_range(n, lo, hi)); }
static inline int sym_iparam(const char* n, int d) { const char* s = sym_param(n, nullptr); if (!s) return d; int neg = *s == '-'; if (neg) s++; int v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); return neg ? -v : v; }
