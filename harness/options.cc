// Command line: every option string either sets exactly its option to the value written, or is
// reported (exit), or stays in argv; compared with a reference parser.
#include "sym.h"
#include "candy/utils/Options.h"
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <vector>
using namespace Candy;
static IntOption oi("T", "tint", "", 5, IntRange(-3, 120));
static IntOption ou("T", "tfull", "", 9);
static Int64Option ol("T", "tlong", "", 7, Int64Range(0, 5000000000ll));
static DoubleOption od("T", "tdbl", "", 0.5, DoubleRange(0, false, 4, true));
static BoolOption ob("T", "tb", "", false), oc("T", "tbc", "", true);
static StringOption os("T", "tstr", "", "def");
static bool exit_ok, expect_exit, ended;
static void onExit() {
  sym_observe("exit", 1); ended = true; sym_check(expect_exit, "the process exits only for unknown flags and values that are malformed or out of range"); sym_reach("REJECTED"); sym_end(); }
extern "C" void h_exit(int) { onExit(); }
static bool pre(const char* s, const char* p, const char*& rest) { size_t i = 0; for (; p[i]; i++) if (s[i] != p[i]) return false; rest = s + i; return true; }
static bool num(const char* t, long& v) { bool neg = false; while (*t == ' ') t++; if (*t == '-') { neg = true; t++; } else if (*t == '+') t++; if (!*t) return false; v = 0; for (; *t; t++) { if (*t < '0' || *t > '9') return false; v = v * 10 + (*t - '0'); if (v > 99999999999999999l) v = 99999999999999999l; } if (neg) v = -v; return true; }
extern "C" int harness() {
  const char* A = sym_param("ALPH", "-0129 a="); unsigned na = strlen(A);
  std::vector<char*> argv; argv.push_back((char*)"candy"); std::vector<char> cur; unsigned nsym = 0;
  // arguments separated by blanks; `o` a symbolic character
  for (const char* t = sym_param("ARGS", ""); ; t++) {
    if (*t == ' ' || !*t) { char* s = (char*)malloc(cur.size() + 1); for (size_t i = 0; i < cur.size(); i++) s[i] = cur[i]; s[cur.size()] = 0; argv.push_back(s); cur.clear(); if (!*t) break; continue; }
    if (*t == '@') { char c = (char)sym_val("c", 8); bool ok = false; for (unsigned j = 0; j < na; j++) ok |= c == A[j]; sym_assume(ok); cur.push_back(c); }
    else cur.push_back(*t); }
  const unsigned rep = sym_iparam("LONG", 0);   // a string value of rep characters
  if (rep) { unsigned n = rep + sym_pick("len", 0, sym_iparam("LONGSYM", 0)); char* s = (char*)malloc(n + 8); strcpy(s, "-tstr="); for (unsigned i = 0; i < n; i++) s[6 + i] = 'x'; s[6 + n] = 0; argv.push_back(s); }
  const bool strict = sym_iparam("STRICT", 1);
  // reference
  long ei = 5, eu = 9, el = 7; bool eb = false, ec = true; double ed = 0.5; const char* es = "def"; std::vector<const char*> keep; const char* r; long v;
  for (size_t i = 1; i < argv.size() && !expect_exit; i++) {
    const char* s = argv[i]; bool unknown = false;
    if (pre(s, "-tint=", r)) { if (num(r, v)) { if (v < -3 || v > 120) expect_exit = true; else ei = v; } else unknown = true; }
    else if (pre(s, "-tfull=", r)) { if (num(r, v)) { if (v < INT32_MIN || v > INT32_MAX) expect_exit = true; else eu = v; } else unknown = true; }
    else if (pre(s, "-tlong=", r)) { if (num(r, v)) { if (v < 0 || v > 5000000000ll) expect_exit = true; else el = v; } else unknown = true; }
    else if (pre(s, "-tdbl=", r)) { char* e; double d = strtod(r, &e); if (e == r || *e) unknown = true; else if (!(d > 0 && d <= 4)) expect_exit = true; else ed = d; }
    else if (pre(s, "-tstr=", r)) es = r;
    else if (!strcmp(s, "-tb")) eb = true; else if (!strcmp(s, "-no-tb")) eb = false; else if (!strcmp(s, "-tbc")) ec = true; else if (!strcmp(s, "-no-tbc")) ec = false;
    else unknown = true;
    if (unknown) { if (s[0] == '-' && strict) expect_exit = true; else keep.push_back(s); } }
  int argc = argv.size(); argv.push_back(nullptr);
  if (sym_native()) atexit([] { if (!ended) onExit(); });
  parseOptions(argc, argv.data(), strict);
  ended = true;
  sym_observe("argc", argc);
  sym_check(!expect_exit, "an unknown flag or a value that is out of range is reported");
  sym_check((int)oi == ei && (int)ou == eu && (int64_t)ol == el && (double)od == ed && (bool)ob == eb && (bool)oc == ec, "every option has the value written on the command line, or its default");
  const char* sv = (const char*)os; size_t k = 0; while (k < 255 && es[k] && sv[k] == es[k]) k++;
  sym_check(k == 255 ? sv[255] == 0 : es[k] == 0 && sv[k] == 0, "a string option holds the given text (its first 255 characters)");
  sym_check(argc == (int)keep.size() + 1, "argc counts the arguments that are not options");
  for (size_t i = 0; i < keep.size(); i++) sym_check(argv[i + 1] == keep[i], "the remaining arguments keep their order");
  sym_reach("ACCEPTED"); return 0; }
