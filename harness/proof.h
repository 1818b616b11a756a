// Proof text produced by the code under test, as tokens: in the executor the stream inserters of
// the certificate are delivered to these hooks, natively the written file is read back.
#pragma once
#include "sym.h"
#include <cstdio>
#include <iostream>
#include <vector>
struct PLine { bool del; std::vector<int> lits; bool ended; };
struct PTok { bool isInt; int v; };
static std::vector<PTok>* ptoks;
extern "C" {
void* h_stream_int(void* os, long v) { if (os == (void*)&std::cout || os == (void*)&std::cerr) return os; if (!ptoks) ptoks = new std::vector<PTok>; ptoks->push_back({true, (int)v}); return os; }
void* h_stream_char(void* os, char c) { if (os == (void*)&std::cout || os == (void*)&std::cerr) return os; if (!ptoks) ptoks = new std::vector<PTok>; ptoks->push_back({false, c}); return os; }
void* h_stream_str(void* os, const char* p) { for (; *p; p++) h_stream_char(os, *p); return os; }
void* h_stream_buf(void* os, const char* p, long n) { for (long i = 0; i < n; i++) h_stream_char(os, p[i]); return os; }
}
// lines of the proof; `bad` is set if the text is not a sequence of lines "[d] lit* 0"
static std::vector<PLine> proofLines(const char* file, bool& bad) {
  bad = false;
  if (sym_native()) { if (!ptoks) ptoks = new std::vector<PTok>; FILE* f = fopen(file, "r"); int c; while (f && (c = fgetc(f)) != EOF) ptoks->push_back({false, c}); if (f) fclose(f); }
  std::vector<PLine> r; if (!ptoks) return r;
  PLine cur{false, {}, false}; bool any = false; std::vector<PTok>& t = *ptoks;
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i].isInt || t[i].v == '-' || (t[i].v >= '0' && t[i].v <= '9')) {
      int v; if (t[i].isInt) { v = t[i].v; if (i + 1 < t.size() && (t[i + 1].isInt || (t[i + 1].v != ' ' && t[i + 1].v != '\n'))) bad = true; }
      else { bool neg = t[i].v == '-'; if (neg) i++; v = 0; while (i < t.size() && !t[i].isInt && t[i].v >= '0' && t[i].v <= '9') v = v * 10 + (t[i++].v - '0'); i--; if (neg) v = -v; }
      if (cur.ended) bad = true;
      if (v == 0) cur.ended = true; else cur.lits.push_back(v);
      any = true; }
    else if (t[i].v == 'd') { if (any) bad = true; cur.del = true; any = true; }
    else if (t[i].v == '\n') { if (any) { if (!cur.ended) bad = true; r.push_back(cur); } cur = {false, {}, false}; any = false; }
    else if (t[i].v != ' ') bad = true; }
  if (any) { if (!cur.ended) bad = true; r.push_back(cur); }
  return r; }
