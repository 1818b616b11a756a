#pragma once
#include <vector>
// naive DRAT checker over literals encoded 2v+s
typedef std::vector<int> C;
static std::vector<C> db; static std::vector<char> live; static std::vector<signed char> val; static std::vector<int> tr;
static inline int lv(int l) { signed char v = val[l >> 1]; return v == 0 ? 0 : (v > 0) != ((l & 1) != 0) ? 1 : -1; }
static void setl(int l) { val[l >> 1] = (l & 1) ? -1 : 1; tr.push_back(l); }
static bool up() {      // unit propagation to fixpoint; true on conflict
  for (bool ch = true; ch;) { ch = false;
    for (size_t i = 0; i < db.size(); i++) if (live[i]) {
      int un = -1; bool sat = false, two = false;
      for (int l : db[i]) { int v = lv(l); if (v > 0) { sat = true; break; } if (v == 0) { if (un >= 0 && un != l) { two = true; break; } un = l; } }
      if (sat || two) continue; if (un < 0) return true; setl(un); ch = true; } }
  return false; }
static void undo(size_t n) { while (tr.size() > n) { val[tr.back() >> 1] = 0; tr.pop_back(); } }
static bool rup(const C& c) { size_t n = tr.size(); bool cf = false; for (int l : c) { int v = lv(l ^ 1); if (v < 0) { cf = true; break; } if (v == 0) setl(l ^ 1); } if (!cf) cf = up(); undo(n); return cf; }
static bool rat(const C& c) {
  for (int p : c) { bool all = true;
    for (size_t i = 0; i < db.size() && all; i++) if (live[i]) { bool has = false; for (int l : db[i]) has |= l == (p ^ 1); if (!has) continue; C r = c; for (int l : db[i]) if (l != (p ^ 1)) r.push_back(l); bool taut = false; for (int a : r) for (int b : r) taut |= a == (b ^ 1); if (!taut && !rup(r)) all = false; }
    if (all) return true; }
  return false; }
